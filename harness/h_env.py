"""P32-P35: vectorised environments, their workers, wrappers and observation normalisation.

The worker processes of SubprocEnvWorker are modelled by threads that run the real `_worker` function and take turns with the
main thread; pipes copy what is sent (as pickling does); which answers have arrived when the main thread waits, how far a
worker has got and when a timeout expires are symbolic choices. Shared memory is memory shared by both sides."""
import collections
import copy
import threading

from symx.ctx import harness


# ------------------------------------------------------------------ processes, pipes, shared memory
class Killed(BaseException):
    pass


class Conn:
    def __init__(self, sys_, side):
        self.sys, self.side = sys_, side
        self.inbox, self.peer, self.closed, self.proc = collections.deque(), None, False, None

    def send(self, x):
        if self.closed:
            raise OSError("handle is closed")
        if self.peer.closed or (self.side == "parent" and self.proc is not None and self.proc.dead):
            raise BrokenPipeError
        self.peer.inbox.append(copy.deepcopy(x))
        if self.side == "parent":
            self.proc.outstanding += 1
            if self.sys.eager:
                self.proc.run()
        else:
            self.proc.outstanding -= 1

    def recv(self):
        if self.closed:
            raise OSError("handle is closed")
        if self.side == "child":
            while not self.inbox:
                if self.peer.closed:
                    raise EOFError
                self.proc.pause()
            return self.inbox.popleft()
        if not self.inbox:
            self.proc.run()
        if not self.inbox:
            if self.proc.dead or self.peer.closed:
                raise EOFError
            self.sys.ctx.check(False, "waiting for an answer that never comes")
            raise RuntimeError("deadlock")
        return self.inbox.popleft()

    def poll(self, timeout=0.0):
        return bool(self.inbox)

    def close(self):
        self.closed = True


class Proc:
    def __init__(self, sys_, target, args, daemon=None, **kw):
        self.sys, self.target, self.args = sys_, target, args
        self.dead, self.started, self.error, self.outstanding = False, False, None, 0
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.killed = False
        parent, child = [a for a in args if isinstance(a, Conn)]
        parent.proc = child.proc = self
        self.child = child
        # the process gets its own handles; closing the parent's end there does not close it here
        mine = []
        for a in args:
            if a is parent:
                a = Conn(sys_, "parent")
            elif a is child:
                a = Conn(sys_, "child")
                a.inbox, a.peer, a.proc = child.inbox, parent, self
                parent.peer = a
                self.own = a
            mine.append(a)
        self.args = mine
        sys_.procs.append(self)

    def start(self):
        assert not self.started
        self.started = True
        self.thread = threading.Thread(target=self._main, daemon=True)
        self.thread.start()
        self.run()

    def _main(self):
        self.go.acquire()
        try:
            if not self.killed:
                self.target(*self.args)
        except Killed:
            pass
        except BaseException as e:  # noqa: BLE001
            self.error = e
        self.dead = True
        self.own.closed = True
        self.back.release()

    def run(self):
        """let the process work until it waits for a command"""
        if self.dead or not self.started:
            return
        self.go.release()
        self.back.acquire()
        if self.error is not None:
            e, self.error = self.error, None
            raise e

    def pause(self):
        self.back.release()
        self.go.acquire()
        if self.killed:
            raise Killed

    def join(self, timeout=None):
        self.run()
        if not self.dead and timeout is None:
            self.sys.ctx.check(False, "joining a process that never ends")
            raise RuntimeError("deadlock")

    def terminate(self):
        if self.started and not self.dead:
            self.killed = True
            self.go.release()
            self.back.acquire()
        self.dead = True

    kill = terminate

    def is_alive(self):
        return self.started and not self.dead


class Mem:
    """shared memory block"""

    def __init__(self, ctx, ctype, n):
        import ctypes
        import numpy as np
        self.ctx = ctx
        self.flat = ctx.np.zeros(n, dtype=np.dtype(ctype)) if ctx.sym else (ctype * n)()

    def get_obj(self):
        return self if self.ctx.sym else self.flat

    @property
    def _sx_mem(self):
        return self.flat


class System:
    """installs the model in place of multiprocessing"""

    def __init__(self, ctx, eager=False):
        self.ctx, self.eager, self.procs, self.clock, self.waits = ctx, eager, [], 100.0, 0
        self.expired, self.drain, self.orders, self.asked = 0, False, 1, 0

    def now(self):
        self.asked += 1
        if self.asked > 300:
            self.ctx.check(False, "polls forever without looking at the connections")
            raise RuntimeError("livelock")
        return self.clock

    def __enter__(self):
        import multiprocessing
        import multiprocessing.connection as mpc
        import time
        from multiprocessing.context import BaseContext
        import tianshou.env.worker.subproc as sp
        S = self

        class Context(BaseContext):
            def Pipe(self, duplex=True):
                a, b = Conn(S, "parent"), Conn(S, "child")
                a.peer, b.peer = b, a
                return a, b

            def Process(self, target=None, args=(), daemon=None, **kw):
                return Proc(S, target, args)

            def Array(self, t, n, **kw):
                return Mem(S.ctx, t, n)

        self.context = Context()
        self.saved = []

        def patch(o, k, v):
            self.saved.append((o, k, getattr(o, k)))
            setattr(o, k, v)
        patch(multiprocessing, "get_context", lambda *a: self.context)
        old = mpc.wait
        patch(mpc, "wait", self.wait)
        for k in list(vars(sp)):
            if vars(sp)[k] is old:
                patch(sp, k, self.wait)
        patch(time, "time", self.now)
        patch(time, "monotonic", self.now)
        patch(time, "perf_counter", self.now)
        return self

    def __exit__(self, *a):
        for o, k, v in reversed(self.saved):
            setattr(o, k, v)
        for p in self.procs:
            p.terminate()

    def wait(self, conns, timeout=None):
        """some of the connections that have or will have an answer; nothing only if the time is up"""
        ctx = self.ctx
        conns = list(conns)
        self.waits += 1
        self.asked = 0
        able = [c for c in conns if c.inbox or c.proc.outstanding > 0 or c.proc.dead]
        if not able and timeout is None:
            ctx.check(False, "waiting forever")
            raise RuntimeError("deadlock")
        ready = [c for j, c in enumerate(able) if self.drain or ctx.maybe(ctx.bool(f"arrived{self.waits}_{j}"))]
        if not ready and able and (timeout is None or self.expired >= 1):
            ready = able[:1]
        if timeout is not None:
            if ready:
                self.clock += 0.4 * timeout
            else:
                self.expired += 1
                self.clock += timeout
        for c in ready:
            if not c.inbox:
                c.proc.run()
        if len(ready) > 1 and not self.drain and self.waits <= self.orders and ctx.maybe(ctx.bool(f"order{self.waits}")):
            ready = ready[::-1]
        return ready


# ------------------------------------------------------------------ environments
class Envs:
    """factories of environments that log every call they receive"""

    def __init__(self, ctx, n, obs="array", seedable=False):
        import gymnasium as gym
        np = ctx.np
        self.ctx, self.n, self.obs, self.made = ctx, n, obs, []
        W = self

        class Space(gym.spaces.Discrete):
            def __init__(self, i):
                super().__init__(5)
                self.i = i
                self.seeds = []

            def seed(self, seed=None):
                self.seeds.append(seed)
                return [seed]

            def __deepcopy__(self, memo):
                s = Space(self.i)
                s.seeds = list(self.seeds)
                return s

        class Env(gym.Env):
            def __init__(self, i):
                self.i, self.k, self.log, self.closed, self.mark = i, 0, [], 0, ("mark", i)
                self.action_space = Space(i)
                box = gym.spaces.Box(-9.0, 9.0, (2,), dtype=np.float32)
                self.observation_space = {
                    "array": box, "dict": gym.spaces.Dict({"a": box, "b": gym.spaces.Dict({"c": gym.spaces.Box(-9.0, 9.0, (1, 2), dtype=np.float64)})}),
                    "ragged": gym.spaces.Box(-9.0, 9.0, (i + 1,)), "scalar": gym.spaces.Discrete(9), "tuple": gym.spaces.Tuple((box, box)),
                    "list": box,
                }[W.obs]

            def __deepcopy__(self, memo):
                return self

            def __reduce__(self):
                raise TypeError

            def _observe(self):
                self.k += 1
                r = lambda s: ctx.real(f"o{self.i}_{self.k}{s}")
                if W.obs in ("array", "tuple", "list"):
                    v = [float(self.i), r("x")]
                elif W.obs == "dict":
                    v = {"a": [float(self.i), r("x")], "b": {"c": [[r("y"), r("z")]]}}
                elif W.obs == "ragged":
                    v = [r(f"x{j}") for j in range(self.i + 1)]
                else:
                    v = ctx.int(f"o{self.i}_{self.k}", 0, 8)
                return v

            def _np(self, v):
                if W.obs == "dict":
                    return {"a": np.array(v["a"], dtype=np.float32), "b": {"c": np.array(v["b"]["c"])}}
                if W.obs == "tuple":
                    return (np.array(v), np.array(v))
                if W.obs == "list":
                    return list(v)
                if W.obs == "scalar":
                    return v
                return np.array(v, dtype=np.float32)

            def reset(self, **kw):
                v = self._observe()
                inf = ctx.real(f"i{self.i}_{self.k}")
                self.log.append(dict(kind="reset", obs=v, info=inf, kw=kw))
                return self._np(v), {"x": inf}

            def step(self, act):
                v = self._observe()
                inf = ctx.real(f"i{self.i}_{self.k}")
                e = dict(kind="step", act=act, obs=v, info=inf, rew=ctx.real(f"r{self.i}_{self.k}"),
                         term=ctx.bool(f"t{self.i}_{self.k}"), trunc=ctx.bool(f"u{self.i}_{self.k}"))
                self.log.append(e)
                return self._np(v), e["rew"], e["term"], e["trunc"], {"x": inf}

            def render(self, **kw):
                self.log.append(dict(kind="render", kw=kw))
                return ("picture", self.i)

            def close(self):
                self.closed += 1
        if seedable:
            def seed(self, seed=None):
                self.log.append(dict(kind="seed", seed=seed))
                return [seed, 77]
            Env.seed = seed
        self.Env = Env

    def fns(self):
        def make(i):
            e = self.Env(i)
            self.made.append(e)
            return e
        return [(lambda i=i: make(i)) for i in range(self.n)]

    def __getitem__(self, i):
        return [e for e in self.made if e.i == i][-1]

    def entries(self, i, kind):
        return [e for e in self[i].log if e["kind"] == kind]

    # --- oracle
    def check_obs(self, got, i, e, lab):
        ctx = self.ctx
        if self.obs == "dict":
            ctx.eq(got["a"], ctx.np.array(e["obs"]["a"]), lab)
            ctx.eq(got["b"]["c"], ctx.np.array(e["obs"]["b"]["c"]), lab)
            ctx.check(set(got) == {"a", "b"}, lab)
        elif self.obs == "scalar":
            ctx.eq(got, e["obs"], lab)
        else:
            ctx.eq(got, ctx.np.array(e["obs"]), lab)

    def check_reset(self, res, ids, es):
        ctx = self.ctx
        obs, info = res
        ctx.check(len(obs) == len(ids) and len(info) == len(ids), "one row per requested environment")
        for j, (i, e) in enumerate(zip(ids, es)):
            self.check_obs(obs[j], i, e, f"reset: row {j} is the observation of environment {i}")
            ctx.eq(info[j]["x"], e["info"], f"reset: info of environment {i}")

    def check_step(self, res, ids, es, lab="step"):
        ctx = self.ctx
        ctx.check(len(res) == 5 and all(len(r) == len(ids) for r in res), "one row per stepped environment")
        for j, (i, e) in enumerate(zip(ids, es)):
            self.check_obs(res[0][j], i, e, f"{lab}: row {j} is the observation of environment {i}")
            ctx.eq(res[1][j], e["rew"], f"{lab}: reward of environment {i}")
            ctx.eq(res[2][j], e["term"], f"{lab}: termination of environment {i}")
            ctx.eq(res[3][j], e["trunc"], f"{lab}: truncation of environment {i}")
            ctx.eq(res[4][j]["x"], e["info"], f"{lab}: info of environment {i}")
            ctx.check(int(res[4][j]["env_id"]) == i, f"{lab}: env_id names environment {i}")


def make(ctx, W, kind, S, **kw):
    from tianshou.env import DummyVectorEnv, ShmemVectorEnv, SubprocVectorEnv
    cls = {"dummy": DummyVectorEnv, "subproc": SubprocVectorEnv, "shmem": ShmemVectorEnv}[kind]
    if kind == "subproc":
        kw["context"] = S.context
    return cls(W.fns(), **kw)


KINDS = ["dummy", "subproc", "shmem"]


def actions(ctx, name, ids):
    return [ctx.int(f"{name}_{j}", 0, 4) for j in range(len(ids))]


# ------------------------------------------------------------------ P32: alignment
@harness("P32", params=[dict(kind=k, obs=o) for k in KINDS for o in ("array", "dict", "scalar", "list")] + [dict(kind="subproc", obs="ragged"), dict(kind="dummy", obs="ragged"), dict(kind="shmem", obs="ragged")])
def alignment(ctx, kind, obs):
    """rows correspond to the requested environments, whatever subset and order; earlier results stay as they were"""
    np = ctx.np
    W = Envs(ctx, 3, obs)
    with System(ctx, eager=ctx.pick("eager", [False, True]) if kind != "dummy" else False) as S:
        v = make(ctx, W, kind, S)
        ctx.check(len(v) == 3, "number of environments")
        first = v.reset()
        es0 = [W.entries(i, "reset")[-1] for i in range(3)]
        W.check_reset(first, [0, 1, 2], es0)
        ids = ctx.pick("ids", [None, 1, [2, 0], np.array([1, 2]), [2, 1, 0], [0]])
        want = list(range(3)) if ids is None else [ids] if isinstance(ids, int) else [int(ctx.conc(x)) for x in ids]
        a = actions(ctx, "a", want)
        r1 = v.step(np.array(a), ids)
        for i in range(3):
            ctx.check(len(W.entries(i, "step")) == want.count(i), f"environment {i} is stepped iff requested")
        es1 = [W.entries(i, "step")[-1] for i in want]
        for x, e in zip(a, es1):
            ctx.eq(e["act"], x, "each environment gets its own action")
        W.check_step(r1, want, es1)
        b = actions(ctx, "b", want)
        r2 = v.step(np.array(b), ids)
        es2 = [W.entries(i, "step")[-1] for i in want]
        for x, e in zip(b, es2):
            ctx.eq(e["act"], x, "each environment gets its own action")
        W.check_step(r2, want, es2)
        r3 = v.reset(ids, options={"o": 1})
        es3 = [W.entries(i, "reset")[-1] for i in want]
        for e in es3:
            ctx.check(e["kw"] == {"options": {"o": 1}}, "reset arguments reach the environments")
        for i in range(3):
            ctx.check(len(W.entries(i, "reset")) == 1 + want.count(i), f"environment {i} is reset iff requested")
        W.check_reset(r3, want, es3)
        # nothing handed out earlier has changed
        W.check_reset(first, [0, 1, 2], es0)
        W.check_step(r1, want, es1, "earlier step")
        W.check_step(r2, want, es2, "earlier step")
        v.close()
        for i in range(3):
            ctx.check(W[i].closed == 1, f"environment {i} is closed once")
        ctx.check(all(e.closed == 1 for e in W.made), "no environment is left open")
        for f in (v.reset, lambda: v.step(np.array(a), ids), lambda: v.get_env_attr("mark"), lambda: v.set_env_attr("mark", 1), v.seed, v.render, v.close):
            ctx.raises(AssertionError, f, "a closed vector environment refuses everything")
        for p in S.procs:
            ctx.check(p.dead, "no worker process is left")


@harness("P32", params=[dict(kind=k) for k in KINDS])
def attributes(ctx, kind):
    """attributes, seeds and rendering reach exactly the addressed environments, in order"""
    np = ctx.np
    seedable = ctx.pick("env.seed", [False, True])
    W = Envs(ctx, 3, "array", seedable)
    with System(ctx) as S:
        v = make(ctx, W, kind, S)
        ctx.check([s.i for s in v.action_space] == [0, 1, 2], "spaces of all environments in order")
        ctx.check(v.get_env_attr("mark") == [("mark", i) for i in range(3)], "attributes of all environments in order")
        ids = ctx.pick("ids", [None, 1, [2, 0], np.array([1, 2])])
        want = list(range(3)) if ids is None else [1] if isinstance(ids, int) else [int(ctx.conc(x)) for x in ids]
        ctx.check(v.get_env_attr("mark", ids) == [("mark", i) for i in want], "attributes of the requested environments in order")
        val = ctx.int("value")
        v.set_env_attr("mark", val, ids)
        ctx.eq(v.get_env_attr("mark", want), [val] * len(want), "attributes just set")
        for i in range(3):
            if i not in want:
                ctx.check(W[i].mark == ("mark", i), "other environments keep their attributes")
        how = ctx.pick("seed", ["int", "list", "none"])
        s = [11, 5, 8] if how == "list" else None if how == "none" else 40
        exp = [40, 41, 42] if how == "int" else s if how == "list" else [None] * 3
        n0 = [len(W.entries(i, "reset")) for i in range(3)]
        out = v.seed(s)
        ctx.check(len(out) == 3, "one answer per environment")
        for i in range(3):
            if seedable:
                ctx.check([e["seed"] for e in W.entries(i, "seed")] == [exp[i]], f"environment {i} gets its seed")
                ctx.check(out[i] == [exp[i], 77], "the environments' answers are returned in order")
            else:
                r = W.entries(i, "reset")[n0[i]:]
                ctx.check(len(r) == 1 and r[0]["kw"] == {"seed": exp[i]}, f"environment {i} gets its seed")
            ctx.check(v.workers[i].action_space.seeds[-1] == exp[i], f"action space of environment {i} gets its seed")
        pic = v.render()
        ctx.check(pic == [("picture", i) for i in range(3)], "renderings in order")
        n0 = [len(x.action_space.seeds) for x in v.workers]
        v.reset(ids)
        ctx.check([len(x.action_space.seeds) for x in v.workers] == n0, "a reset without a seed seeds nothing")
        v.reset(ids, seed=9)
        for i in range(3):
            if i in want:
                ctx.check(W.entries(i, "reset")[-1]["kw"] == {"seed": 9}, "reset passes the seed on")
                ctx.check(v.workers[i].action_space.seeds[n0[i]:] == [9], "and seeds the action space")
            else:
                ctx.check(len(v.workers[i].action_space.seeds) == n0[i], "other action spaces are left alone")
        v.close()


@harness("P32", params=[dict(kind=k) for k in KINDS])
def refusals(ctx, kind):
    """requests that cannot be carried out are refused"""
    np = ctx.np
    with System(ctx) as S:
        W = Envs(ctx, 2, "array")
        v = make(ctx, W, kind, S)
        v.reset()
        a = ctx.int("a", 0, 4)
        ctx.raises(AssertionError, lambda: v.step(np.array([a])), "too few actions")
        ctx.raises(AssertionError, lambda: v.step(np.array([a, a]), 1), "too many actions")
        ctx.raises(AssertionError, lambda: v.step(np.array([a, a, a])), "too many actions")
        ctx.raises(ValueError, lambda: v.step(None), "no actions")
        ctx.check(all(not W.entries(i, "step") for i in range(2)), "nothing was stepped")
        v.close()
        ctx.raises(AssertionError, lambda: make(ctx, W, kind, S, wait_num=3), "more environments to wait for than there are")
        ctx.raises(AssertionError, lambda: make(ctx, W, kind, S, timeout=-1.0), "negative timeout")
        U = Envs(ctx, 2, "tuple")
        u = make(ctx, U, kind, S)
        ctx.raises(TypeError, u.reset, "tuple observations")
        u.close()


# ------------------------------------------------------------------ P33: asynchronous stepping
@harness("P33", params=[dict(kind="subproc", n=3, wait=1), dict(kind="shmem", n=3, wait=1), dict(kind="subproc", n=3, wait=2),
                         dict(kind="subproc", n=2, wait=1, tmo=8.0), dict(kind="subproc", n=2, wait=2, tmo=8.0), dict(kind="shmem", n=2, wait=1, obs="dict")],
         thorough=[dict(kind="shmem", n=3, wait=2)] + [dict(kind=k, n=n, wait=w, tmo=t, rounds=r) for k in ("subproc", "shmem") for w in (1, 2) for t in (None, 8.0) for n, r in ((2, 4), (3, 3))])
def schedules(ctx, kind, n, wait, tmo=None, obs="array", rounds=2):
    """under every schedule each action is executed once and answered once, with the right environment's data"""
    np = ctx.np
    W = Envs(ctx, n, obs)
    with System(ctx, eager=ctx.pick("eager", [False, True]) if kind == "shmem" and wait == 1 else False) as S:
        v = make(ctx, W, kind, S, wait_num=wait, timeout=tmo)
        ctx.check(v.is_async, "asynchronous")
        v.reset()
        ready, sent, got, seen = list(range(n)), {i: [] for i in range(n)}, {i: 0 for i in range(n)}, []
        ready_seen = False
        for t in range(rounds):
            # send new actions to some idle environments, or only fetch
            fetch = t > 0 and len(ready) < n and ctx.maybe(ctx.bool(f"fetch{t}"))
            if fetch:
                r = v.step(None)
            else:
                ids = ready if t == 0 or ctx.maybe(ctx.bool(f"all{t}")) else ready[-1:]
                ids = list(ids)
                a = actions(ctx, f"a{t}", ids)
                for i, x in zip(ids, a):
                    sent[i].append(x)
                r = v.step(np.array(a), ids if t % 2 else np.array(ids))
                ready = [i for i in ready if i not in ids]
            back = [int(ctx.conc(x["env_id"])) for x in r[4]]
            out = n - len(ready)
            ctx.check(len(set(back)) == len(back) and len(back) >= 1, "every answer is given once")
            if tmo is None:
                ctx.check(len(back) >= min(wait, out), "as many answers as waited for")
            for i in back:
                ctx.check(i not in ready and got[i] < len(sent[i]), "answers only to outstanding actions")
                got[i] += 1
            es = [W.entries(i, "step")[got[i] - 1] for i in back]
            for i, e in zip(back, es):
                ctx.eq(e["act"], sent[i][got[i] - 1], f"environment {i} executed the action sent to it")
            W.check_step(r, back, es)
            seen.append((r, back, es))
            ready = ready + back
            ctx.check(sorted(v.ready_id) == sorted(ready), "ready environments")
            ctx.check(sorted(v.waiting_id) == sorted(set(range(n)) - set(ready)), "environments still stepping")
            for i in range(n):
                ctx.check(len(W.entries(i, "step")) <= len(sent[i]), "nothing is executed twice")
            busy = [i for i in range(n) if i not in ready]
            if busy and (t == rounds - 1 or not ready_seen):
                ready_seen = True
                i = busy[0]
                for f in (lambda: v.reset(i), lambda: v.step(np.array([ctx.int("late", 0, 4)]), i), lambda: v.get_env_attr("mark", [i]),
                          lambda: v.set_env_attr("mark", 1, i), lambda: v.reset(), lambda: v.get_env_attr("mark")):
                    ctx.raises(AssertionError, f, "an environment that is stepping is not interfered with")
                ctx.raises(RuntimeError, v.render, "no rendering while stepping")
                ctx.raises((AssertionError, RuntimeError), lambda: v.seed(1), "no seeding while stepping")
                ctx.check(W[i].mark == ("mark", i), "attribute untouched")
                idle = [j for j in ready]
                ctx.check(v.get_env_attr("mark", idle) == [("mark", j) for j in idle], "idle environments stay accessible")
                o = v.reset(idle)
                W.check_reset(o, idle, [W.entries(j, "reset")[-1] for j in idle])
        # everything outstanding arrives eventually, unchanged
        guard, S.drain = 0, True
        while any(got[i] < len(sent[i]) for i in range(n)):
            guard += 1
            ctx.check(guard <= n, "all answers arrive")
            if guard > n:
                break
            r = v.step(None)
            back = [int(ctx.conc(x["env_id"])) for x in r[4]]
            for i in back:
                got[i] += 1
            es = [W.entries(i, "step")[got[i] - 1] for i in back]
            for i, e in zip(back, es):
                ctx.eq(e["act"], sent[i][got[i] - 1], f"environment {i} executed the action sent to it")
            W.check_step(r, back, es)
        for r, back, es in seen:
            W.check_step(r, back, es, "earlier step")
        for i in range(n):
            ctx.check(len(W.entries(i, "step")) == len(sent[i]), "every action is executed exactly once")
        v.close()
        for i in range(n):
            ctx.check(W[i].closed == 1, "closed")


@harness("P33", params=[dict()])
def dummy_async(ctx):
    """sequential environments in asynchronous mode answer at least the requested number"""
    np = ctx.np
    n = 4
    wait = ctx.pick("wait", [1, 2, 3])
    W = Envs(ctx, n)
    with System(ctx) as S:
        v = make(ctx, W, "dummy", S, wait_num=wait)
        v.reset()
        a = actions(ctx, "a", range(n))
        r = v.step(np.array(a))
        back = [int(ctx.conc(x["env_id"])) for x in r[4]]
        ctx.check(len(back) >= wait, "as many answers as waited for")
        ctx.check(len(set(back)) == len(back), "every answer is given once")
        W.check_step(r, back, [W.entries(i, "step")[-1] for i in back])
        for i in back:
            ctx.eq(W.entries(i, "step")[-1]["act"], a[i], "each environment gets its own action")
        ctx.check(sorted(v.ready_id) == sorted(back), "ready environments")
        ctx.check(sorted(list(v.waiting_id) + back) == list(range(n)), "environments still stepping")


@harness("P33", params=[dict(kind=k) for k in ("subproc", "shmem")])
def close_while_stepping(ctx, kind):
    """closing ends every worker, whatever is outstanding"""
    np = ctx.np
    W = Envs(ctx, 2)
    with System(ctx) as S:
        v = make(ctx, W, kind, S, wait_num=1)
        v.reset()
        v.step(np.array(actions(ctx, "a", range(2))))
        v.close()
        ctx.check(v.is_closed and all(p.dead for p in S.procs), "no worker process is left")
        for i in range(2):
            ctx.check(len(W.entries(i, "step")) <= 1, "nothing is executed twice")


# ------------------------------------------------------------------ P34: wrappers
class Inner:
    """an environment that logs the actions it receives"""

    @staticmethod
    def make(ctx, space):
        import gymnasium as gym

        class E(gym.Env):
            action_space = space
            observation_space = gym.spaces.Box(-9.0, 9.0, (1,))

            def __init__(self):
                self.acts, self.k = [], 0

            def reset(self, **kw):
                return ctx.np.array([0.0]), {}

            def step(self, act):
                self.acts.append(act)
                self.k += 1
                self.last = (ctx.reals(f"o{self.k}", 1), ctx.real(f"r{self.k}"), ctx.bool(f"t{self.k}"), ctx.bool(f"u{self.k}"), {"x": ctx.real(f"x{self.k}")})
                return self.last
        return E()


def same_step(ctx, got, want, term=None):
    ctx.check(len(got) == 5, "five results")
    ctx.eq(got[0], want[0], "observation passes through")
    ctx.eq(got[1], want[1], "reward passes through")
    ctx.eq(got[2], want[2] if term is None else term, "termination")
    ctx.eq(got[3], want[3], "truncation passes through")
    ctx.eq(got[4]["x"], want[4]["x"], "info passes through")


@harness("P34", params=[dict(per=3), dict(per=(2, 4)), dict(per=(5,)), dict(per=1)])
def continuous_to_discrete(ctx, per):
    """grid index k of m in a dimension acts as low + k (high - low) / (m - 1)"""
    import gymnasium as gym
    from tianshou.env import ContinuousToDiscrete
    np = ctx.np
    dims = 2 if isinstance(per, int) else len(per)
    ks = [per] * dims if isinstance(per, int) else list(per)
    lo = [ctx.real(f"lo{d}", -4, 0) for d in range(dims)]
    hi = [ctx.real(f"hi{d}", 1, 4) for d in range(dims)]
    box = gym.spaces.Box(-np.ones(dims) if not ctx.sym else -1.0, 1.0, (dims,), dtype=np.float64)
    box.low, box.high = np.array(lo), np.array(hi)
    env = Inner.make(ctx, box)
    w = ContinuousToDiscrete(env, per if isinstance(per, int) else list(per))
    ctx.check([int(x) for x in w.action_space.nvec] == ks, "the action space offers the grid")
    rows = ctx.pick("rows", [None, 2])
    n = 1 if rows is None else rows
    a = [[ctx.int(f"a{r}_{d}", 0, ks[d] - 1) for d in range(dims)] for r in range(n)]
    exp = [[lo[d] + a[r][d] * ((hi[d] - lo[d]) / max(ks[d] - 1, 1)) for d in range(dims)] for r in range(n)]
    if rows is None:
        got = w.action(np.array(a[0]))
        ctx.eq(got, np.array(exp[0]), "grid point", tol=1e-6)
        same_step(ctx, w.step(np.array(a[0])), env.last)
        ctx.eq(env.acts[-1], np.array(exp[0]), "the environment receives the grid point", tol=1e-6)
    else:
        ctx.eq(w.action(np.array(a)), np.array(exp), "grid point", tol=1e-6)


@harness("P34", params=[dict(nvec=(2, 3)), dict(nvec=(3, 2, 2)), dict(nvec=(4,)), dict(nvec=(2, 1, 3))], thorough=[dict(nvec=(3, 4, 5)), dict(nvec=(2, 2, 2, 2))])
def multidiscrete_to_discrete(ctx, nvec):
    """the discrete actions are in one-to-one correspondence with the combinations"""
    import gymnasium as gym
    from tianshou.env import MultiDiscreteToDiscrete
    np = ctx.np
    env = Inner.make(ctx, gym.spaces.MultiDiscrete(list(nvec)))
    w = MultiDiscreteToDiscrete(env)
    tot = 1
    for x in nvec:
        tot *= x
    ctx.check(int(w.action_space.n) == tot, "as many actions as combinations")
    a, b = ctx.int("a", 0, tot - 1), ctx.int("b", 0, tot - 1)
    got = w.action(np.array(a)) if ctx.pick("scalar", [False, True]) else w.action(np.array([a, b]))[0]
    other = w.action(np.array(b))
    ctx.check(len(got) == len(nvec), "one entry per dimension")
    for d in range(len(nvec)):
        ctx.check(ctx.And(got[d] >= 0, got[d] < nvec[d]), "every entry is legal")
    ctx.implies(a != b, ctx.Or(*[got[d] != other[d] for d in range(len(nvec))]), "different actions are different combinations")
    acc, base, exp = a, tot, []
    for x in nvec:
        base //= x
        exp.append(acc // base)
        acc = acc % base
    ctx.eq(got, np.array(exp), "row-major numbering")
    same_step(ctx, w.step(np.array(a)), env.last)
    ctx.eq(env.acts[-1], np.array(exp), "the environment receives the combination")


@harness("P34")
def truncated_as_terminated(ctx):
    import gymnasium as gym
    from tianshou.env import TruncatedAsTerminated
    env = Inner.make(ctx, gym.spaces.Discrete(3))
    w = TruncatedAsTerminated(env)
    w.reset()
    a = ctx.int("a", 0, 2)
    got = w.step(a)
    same_step(ctx, got, env.last, ctx.Or(env.last[2], env.last[3]))
    ctx.eq(env.acts[-1], a, "the action passes through")


@harness("P34", params=[dict(masked=m, n=n) for m in (True, False) for n in (2, 3)] + [dict(masked=False, n=2, cont=True)])
def pettingzoo(ctx, masked, n, cont=False):
    """observations name the agent to move and its legal actions; rewards are listed in the order of the agents"""
    import gymnasium as gym
    from tianshou.env import PettingZooEnv
    np = ctx.np
    names = ["z", "y", "x"][:n]
    S = gym.spaces
    act = S.Box(-1.0, 1.0, (2,)) if cont else S.Discrete(3)

    class E:
        possible_agents = list(names)

        def __init__(self):
            self.log, self.k = [], 0
            self.rewards = {a: 0 for a in names}

        def observation_space(self, a):
            o = S.Box(-9.0, 9.0, (1,))
            return S.Dict({"observation": o, "action_mask": S.MultiBinary(3)}) if masked else o

        def action_space(self, a):
            return act

        def _new(self):
            self.k += 1
            self.agent_selection = names[ctx.conc(ctx.int(f"agent{self.k}", 0, n - 1))]
            self.o = ctx.real(f"o{self.k}")
            self.m = [ctx.int(f"m{self.k}_{j}", 0, 1) for j in range(3)]
            self.fl = (ctx.bool(f"t{self.k}"), ctx.bool(f"u{self.k}"))
            self.inf = {"x": ctx.real(f"i{self.k}")}
            order = names[::-1] if ctx.sym or True else names
            self.rewards = {a: ctx.real(f"rew{self.k}_{a}") for a in order}

        def reset(self, *a, **kw):
            self.log.append(("reset", a, kw))
            self._new()

        def step(self, a):
            self.log.append(("step", a))
            self._new()

        def last(self, observe=True):
            o = np.array([self.o])
            # like real environments: the reward of the agent to move accumulates elsewhere
            return ({"observation": o, "action_mask": np.array(self.m)} if masked else o), 99.0, self.fl[0], self.fl[1], self.inf

        def close(self):
            self.log.append(("close",))

        def render(self):
            return "picture"

        def seed(self, s=None):
            self.log.append(("seed", s))

    e = E()
    w = PettingZooEnv(e)

    def obs_ok(o):
        ctx.check(o["agent_id"] == e.agent_selection, "the agent to move")
        ctx.eq(o["obs"], np.array([e.o]), "its observation")
        if masked:
            ctx.check(len(o["mask"]) == 3, "mask length")
            for j in range(3):
                ctx.eq(o["mask"][j], e.m[j] == 1, "its legal actions")
        elif not cont:
            ctx.eq(o["mask"], [True] * 3, "everything is legal")
        else:
            ctx.check("mask" not in o, "no mask for continuous actions")
    o, info = w.reset(seed=3)
    ctx.check(e.log[-1] == ("reset", (), {"seed": 3}), "reset arguments pass through")
    obs_ok(o)
    ctx.eq(info["x"], e.inf["x"], "info passes through")
    kept = []
    for t in range(2):
        a = ctx.int(f"act{t}", 0, 2)
        o, r, te, tr, info = w.step(a)
        ctx.check(e.log[-1][0] == "step", "one step")
        ctx.eq(e.log[-1][1], a, "the action passes through")
        obs_ok(o)
        exp = [e.rewards[m] for m in names]
        kept.append((r, exp))
        ctx.eq(te, e.fl[0], "termination passes through")
        ctx.eq(tr, e.fl[1], "truncation passes through")
        ctx.eq(info["x"], e.inf["x"], "info passes through")
        for rr, ex in kept:
            ctx.eq(np.array(list(rr)), np.array(ex), "rewards of all agents in order, unaffected by later steps")
    w.seed(4)
    w.close()
    ctx.check(e.log[-2:] == [("seed", 4), ("close",)] and w.render() == "picture", "other calls pass through")


@harness("P34", params=[dict(asyn=False), dict(asyn=True)])
def venv_wrapper(ctx, asyn):
    """a wrapped vector environment differs in nothing but what the wrapper changes"""
    from tianshou.env import VectorEnvNormObs
    from tianshou.env.venv_wrappers import VectorEnvWrapper
    np = ctx.np
    W = Envs(ctx, 3)
    with System(ctx) as S:
        v = make(ctx, W, "dummy", S, **(dict(wait_num=2) if asyn else {}))
        w = ctx.pick("wrapper", [VectorEnvWrapper, VectorEnvNormObs])(v)
        norm = isinstance(w, VectorEnvNormObs)
        if norm:
            w.update_obs_rms = False        # with mean 0 and variance 1: only the scale by epsilon is left
        ctx.check(len(w) == 3 and w.is_async == asyn, "size and mode")
        ctx.check([s.i for s in w.action_space] == [0, 1, 2], "spaces")
        ids = ctx.pick("ids", [None, [2, 0], 1])
        want = [0, 1, 2] if ids is None else [1] if isinstance(ids, int) else ids
        ctx.check(w.get_env_attr("mark", ids) == [("mark", i) for i in want], "attributes")
        w.set_env_attr("mark", 5, ids)
        ctx.check([W[i].mark == 5 for i in range(3)] == [i in want for i in range(3)], "attributes are set")
        o, info = w.reset(ids)
        for j, i in enumerate(want):
            ctx.eq(info[j]["x"], W[i].log[-1]["info"], "info")
            if not norm:
                W.check_obs(o[j], i, W[i].log[-1], "observation")
        a = actions(ctx, "a", want)
        r = w.step(np.array(a), ids)
        back = [int(ctx.conc(x["env_id"])) for x in r[4]]
        ctx.check(asyn or back == want, "environments in the requested order")
        es = [W.entries(i, "step")[-1] for i in back]
        for i, e in zip(back, es):
            ctx.eq(e["act"], a[want.index(i)], "actions")
        if norm:
            r = (np.array([e["obs"] for e in es]), *r[1:])
        W.check_step(r, back, es)
        if asyn:
            while v.waiting_id:
                w.step(None)
        w.seed(3)
        ctx.check([x.action_space.seeds[-1] for x in v.workers] == [3, 4, 5], "seeds")
        ctx.check(w.render() == [("picture", i) for i in range(3)], "rendering")
        # what the collectors use
        ctx.check(w.env_num == 3 and list(w.waiting_id) == list(v.waiting_id) and sorted(w.ready_id) == sorted(v.ready_id), "bookkeeping attributes")
        w.close()
        ctx.check(v.is_closed and w.is_closed and all(W[i].closed == 1 for i in range(3)), "closed")


# ------------------------------------------------------------------ P35: running normalisation
def moments(ctx, xs):
    n = len(xs)
    m = sum(xs) / n
    return m, sum((x - m) * (x - m) for x in xs) / n


SPLITS = [(1, 1, 1), (2, 1), (1, 2), (3,), (2, 2), (1, 3)]


@harness("P35", params=[dict(d=None), dict(d=1), dict(d=2)], thorough=[dict(d=None, splits=((2, 3), (1, 1, 1, 1), (4, 1), (3, 2, 1)))])
def running_moments(ctx, d, splits=None):
    """whatever the batches, mean and variance are those of all data seen"""
    from tianshou.utils import RunningMeanStd
    np = ctx.np
    split = ctx.pick("split", list(splits or SPLITS))
    rms = RunningMeanStd()
    rows = []
    for k, n in enumerate(split):
        data = ctx.reals(f"x{k}", (n,) if d is None else (n, d), -8, 8)
        keep = [data[i] for i in range(n)]
        before = np.array(data)
        ctx.check(rms.update(data) is None, "update")
        ctx.eq(data, before, "the data are left alone")
        rows += keep
    ctx.check(int(rms.count) == sum(split), "count")
    for j in range(1 if d is None else d):
        m, v = moments(ctx, [r if d is None else r[j] for r in rows])
        ctx.eq(rms.mean if d is None else rms.mean[j], m, "mean of all data")
        ctx.eq(rms.var if d is None else rms.var[j], v, "population variance of all data")


@harness("P35", params=[dict(d=None), dict(d=2)])
def running_norm(ctx, d):
    """normalised = (x - mean) / sqrt(variance + eps), clipped as configured"""
    from tianshou.utils import RunningMeanStd
    np = ctx.np
    shape = () if d is None else (d,)
    mean = ctx.real("mean", -4, 4) if d is None else ctx.reals("mean", d, -4, 4)
    std = ctx.pick("std", [0.5, 2.0, 1.0])
    clip = ctx.pick("clip", [10.0, 0.5, None])
    rms = RunningMeanStd(mean, std if d is None else np.full(d, std), clip, 0.0)
    x = ctx.reals("x", (2,) + shape, -16, 16)
    before = np.array(x)
    got = rms.norm(x)
    ctx.eq(x, before, "the data are left alone")
    for i in range(2):
        for j in range(1 if d is None else d):
            g, xx, mm = (got[i], x[i], mean) if d is None else (got[i][j], x[i][j], mean[j])
            z = (xx - mm) / std
            e = z if clip is None else ctx.ite(z > clip, clip, ctx.ite(z < -clip, -clip, z))
            ctx.eq(g, e, "standardised with the mean and standard deviation given", tol=1e-6)


@harness("P35", params=[dict(upd=True), dict(upd=False)])
def norm_obs(ctx, upd):
    """observations of a vector environment are normalised by the moments of everything seen so far, current step included"""
    from tianshou.env import VectorEnvNormObs
    from tianshou.utils import RunningMeanStd
    np = ctx.np
    W = Envs(ctx, 2, "array")
    with System(ctx) as S:
        v = make(ctx, W, "dummy", S)
        w = VectorEnvNormObs(v, update_obs_rms=upd)
        seen = []
        log = []

        class Spy(RunningMeanStd):
            def update(self, a):
                log.append(("update", np.array(a)))

            def norm(self, a):
                log.append(("norm", np.array(a)))
                return a * 2 + 1
        w.set_obs_rms(Spy())
        ctx.check(isinstance(w.get_obs_rms(), Spy), "the normaliser in use")

        def expect(raw, got, what):
            raw = np.array(raw)
            ctx.check([k for k, _ in log] == (["update", "norm"] if upd else ["norm"]), f"{what}: moments are updated first, iff requested")
            for _, a in log:
                ctx.eq(a, raw, f"{what}: raw observations")
            ctx.eq(got, raw * 2 + 1, f"{what}: normalised observations")
            log.clear()
        o, _ = w.reset()
        expect([W[i].log[-1]["obs"] for i in range(2)], o, "reset")
        o, _ = w.reset([1])
        expect([W[1].log[-1]["obs"]], o, "partial reset")
        ids = ctx.pick("ids", [None, [1], [1, 0]])
        want = [0, 1] if ids is None else ids
        r = w.step(np.array(actions(ctx, "a", want)), ids)
        es = [W[i].log[-1] for i in want]
        expect([e["obs"] for e in es], r[0], "step")
        for j, e in enumerate(es):
            ctx.eq(r[1][j], e["rew"], "rewards are left alone")
            ctx.eq(r[2][j], e["term"], "flags are left alone")
            ctx.eq(r[4][j]["x"], e["info"], "infos are left alone")
