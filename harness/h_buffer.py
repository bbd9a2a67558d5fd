"""Replay buffer properties P01-P06, P10, P11: reference model is a list of everything added."""
from symx.ctx import harness


class Log:
    """reference model of one ring of capacity n whose first slot has global index off"""

    def __init__(self, n, off=0):
        self.n, self.off = n, off
        self.items = []      # every transition since the last reset
        self.start = 0       # insertions since reset when the current episode began
        self.ret, self.length = 0, 0

    def add(self, ctx, d):
        """-> (slot, return, length, start slot) that the buffer must report; forks on done"""
        slot = len(self.items) % self.n + self.off
        self.items.append(d)
        self.ret = self.ret + d["rew"]
        self.length += 1
        done = ctx.maybe(ctx.Or(d["terminated"], d["truncated"]))
        st = self.start % self.n + self.off
        out = (slot, self.ret if done else self.ret * 0, self.length if done else 0, st)
        if done:
            self.ret, self.length, self.start = 0, 0, len(self.items)
        d["done"] = done
        return out

    def reset(self, keep):
        self.items = []
        self.start = 0
        if not keep:
            self.ret, self.length = 0, 0

    def push(self, d):
        self.items.append(d)
        return (len(self.items) - 1) % self.n + self.off

    def live(self):
        """(slot, item) of the retained transitions, oldest first"""
        k = min(self.n, len(self.items))
        m = len(self.items)
        return [((m - k + i) % self.n + self.off, self.items[m - k + i]) for i in range(k)]

    def prev(self, j):
        """chronological predecessor of the j-th retained transition"""
        lv = self.live()
        return j if j == 0 or lv[j - 1][1]["done"] else j - 1

    def next(self, j):
        lv = self.live()
        return j if j == len(lv) - 1 or lv[j][1]["done"] else j + 1

    def history(self, j, k):
        """chronological numbers of the k frames ending at j, repeating the episode's first frame"""
        out = [j]
        for _ in range(k - 1):
            out.insert(0, self.prev(out[0]))
        return out

    def unfinished(self):
        lv = self.live()
        return [lv[-1][0]] if lv and not lv[-1][1]["done"] else []


def transition(ctx, t, done=None, obs_dim=None, flags="sym"):
    if flags == "sym":
        term, trunc = ctx.bool(f"term{t}"), ctx.bool(f"trunc{t}")
    elif flags == "one":                    # one symbolic flag: fewer paths where the kind of ending is irrelevant
        term, trunc = ctx.bool(f"term{t}"), False
    elif flags == "trunc":
        term, trunc = False, ctx.bool(f"trunc{t}")
    else:
        term, trunc = flags, False
    real = (lambda n: ctx.real(n)) if obs_dim is None else (lambda n: ctx.reals(n, obs_dim))
    return dict(obs=real(f"obs{t}"), act=ctx.int(f"act{t}", -9, 9), rew=ctx.real(f"rew{t}"), terminated=term, truncated=trunc,
                obs_next=real(f"obsn{t}"), info={"k": ctx.real(f"info{t}")}, policy={"p": ctx.real(f"pol{t}")})


KEYS = ("obs", "act", "rew", "terminated", "truncated", "obs_next")


def to_batch(ctx, d):
    from tianshou.data import Batch
    np = ctx.np
    return Batch(**{k: np.array(d[k]) for k in KEYS}, info=Batch(k=np.array(d["info"]["k"])), policy=Batch(p=np.array(d["policy"]["p"])))


def to_batch_n(ctx, ds):
    from tianshou.data import Batch
    np = ctx.np
    return Batch(**{k: np.array([d[k] for d in ds]) for k in KEYS}, info=Batch(k=np.array([d["info"]["k"] for d in ds])),
                 policy=Batch(p=np.array([d["policy"]["p"] for d in ds])))


def done_of(ctx, d):
    return ctx.Or(d["terminated"], d["truncated"])


def check_row(ctx, row, d, lab):
    for k in KEYS:
        ctx.eq(row[k], d[k], f"{lab}: {k}")
    ctx.eq(row["done"], done_of(ctx, d), f"{lab}: done")
    ctx.eq(row["info"]["k"], d["info"]["k"], f"{lab}: info")
    ctx.eq(row["policy"]["p"], d["policy"]["p"], f"{lab}: policy")


def make_vec(sizes):
    """vector buffer plus its reference rings"""
    from tianshou.data import ReplayBuffer, ReplayBufferManager, VectorReplayBuffer
    if len(set(sizes)) == 1:
        buf = VectorReplayBuffer(sum(sizes), len(sizes))
    else:
        buf = ReplayBufferManager([ReplayBuffer(s) for s in sizes])
    off, logs = 0, []
    for s in sizes:
        logs.append(Log(s, off))
        off += s
    return buf, logs


def routes(ctx, name, n, mode, last=False):
    """which sub-buffers receive data in this call: None (all, in order) or an id list"""
    if mode == "last":
        mode = "pick" if last else "all"
    if mode == "all":
        return None
    opts = {2: [None, [1], [1, 0]], 3: [None, [2, 0], [1]]}[n]
    return ctx.pick(name, opts)


def vec_add(ctx, buf, logs, t, ids, flags="sym", model=True):
    use = list(range(len(logs))) if ids is None else ids
    if flags == "shared":                   # both kinds of ending decided once for all environments of the step
        sh = transition(ctx, f"{t}sh")
    ds = [transition(ctx, f"{t}e{e}", flags=False if flags == "shared" else flags) for e in use]
    if flags == "shared":
        ds = [dict(d, terminated=sh["terminated"], truncated=sh["truncated"]) for d in ds]
    out = buf.add(to_batch_n(ctx, ds)) if ids is None else buf.add(to_batch_n(ctx, ds), buffer_ids=ids)
    exp = [logs[e].add(ctx, d) for e, d in zip(use, ds)] if model else [(logs[e].push(d),) for e, d in zip(use, ds)]
    return out, exp


# ------------------------------------------------------------------ P01 retention
@harness("P01", params=[dict(size=s, n=n) for s, n in ((1, 3), (2, 4), (3, 5))], thorough=[dict(size=4, n=7), dict(size=5, n=7)])
def ring_single(ctx, size, n):
    """one buffer of capacity `size`, n adds with symbolic contents"""
    from tianshou.data import ReplayBuffer
    buf = ReplayBuffer(size)
    log = Log(size)
    for t in range(n):
        d = transition(ctx, t)
        idx, *_ = buf.add(to_batch(ctx, d))
        ctx.eq(idx, [log.push(d)], f"add {t} returns the slot written")
        ctx.check(len(buf) == min(t + 1, size), f"length after add {t}")
    for p, d in log.live():
        check_row(ctx, buf[p], d, f"slot {p}")
    allb = buf[:]
    ctx.check(len(allb) == len(log.live()), "buf[:] returns every retained transition once")
    for i, (p, d) in enumerate(log.live()):
        check_row(ctx, allb[i], d, f"chronological row {i}")


@harness("P01", params=[dict(sizes=(2, 2), n=3, mode="pick"), dict(sizes=(1, 3), n=3, mode="pick"), dict(sizes=(2, 2, 2), n=3, mode="all"), dict(sizes=(3, 2, 1), n=2, mode="pick")],
         thorough=[dict(sizes=(2, 2), n=5, mode="pick"), dict(sizes=(3, 2, 1), n=4, mode="pick")])
def ring_vector(ctx, sizes, n, mode):
    """vector buffer, n add calls each routed to a symbolically chosen set of sub-buffers"""
    buf, logs = make_vec(sizes)
    for t in range(n):
        ids = routes(ctx, f"route{t}", len(sizes), mode)
        (idx, *_), exp = vec_add(ctx, buf, logs, t, ids, flags="sym" if t == n - 1 else False, model=False)
        ctx.eq(idx, [e[0] for e in exp], f"add {t} returns the slots written")
        ctx.check(len(buf) == sum(len(lg.live()) for lg in logs), f"length after add {t}")
    rows = [r for lg in logs for r in lg.live()]
    for p, d in rows:
        check_row(ctx, buf[p], d, f"slot {p}")
    allb = buf[:]
    ctx.check(len(allb) == len(rows), "buf[:] returns every retained transition once")
    for i, (p, d) in enumerate(rows):
        check_row(ctx, allb[i], d, f"chronological row {i}")
    for e, lg in enumerate(logs):
        ctx.check(len(buf.buffers[e]) == len(lg.live()), f"sub-buffer {e} length")
        for p, d in lg.live():
            check_row(ctx, buf.buffers[e][p - lg.off], d, f"sub-buffer {e} shares storage")


@harness("P01", params=[dict(size=2, n=3)], thorough=[dict(size=3, n=5)])
def ring_no_alias(ctx, size, n):
    """adding must copy: changing the caller's arrays, or what was read, later leaves the buffer as it was"""
    from tianshou.data import Batch, ReplayBuffer
    np = ctx.np
    buf = ReplayBuffer(size)
    log = Log(size)
    for t in range(n):
        d = transition(ctx, t, obs_dim=2, flags="one")
        b = to_batch(ctx, d)
        obs = b.obs
        keys = sorted(b.keys())
        buf.add(b)
        ctx.check(sorted(b.keys()) == keys, "the batch given to add keeps its keys")
        log.push(dict(d, obs=np.array(d["obs"]), obs_next=np.array(d["obs_next"])))
        obs[...] = ctx.real("noise")
        b.obs_next[...] = ctx.real("noise")
    got, idx = buf.sample(0)
    got.obs[...] = ctx.real("noise")
    for p, d in log.live():
        check_row(ctx, buf[p], d, f"slot {p}")


# ------------------------------------------------------------------ P02 episode accounting
@harness("P02", params=[dict(size=s, n=n) for s, n in ((1, 3), (2, 5), (3, 5))], thorough=[dict(size=4, n=7), dict(size=3, n=8)])
def episodes_single(ctx, size, n):
    from tianshou.data import ReplayBuffer
    buf = ReplayBuffer(size)
    log = Log(size)
    for t in range(n):
        d = transition(ctx, t, flags="sym" if t < 2 else "one")
        out = buf.add(to_batch(ctx, d))
        exp = log.add(ctx, d)
        for o, e, what in zip(out, exp, ("index", "return", "length", "start")):
            ctx.eq(o, [e], f"add {t}: episode {what}")


@harness("P02", params=[dict(size=3, n=4, at=a) for a in (1, 2, 3)], thorough=[dict(size=3, n=6, at=4)])
def episodes_reset(ctx, size, n, at):
    """reset in the middle, with and without keeping the running statistics"""
    from tianshou.data import ReplayBuffer, VectorReplayBuffer
    keep = ctx.pick("keep", [False, True])
    vec = ctx.pick("vec", [False, True])
    buf = VectorReplayBuffer(size, 1) if vec else ReplayBuffer(size)
    log = Log(size)
    for t in range(n):
        if t == at:
            buf.reset(keep_statistics=keep)
            log.reset(keep)
            ctx.check(len(buf) == 0, "empty after reset")
            ctx.check(len(buf.sample_indices(0)) == 0, "nothing to sample after reset")
        d = transition(ctx, t, flags="one")
        out = buf.add(to_batch_n(ctx, [d])) if vec else buf.add(to_batch(ctx, d))
        exp = log.add(ctx, d)
        for o, e, what in zip(out, exp, ("index", "return", "length", "start")):
            ctx.eq(o, [e], f"add {t}: episode {what}")
        ctx.check(len(buf) == len(log.live()), f"length after add {t}")


@harness("P02", params=[dict(sizes=(2, 2), n=3, mode="pick"), dict(sizes=(2, 2, 2), n=2, mode="pick"), dict(sizes=(1, 3), n=3, mode="all")],
         thorough=[dict(sizes=(2, 2), n=5, mode="pick"), dict(sizes=(3, 1, 2), n=4, mode="all")])
def episodes_vector(ctx, sizes, n, mode):
    buf, logs = make_vec(sizes)
    for t in range(n):
        ids = routes(ctx, f"route{t}", len(sizes), mode)
        out, exp = vec_add(ctx, buf, logs, t, ids, flags="one")
        for k, what in enumerate(("index", "return", "length", "start")):
            ctx.eq(out[k], [e[k] for e in exp], f"add {t}: episode {what}")


@harness("P02", params=[dict(n=3)], thorough=[dict(n=5)])
def episodes_reused_reward(ctx, n):
    """vector rewards handed over in one array that the caller overwrites for every step"""
    from tianshou.data import Batch, ReplayBuffer
    np = ctx.np
    buf = ReplayBuffer(4)
    r = np.zeros(2)
    acc = [0, 0]
    for t in range(n):
        rew = ctx.reals(f"rew{t}", 2)
        r[...] = rew
        d = ctx.bool(f"d{t}")
        out = buf.add(Batch(obs=np.array([0.0]), act=0, rew=r, terminated=d, truncated=False, obs_next=np.array([0.0]), info=Batch()))
        acc = [a + x for a, x in zip(acc, rew)]
        ctx.eq(r, rew, f"add {t}: the caller's rewards are left alone")
        dn = ctx.maybe(d)
        ctx.eq(out[1][0], acc if dn else [0.0, 0.0], f"add {t}: per-agent return")
        if dn:
            acc = [0, 0]


@harness("P02", params=[dict(n=4)])
def episodes_vector_reward(ctx, n):
    """one reward per agent: returns are accumulated per agent"""
    from tianshou.data import Batch, VectorReplayBuffer
    np = ctx.np
    buf = VectorReplayBuffer(4, 2)
    ret = [[0, 0], [0, 0]]
    for t in range(n):
        rew = ctx.reals(f"rew{t}", (2, 2))
        done = [ctx.bool(f"d{t}_{e}") for e in range(2)]
        out = buf.add(Batch(obs=np.array([[0.0], [0.0]]), act=np.array([0, 0]), rew=rew, terminated=np.array(done),
                            truncated=np.array([False, False]), obs_next=np.array([[0.0], [0.0]]), info=Batch()))
        for e in range(2):
            ret[e] = [ret[e][a] + rew[e, a] for a in range(2)]
            dn = ctx.maybe(done[e])
            ctx.eq(out[1][e], ret[e] if dn else [0.0, 0.0], f"add {t} env {e}: per-agent return")
            if dn:
                ret[e] = [0, 0]


# ------------------------------------------------------------------ P03 navigation
def check_nav(ctx, buf, logs):
    np = ctx.np
    rows = [(lg, j) for lg in logs for j in range(len(lg.live()))]
    if rows:
        allidx = [lg.live()[j][0] for lg, j in rows]
        ctx.eq(buf.prev(np.array(allidx)), [lg.live()[lg.prev(j)][0] for lg, j in rows], "prev of every retained index")
        ctx.eq(buf.next(np.array(allidx)), [lg.live()[lg.next(j)][0] for lg, j in rows], "next of every retained index")
        # one symbolic index
        r = ctx.int("which", 0, len(rows) - 1)
        i = np.array(allidx)[r]
        ctx.eq(buf.prev(np.array([i])), [np.array([lg.live()[lg.prev(j)][0] for lg, j in rows])[r]], "prev of one index")
        lg, j = rows[-1]
        ctx.eq(buf.prev(allidx[-1]), lg.live()[lg.prev(j)][0], "prev of a plain int")
        ctx.eq(buf.next(allidx[-1]), lg.live()[lg.next(j)][0], "next of a plain int")
    exp = [i for lg in logs for i in lg.unfinished()]
    ctx.eq(np.sort(buf.unfinished_index()), sorted(exp), "unfinished_index")


@harness("P03", params=[dict(size=s, n=n) for s, n in ((1, 2), (3, 2), (3, 4), (4, 6))], thorough=[dict(size=5, n=8), dict(size=4, n=9)])
def nav_single(ctx, size, n):
    from tianshou.data import ReplayBuffer
    buf = ReplayBuffer(size)
    log = Log(size)
    for t in range(n):
        d = transition(ctx, t, flags="sym" if t == 1 else "one")
        buf.add(to_batch(ctx, d))
        log.add(ctx, d)
    check_nav(ctx, buf, [log])


@harness("P03", params=[dict(size=3, n=2, m=2)], thorough=[dict(size=3, n=4, m=2)])
def nav_after_reset(ctx, size, n, m):
    """flags left behind by data from before a reset must not matter"""
    from tianshou.data import ReplayBuffer, VectorReplayBuffer
    vec = ctx.pick("vec", [False, True])
    buf = VectorReplayBuffer(size, 1) if vec else ReplayBuffer(size)
    log = Log(size)
    for t in range(n + m):
        if t == n:
            buf.reset()
            log.reset(False)
        d = transition(ctx, t, flags="one")
        buf.add(to_batch_n(ctx, [d]) if vec else to_batch(ctx, d))
        log.add(ctx, d)
        if t >= n:
            check_nav(ctx, buf, [log])


@harness("P03", params=[dict(sizes=(2, 2), n=3, mode="last"), dict(sizes=(3, 3), n=3, mode="last"), dict(sizes=(1, 3, 2), n=2, mode="all"), dict(sizes=(2, 1, 2), n=2, mode="pick")],
         thorough=[dict(sizes=(2, 2), n=3, mode="pick"), dict(sizes=(3, 3), n=4, mode="all"), dict(sizes=(3, 2), n=5, mode="all"), dict(sizes=(2, 2, 2), n=4, mode="all"), dict(sizes=(2, 3), n=4, mode="pick")], max_paths=6000)
def nav_vector(ctx, sizes, n, mode):
    buf, logs = make_vec(sizes)
    for t in range(n):
        ids = routes(ctx, f"route{t}", len(sizes), mode, t == n - 1) if t else None
        vec_add(ctx, buf, logs, t, ids, flags="one")
    check_nav(ctx, buf, logs)


# ------------------------------------------------------------------ P04 episode retrieval
@harness("P04", params=[dict(sizes=(4,)), dict(sizes=(3, 3)), dict(sizes=(2, 3, 1))], thorough=[dict(sizes=(5, 4, 3, 2))])
def interval_indices(ctx, sizes):
    """every (start, stop) pair"""
    from tianshou.data import ReplayBuffer
    buf = ReplayBuffer(sizes[0]) if len(sizes) == 1 else make_vec(sizes)[0]
    total = sum(sizes)
    start, stop = ctx.int("start", 0, total - 1), ctx.int("stop", 0, total)
    kind, val = ctx.outcome(lambda: buf.get_buffer_indices(start, stop))
    start, stop = ctx.conc(start), ctx.conc(stop)
    edges = [sum(sizes[:i]) for i in range(len(sizes) + 1)]
    sub = lambda i: max([k for k in range(len(sizes)) if edges[k] <= i], default=-1) if i >= 0 else -1
    if sub(start) != sub(stop - 1):
        ctx.check(kind == "err" and val == "ValueError", f"[{start},{stop}) is rejected with ValueError")
        return
    lo, hi = edges[sub(start)], edges[sub(start) + 1]
    exp = list(range(start, stop)) if stop > start else list(range(start, hi)) + list(range(lo, stop))
    ctx.check(kind == "ok", f"[{start},{stop}) is accepted")
    if kind == "ok":
        ctx.eq(val, exp, f"indices of [{start},{stop})")


@harness("P04", params=[dict(sizes=(3,), n=4), dict(sizes=(4,), n=6), dict(sizes=(2, 3), n=3)], thorough=[dict(sizes=(4,), n=9), dict(sizes=(3, 3), n=5)])
def episode_indices(ctx, sizes, n):
    """when an episode that fits ends, the reported start and end select exactly its transitions in order"""
    from tianshou.data import ReplayBuffer
    if len(sizes) == 1:
        buf, logs = ReplayBuffer(sizes[0]), [Log(sizes[0])]
    else:
        buf, logs = make_vec(sizes)
    episodes = [[] for _ in logs]
    for t in range(n):
        if len(sizes) == 1:
            d = transition(ctx, t, flags="one")
            out, ds = buf.add(to_batch(ctx, d)), [d]
            logs[0].add(ctx, d)
        else:
            out, _ = vec_add(ctx, buf, logs, t, None, flags="one")
            ds = [lg.items[-1] for lg in logs]
        for e, (lg, d) in enumerate(zip(logs, ds)):
            episodes[e].append((lg.live()[-1][0], d))
            if d["done"]:
                ep, episodes[e] = episodes[e], []
                if len(ep) <= lg.n:
                    idx = buf.get_buffer_indices(int(ctx.conc(out[3][e])), int(ctx.conc(out[0][e])) + 1)
                    ctx.eq(idx, [i for i, _ in ep], f"indices of the episode ending at step {t} env {e}")
                    rows = buf[idx]
                    for r, (_, dd) in enumerate(ep):
                        check_row(ctx, rows[r], dd, f"episode row {r}")


# ------------------------------------------------------------------ P05 sampling
@harness("P05", params=[dict(size=s, n=n) for s, n in ((3, 2), (3, 3), (3, 5))], thorough=[dict(size=5, n=8)])
def sample_single(ctx, size, n):
    from tianshou.data import ReplayBuffer
    np = ctx.np
    buf = ReplayBuffer(size)
    log = Log(size)
    ctx.eq(buf.sample_indices(-1), np.array([], dtype=int), "negative size gives nothing")
    for t in range(n):
        d = transition(ctx, t, flags="one")
        buf.add(to_batch(ctx, d))
        log.push(d)
    live = log.live()
    k = len(live)
    ctx.eq(buf.sample_indices(0), [p for p, _ in live], "size 0 returns every retained index once, oldest first")
    ctx.eq(buf.sample_indices(-2), np.array([], dtype=int), "negative size gives nothing")
    for bs in (1, 3, None):
        batch, idx = buf.sample(bs)
        m = k if bs is None else bs
        ctx.check(len(idx) == m, f"sample({bs}) returns the requested number")
        for i in range(m):
            ctx.check(ctx.Or(*[idx[i] == p for p, _ in live]), f"sample({bs}): index retained")
            for p, d in live:
                ctx.implies(idx[i] == p, ctx.eqv(batch.obs[i], d["obs"]), f"sample({bs}): row belongs to index")
                ctx.implies(idx[i] == p, ctx.eqv(batch.rew[i], d["rew"]), f"sample({bs}): reward belongs to index")
        for p, _ in live:
            for q, _ in live:
                ctx.reach(ctx.And(idx[0] == p, idx[m - 1] == q) if m > 1 else idx[0] == p, f"sample({bs}): {p} first, {q} last")


@harness("P05", params=[dict(sizes=(2, 2), n=2, mode="pick", bs=2), dict(sizes=(3, 2, 1), n=2, mode="all", bs=2), dict(sizes=(1, 3), n=3, mode="pick", bs=3)],
         thorough=[dict(sizes=(2, 3, 2), n=3, mode="pick", bs=3)], max_paths=6000)
def sample_vector(ctx, sizes, n, mode, bs):
    buf, logs = make_vec(sizes)
    for t in range(n):
        ids = routes(ctx, f"route{t}", len(sizes), mode)
        vec_add(ctx, buf, logs, t, ids, flags=False, model=False)
    live = [r for lg in logs for r in lg.live()]
    ctx.eq(buf.sample_indices(0), [p for p, _ in live], "size 0: every retained index once, per sub-buffer oldest first")
    ctx.check(len(buf.sample_indices(-1)) == 0, "negative size gives nothing")
    batch, idx = buf.sample(bs)
    ctx.check(len(idx) == bs, "sample returns the requested number")
    for i in range(bs):
        ctx.check(ctx.Or(*[idx[i] == p for p, _ in live]), "sampled index is retained")
        for p, d in live:
            ctx.implies(idx[i] == p, ctx.eqv(batch.obs[i], d["obs"]), "row belongs to index")
            ctx.implies(idx[i] == p, ctx.eqv(batch.rew[i], d["rew"]), "reward belongs to index")
    for p, _ in live:
        ctx.reach(ctx.Or(*[idx[i] == p for i in range(bs)]), f"slot {p} sampled with fill levels {[len(lg.live()) for lg in logs]}")
    idx = buf.sample_indices(None)
    ctx.eq(ctx.np.sort(idx), sorted(p for p, _ in live), "size None: as many indices as there are data, all of them retained")


@harness("P05", params=[dict(size=4, n=4, stack=2, vec=False), dict(size=3, n=5, stack=3, vec=False), dict(size=4, n=3, stack=2, vec=True)],
         thorough=[dict(size=5, n=7, stack=3, vec=False), dict(size=6, n=4, stack=3, vec=True)])
def sample_stackable(ctx, size, n, stack, vec):
    """with sample_avail only indices whose whole frame history is available are sampled"""
    from tianshou.data import ReplayBuffer, VectorReplayBuffer
    if vec:
        buf = VectorReplayBuffer(size, 2, stack_num=stack, sample_avail=True)
        logs = [Log(size // 2), Log(size // 2, size // 2)]
    else:
        buf, logs = ReplayBuffer(size, stack_num=stack, sample_avail=True), [Log(size)]
    for t in range(n):
        if vec:
            vec_add(ctx, buf, logs, t, None, flags="one")
        else:
            d = transition(ctx, t, flags="one")
            buf.add(to_batch(ctx, d))
            logs[0].add(ctx, d)
    ok = [lg.live()[j][0] for lg in logs for j in range(len(lg.live())) if len(set(lg.history(j, stack))) == stack]
    ctx.eq(buf.sample_indices(0), ok, "exactly the indices with a complete history, oldest first")
    ctx.check(len(buf.sample_indices(-1)) == 0, "negative size gives nothing")
    if ok:
        idx = buf.sample_indices(2)
        ctx.check(len(idx) == 2, "requested number")
        for i in range(2):
            ctx.check(ctx.Or(*[idx[i] == p for p in ok]), "sampled index has a complete history")
        for p in ok:
            ctx.reach(ctx.Or(idx[0] == p, idx[1] == p), f"{p} sampled out of {ok}")


# ------------------------------------------------------------------ P06 frame stacking
@harness("P06", params=[dict(size=3, n=4, stack=2, vec=False), dict(size=4, n=3, stack=3, vec=False), dict(size=4, n=3, stack=2, vec=True)],
         thorough=[dict(size=4, n=7, stack=3, vec=False), dict(size=6, n=4, stack=3, vec=True)])
def stack_frames(ctx, size, n, stack, vec):
    from tianshou.data import ReplayBuffer, VectorReplayBuffer
    np = ctx.np
    save_next = ctx.pick("save_next", [True, False])
    kw = dict(stack_num=stack, ignore_obs_next=not save_next)
    if vec:
        buf, logs = VectorReplayBuffer(size, 2, **kw), [Log(size // 2), Log(size // 2, size // 2)]
    else:
        buf, logs = ReplayBuffer(size, **kw), [Log(size)]
    for t in range(n):
        if vec:
            vec_add(ctx, buf, logs, t, None, flags="one")
        else:
            d = transition(ctx, t, flags="one")
            buf.add(to_batch(ctx, d))
            logs[0].add(ctx, d)
    rows = [(lg, j) for lg in logs for j in range(len(lg.live()))]
    idx = np.array([lg.live()[j][0] for lg, j in rows])
    got = buf[idx]
    for r, (lg, j) in enumerate(rows):
        lv = lg.live()
        ctx.eq(got.obs[r], [lv[h][1]["obs"] for h in lg.history(j, stack)], f"stacked observation of index {lv[j][0]}")
        if save_next:
            exp = [lv[h][1]["obs_next"] for h in lg.history(j, stack)]
        else:
            exp = [lv[h][1]["obs"] for h in lg.history(lg.next(j), stack)]
        ctx.eq(got.obs_next[r], exp, f"stacked next observation of index {lv[j][0]}")
        ctx.eq(got.rew[r], lv[j][1]["rew"], "reward is not stacked")
        ctx.eq(got.info.k[r], [lv[h][1]["info"]["k"] for h in lg.history(j, stack)], "stacked info")
        ctx.eq(buf.get(idx, "act", stack_num=stack)[r], [lv[h][1]["act"] for h in lg.history(j, stack)], "get() stacks any key")
        ctx.eq(buf.get(idx, "obs", stack_num=1)[r], lv[j][1]["obs"], "explicit stack_num overrides the default")


@harness("P06", params=[dict(size=3, n=3, vec=False), dict(size=4, n=2, vec=True)], thorough=[dict(size=3, n=5, vec=False)])
def store_last_frame(ctx, size, n, vec):
    """save_only_last_obs keeps the last frame of the stacked observation given; ignore_obs_next drops obs_next"""
    from tianshou.data import Batch, ReplayBuffer, VectorReplayBuffer
    np = ctx.np
    ign = ctx.pick("ignore", [False, True])
    kw = dict(save_only_last_obs=True, ignore_obs_next=ign)
    buf, logs = (VectorReplayBuffer(size, 2, **kw), [Log(size // 2), Log(size // 2, size // 2)]) if vec else (ReplayBuffer(size, **kw), [Log(size)])
    for t in range(n):
        k = len(logs)
        obs, obsn = ctx.reals(f"obs{t}", (k, 3)), ctx.reals(f"obsn{t}", (k, 3))
        rew, term = ctx.reals(f"rew{t}", k), ctx.bools(f"term{t}", k)
        b = Batch(obs=obs, act=np.zeros(k), rew=rew, terminated=term, truncated=np.zeros(k, dtype=bool), obs_next=obsn, info=Batch())
        single = not vec and ctx.pick(f"stacked{t}", [True, False])
        buf.add(b[0] if single else b, **({} if vec or single else {"buffer_ids": [0]}))
        for e, lg in enumerate(logs):
            lg.add(ctx, dict(obs=obs[e, 2], obs_next=obsn[e, 2], rew=rew[e], terminated=term[e], truncated=False))
    for lg in logs:
        for j, (p, d) in enumerate(lg.live()):
            row = buf[p]
            ctx.eq(row.obs, d["obs"], "only the last frame is kept")
            ctx.eq(row.obs_next, lg.live()[lg.next(j)][1]["obs"] if ign else d["obs_next"], "next observation")
            ctx.eq(row.rew, d["rew"], "reward")


# ------------------------------------------------------------------ P10 cached buffer
@harness("P10", params=[dict(main=4, cap=2, envs=1, n=4), dict(main=3, cap=2, envs=2, n=3), dict(main=5, cap=3, envs=2, n=3)],
         thorough=[dict(main=4, cap=3, envs=2, n=5)])
def cached(ctx, main, cap, envs, n):
    """episodes are held per environment and moved to the main buffer whole, in order, when they end"""
    from tianshou.data import CachedReplayBuffer, ReplayBuffer
    np = ctx.np
    buf = CachedReplayBuffer(ReplayBuffer(main), envs, cap)
    mlog = Log(main)
    caches = [Log(cap, main + e * cap) for e in range(envs)]
    for t in range(n):
        ids = None if envs == 1 or t == 0 else ctx.pick(f"route{t}", [None, [1]] if t > 1 else [None, [1, 0]])
        use = list(range(envs)) if ids is None else ids
        ds = [transition(ctx, f"{t}e{e}", flags="one") for e in use]
        out = buf.add(to_batch_n(ctx, ds)) if ids is None else buf.add(to_batch_n(ctx, ds), buffer_ids=ids)
        for k, (e, d) in enumerate(zip(use, ds)):
            slot, ret, length, start = caches[e].add(ctx, d)
            if d["done"]:
                moved = [mlog.push(x) for _, x in caches[e].live()]
                caches[e].reset(False)
                slot, start = moved[-1], moved[0]
            for o, x, what in zip(out, (slot, ret, length, start), ("index", "return", "length", "start")):
                ctx.eq(o[k], x, f"add {t} env {e}: {what}")
    logs = [mlog, *caches]
    rows = [r for lg in logs for r in lg.live()]
    ctx.check(len(buf) == len(rows), "every step is in exactly one place")
    ctx.eq(buf.sample_indices(0), [p for p, _ in rows], "all retained indices")
    for p, d in rows:
        check_row(ctx, buf[p], d, f"slot {p}")
    if not caches[0].live() and len(mlog.items) <= main:
        ctx.eq([x["done"] for _, x in mlog.live()][-1:], [True] if mlog.items else [], "the main buffer ends with a finished episode")
    check_nav(ctx, buf, logs)


# ------------------------------------------------------------------ P11 buffer.update
@harness("P11", params=[dict(src=2, n=3, dst=3, m=1), dict(src=3, n=2, dst=2, m=1), dict(src=4, n=5, dst=3, m=2), dict(src=2, n=1, dst=4, m=0)],
         thorough=[dict(src=4, n=6, dst=5, m=4)])
def update_from(ctx, src, n, dst, m):
    from tianshou.data import ReplayBuffer
    stack = ctx.pick("stack", [1, 2])
    a, alog = ReplayBuffer(src, stack_num=stack), Log(src)
    b, blog = ReplayBuffer(dst), Log(dst)
    ctx.check(len(b.update(a)) == 0 and len(b) == 0, "updating from an empty buffer is a no-op")
    for t in range(n):
        d = transition(ctx, f"a{t}", flags="one")
        a.add(to_batch(ctx, d))
        alog.add(ctx, d)
    for t in range(m):
        d = transition(ctx, f"b{t}", flags="one")
        b.add(to_batch(ctx, d))
        blog.add(ctx, d)
    idx = b.update(a)
    exp = [blog.push(d) for _, d in alog.live()]
    ctx.eq(idx, exp, "slots written, in chronological order of the source")
    ctx.check(len(b) == len(blog.live()), "length after update")
    ctx.check(a.stack_num == stack, "source configuration is unchanged")
    for p, d in blog.live():
        check_row(ctx, b[p], d, f"slot {p}")
    for p, d in alog.live():
        ctx.eq(a.get(p, "rew", stack_num=1), d["rew"], "source data is unchanged")
    ctx.eq(b.sample_indices(0), [p for p, _ in blog.live()], "chronological order after update")
    check_nav(ctx, b, [blog])


@harness("P01", params=[dict()])
def ring_rejects_ids(ctx):
    """a non-vector buffer accepts sub-buffer ids [0] only, anything else is a ValueError and changes nothing"""
    from tianshou.data import ReplayBuffer
    buf = ReplayBuffer(3)
    d = transition(ctx, 0)
    ids = ctx.pick("ids", [[0], [1], [0, 1], [0, 0], [1, 0]])
    kind, val = ctx.outcome(lambda: buf.add(to_batch_n(ctx, [d]), buffer_ids=ids))
    if ids == [0]:
        ctx.check(kind == "ok", "ids [0] are accepted")
        check_row(ctx, buf[0], d, "stored")
    else:
        ctx.check(kind == "err" and val == "ValueError", f"ids {ids} are rejected with ValueError")
        ctx.check(len(buf) == 0, "nothing is stored")
