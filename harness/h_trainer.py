"""P36-P38: trainers (schedule of collecting, updating, testing, saving, stopping) and loggers.

Collectors, policy and buffer are stand-ins with arbitrary symbolic step counts, returns and losses which log how they are
used; the expected log is derived here from the documented schedule alone."""
from symx.ctx import harness


class TrainWorld:
    def __init__(self, ctx, kind="off", agents=0, n_test=1, test=True, steps=(1, 2), episodes=(0, 1), nulls=False, rets=(-4, 4)):
        import gymnasium as gym
        from dataclasses import dataclass
        from tianshou.data import CollectStats, SequenceSummaryStats
        from tianshou.policy import BasePolicy
        from tianshou.policy.base import TrainingStats
        from tianshou.utils import BaseLogger
        np = ctx.np
        W = self
        self.ctx, self.kind = ctx, kind
        self.ev = []              # what happened, in order
        self.train, self.tests, self.losses = [], [], []
        self.logs = dict(train=[], test=[], update=[], info=[])
        self.nulls = []
        self.passed = dict(train=0, test=0)

        @dataclass(kw_only=True)
        class TS(TrainingStats):
            loss: float = 0.0

        class Buf:
            def __init__(self, name, n):
                self.name, self.n, self.done = name, n, 0

            def __len__(self):
                return self.n

            def hasnull(self):
                if not nulls:
                    return False
                v = ctx.bool(f"null{len(W.nulls)}")
                W.nulls.append(v)
                return v

        class Pol(BasePolicy):
            def forward(self, batch, state=None, **kw):
                raise NotImplementedError

            def learn(self, batch, *a, **k):
                raise NotImplementedError

            def process_buffer(self, buffer):
                b = Buf("processed " + buffer.name, len(buffer) + 1)
                return b

            def update(self, sample_size, buffer, **kw):
                loss = ctx.real(f"loss{len(W.losses)}", -8, 8)
                W.losses.append(loss)
                W.ev.append(("update", dict(size=sample_size, buf=buffer.name, flag=self.is_within_training_step, kw=dict(kw))))
                t = TS(loss=loss)
                t.train_time = 0.25
                return t

        class Col:
            def __init__(self, name, policy):
                self.name, self.policy, self.buffer = name, policy, Buf(name, 5)
                self.fresh = False
                self.reset_stat()

            def reset_stat(self):
                self.collect_step, self.collect_episode, self.collect_time = 0, 0, 0.0

            def reset_buffer(self, keep_statistics=False):
                if self.name == "train":
                    W.ev.append(("empty", dict(who=self.name, keep=keep_statistics)))

            def reset(self, reset_buffer=True, reset_stats=True, gym_reset_kwargs=None):
                self.fresh = True
                if reset_stats:
                    self.reset_stat()
                if reset_buffer:
                    self.reset_buffer()
                if self.name == "train":
                    W.ev.append(("train reset", {}))

            def collect(self, n_step=None, n_episode=None, random=False, render=None, reset_before_collect=False, gym_reset_kwargs=None):
                if reset_before_collect:
                    self.reset(False, False)
                e = dict(n_step=n_step, n_episode=n_episode, random=random, flag=W.policy.is_within_training_step)
                if self.name == "test":
                    e["fresh"] = self.fresh
                W.ev.append((self.name, e))
                self.fresh = False
                if self.name == "train":
                    k = len(W.train)
                    n, ep = ctx.pick(f"steps{k}", list(steps)), ctx.pick(f"eps{k}", list(episodes))
                else:
                    k = len(W.tests)
                    n, ep = 2 * n_episode, n_episode
                shape = (ep, agents) if agents else (ep,)
                r = ctx.reals(f"{self.name}{k}", shape, *rets)
                l = np.array([1] * ep)
                st = CollectStats(n_collected_steps=n, n_collected_episodes=ep, returns=r, lens=l,
                                  returns_stat=SequenceSummaryStats.from_sequence(r) if ep else None,
                                  lens_stat=SequenceSummaryStats.from_sequence(l) if ep else None)
                (W.train if self.name == "train" else W.tests).append(dict(n=n, ep=ep, r=r))
                self.collect_step += n
                self.collect_episode += ep
                return st

        class Log(BaseLogger):
            def write(self, *a):
                raise NotImplementedError

            def prepare_dict_for_logging(self, d):
                return d

            def finalize(self):
                pass

            def log_train_data(self, d, step):
                W.logs["train"].append((d, step))

            def log_test_data(self, d, step):
                W.logs["test"].append((d, step))

            def log_update_data(self, d, step):
                W.logs["update"].append((d, step))

            def log_info_data(self, d, step):
                W.logs["info"].append((d, step))

            def save_data(self, epoch, env_step, gradient_step, save_checkpoint_fn=None):
                if save_checkpoint_fn is not None:
                    save_checkpoint_fn(epoch, env_step, gradient_step)

            def restore_data(self):
                return W.resume

            @staticmethod
            def restore_logged_data(p):
                return {}

        self.policy = Pol(action_space=gym.spaces.Discrete(2))
        self.train_col = Col("train", self.policy) if kind != "offline" else None
        self.test_col = Col("test", self.policy) if test else None
        self.buffer = Buf("data", 3)
        self.logger = Log()
        self.Buf = Buf
        self.agents, self.n_test = agents, n_test

    # hooks
    def train_fn(self, epoch, step):
        self.ev.append(("train_fn", dict(epoch=epoch, step=step)))

    def test_fn(self, epoch, step):
        self.ev.append(("test_fn", dict(epoch=epoch, step=step)))

    def save_best(self, policy):
        self.ev.append(("best", dict(same=policy is self.policy)))

    def checkpoint(self, epoch, env_step, gradient_step):
        self.ev.append(("checkpoint", dict(epoch=epoch, step=env_step, grad=gradient_step)))
        return "path"

    def trainer(self, **kw):
        from tianshou.trainer import OfflineTrainer, OffpolicyTrainer, OnpolicyTrainer
        a = dict(policy=self.policy, logger=self.logger, verbose=False, show_progress=False, episode_per_test=self.n_test, batch_size=4,
                 train_fn=self.train_fn, test_fn=self.test_fn, save_best_fn=self.save_best, save_checkpoint_fn=self.checkpoint)
        if self.test_col is not None:
            a["test_collector"] = self.test_col
        if self.kind == "offline":
            a["buffer"] = self.buffer
            del a["train_fn"]
            cls = OfflineTrainer
        else:
            a["train_collector"] = self.train_col
            cls = OffpolicyTrainer if self.kind == "off" else OnpolicyTrainer
        a.update(kw)
        return cls(**a)


class Spec:
    """the documented schedule, replayed with the values the stand-ins answered"""

    def __init__(self, W, max_epoch, step_per_epoch, n_step=None, n_episode=None, ups=1.0, repeat=None, bsz=4, stop=None, score=None, metric=None,
                 in_train=True, resume=None, reset_buffer=False, grad=True):
        self.W, self.ctx, self.ev = W, W.ctx, []
        self.__dict__.update(max_epoch=max_epoch, spe=step_per_epoch, n_step=n_step, n_episode=n_episode, ups=ups, repeat=repeat, bsz=bsz, stop=stop,
                             score=score, metric=metric, in_train=in_train, resume=resume, grad_known=grad)
        self.k = self.t = self.l = 0
        self.step = self.grad = self.eps = 0
        self.best = None
        self.trainlog, self.testlog, self.updlog, self.infolog, self.stats = [], [], [], [], []
        self.tot = dict(train=[0, 0], test=[0, 0])
        self.rb = reset_buffer
        self.stopped = False

    def returns(self, r):
        np = self.ctx.np
        r = self.metric(r) if self.metric else r
        return r, np.mean(r), np.std(r)

    def test(self, epoch):
        W = self.W
        self.ev.append(("test_fn", dict(epoch=epoch, step=self.step)))
        self.ev.append(("test", dict(n_step=None, n_episode=W.n_test, random=False, flag=False, fresh=True)))
        raw = W.tests[self.t]["r"]
        self.t += 1
        self.tot["test"][0] += 2 * W.n_test
        self.tot["test"][1] += W.n_test
        r, mean, std = self.returns(raw)
        self.testlog.append((r, self.step))
        return dict(score=mean if self.score is None else self.score(r), mean=mean, std=std, epoch=epoch)

    def start(self, collectors=True):
        W = self.W
        self.epoch, self.step = 0, 0
        if self.resume:
            self.epoch, self.step, self.grad = self.resume
        self.tot = dict(train=[0, 0], test=[0, 0])
        if W.train_col is not None:
            if self.rb:
                self.ev.append(("empty", dict(who="train", keep=False)))
            self.ev.append(("train reset", {}))
        if W.test_col is not None:
            self.best = self.test(self.epoch)
        self.ev.append(("best", dict(same=True)))
        self.stopped = False

    def improve(self, t):
        if self.ctx.maybe(self.best["score"] < t["score"]):
            self.best = t
            self.ev.append(("best", dict(same=True)))

    def one_update(self, size, buf, flag, kw):
        self.ev.append(("update", dict(size=size, buf=buf, flag=flag, kw=kw)))
        self.grad += 1
        self.l += 1
        self.updlog.append((self.W.losses[self.l - 1], sum(self.W.losses[:self.l]) / self.l, self.grad))

    def run_epoch(self):
        """False if training was over already"""
        W, ctx = self.W, self.ctx
        if self.stopped or self.epoch >= self.max_epoch:
            return False
        self.epoch += 1
        self.tested = self.cut = False
        done = 0
        while done < self.spe:
            if W.kind == "offline":
                self.one_update(self.bsz, "processed data", True, {})
                done += 1
                self.lastcol = (0, None)
                continue
            self.ev.append(("train_fn", dict(epoch=self.epoch, step=self.step)))
            self.ev.append(("train", dict(n_step=self.n_step, n_episode=self.n_episode, random=False, flag=True)))
            c = W.train[self.k]
            self.k += 1
            done += c["n"]
            self.step = self.step + c["n"]
            self.eps += c["ep"]
            self.tot["train"][0] += c["n"]
            self.tot["train"][1] += c["ep"]
            if c["ep"]:
                r, mean, std = self.returns(c["r"])
                self.trainlog.append((r, self.step))
                if self.in_train and self.stop is not None and W.test_col is not None and ctx.maybe(self.stop(mean)):
                    t = self.test(self.epoch)
                    if ctx.maybe(self.stop(t["mean"])):
                        self.improve(t)
                        self.stopped = self.cut = True
                        break
            if W.kind == "off":
                for _ in range(self.updates(c["n"])):
                    self.one_update(self.bsz, "train", True, {})
            else:
                self.one_update(0, "train", True, dict(batch_size=self.bsz, repeat=self.repeat))
                self.ev.append(("empty", dict(who="train", keep=True)))
        if W.kind == "offline":
            self.step = self.grad * (self.bsz or 4)
        if not self.stopped:
            self.ev.append(("checkpoint", dict(epoch=self.epoch, step=self.step, grad=self.grad)))
            if W.test_col is not None:
                self.tested = True
                t = self.test(self.epoch)
                self.improve(t)
                if self.stop is not None and ctx.maybe(self.stop(self.best["mean"])):
                    self.stopped = True
        self.infolog.append((self.epoch, self.best, dict(self.tot, train=list(self.tot["train"]), test=list(self.tot["test"])), self.grad))
        return True

    def updates(self, n):
        return round(self.ups * n)

    # comparison with what the trainer did
    def compare(self, log=True):
        W, ctx = self.W, self.ctx
        got, want = list(W.ev), list(self.ev)
        if not self.grad_known:
            for _, e in got + want:
                e.pop("grad", None)
        kinds = [k for k, _ in got]
        ctx.check(kinds == [k for k, _ in want], f"the schedule of collecting, updating, testing and saving: {kinds} instead of {[k for k, _ in want]}")
        if kinds != [k for k, _ in want]:
            return
        for (k, g), (_, w) in zip(got, want):
            for f in w:
                ctx.eq(g[f], w[f], f"{f} at {k}")
        if not log:
            return
        for name, mine in (("train", self.trainlog), ("test", self.testlog)):
            ctx.check(len(W.logs[name]) == len(mine), f"number of {name} log entries")
            for (d, s), (r, step) in zip(W.logs[name], mine):
                ctx.eq(d["returns"], r, f"{name} log returns")
                ctx.eq(d["returns_stat"]["mean"], ctx.np.mean(r), f"{name} log mean")
                ctx.eq(s, step, f"step of {name} log")
        ctx.check(len(W.logs["update"]) == len(self.updlog), "number of update log entries")
        for (d, s), (loss, smooth, grad) in zip(W.logs["update"], self.updlog):
            ctx.eq(d["loss"], loss, "logged loss")
            ctx.eq(d["smoothed_loss"]["loss"], smooth, "smoothed loss is the running average")
            if self.grad_known:
                ctx.eq(s, grad, "gradient step of log")
        ctx.check(len(W.logs["info"]) == len(self.infolog), "number of epoch log entries")
        for (d, s), (epoch, best, tot, grad) in zip(W.logs["info"], self.infolog):
            ctx.eq(s, epoch, "epoch of info log")
            self.info(d, best, tot, grad)

    def info(self, d, best, tot, grad):
        ctx = self.ctx
        ctx.eq([d["train_step"], d["train_episode"]], tot["train"], "training totals in info")
        ctx.eq([d["test_step"], d["test_episode"]], tot["test"], "test totals in info")
        if self.grad_known:
            ctx.eq(d["gradient_step"], grad, "gradient steps in info")
        if best is not None:
            ctx.eq(d["best_score"], best["score"], "best score in info")
            ctx.eq(d["best_reward"], best["mean"], "best reward in info")
            ctx.eq(d["best_reward_std"], best["std"], "deviation of the best reward in info")


def _asdict(x):
    from dataclasses import asdict
    return asdict(x)


def _drive(W, S, tr, mode, reset_buffer=False):
    """run the trainer to the end; returns the yielded epoch stats (iterator mode)"""
    if mode == "run":
        info = tr.run(reset_buffer=reset_buffer)
        S.start()
        while S.run_epoch():
            pass
        S.compare()
        S.info(_asdict(info), S.best, S.tot, S.grad)
        return []
    out = []
    for st in tr:
        out.append(st)
        W.ctx.eq(st.epoch, tr.epoch, "epoch of the yielded statistics")
        if len(out) > 6:
            W.ctx.check(False, "the iterator ends")
            break
    S.start()
    n = 0
    while S.run_epoch():
        st = out[n] if n < len(out) else None
        n += 1
        if st is not None:
            W.ctx.eq(st.epoch, S.epoch, "yielded epoch")
            if W.kind != "offline":
                W.ctx.eq(st.train_collect_stat.n_collected_steps, W.train[S.k - 1]["n"], "yielded training statistics are those of the last collect")
            S.info(_asdict(st.info_stat), S.best, S.tot, S.grad)
            W.ctx.check((st.test_collect_stat is not None) == S.tested, "test statistics are yielded exactly if the epoch ended with a test")
            if S.tested and st.test_collect_stat is not None:
                W.ctx.eq(st.test_collect_stat.returns, S.testlog[-1][0], "yielded test returns")
            W.ctx.check((st.training_stat is None) == S.cut, "training statistics are yielded unless training was stopped")
    W.ctx.eq(len(out), n, "number of epochs yielded")
    S.compare()
    return out


# ------------------------------------------------------------------------------------------------------------------ P36
@harness("P36", [dict(kind=k, mode=m) for k in ("off", "on", "offline") for m in ("run", "iterate")],
         [dict(kind=k, mode=m, deep=True) for k in ("off", "on", "offline") for m in ("run", "iterate")])
def trainer_schedule(ctx, kind, mode, deep=False):
    me = ctx.pick("max_epoch", [1, 2])
    spe = ctx.int("step_per_epoch", 1, 4 - me if not deep else 4)
    W = TrainWorld(ctx, kind, test=ctx.pick("test", [True, False]) if kind == "offline" else mode == "run", rets=(-1, 1), episodes=(0, 1) if me == 1 or deep else (1,))
    kw = {}
    if kind == "on":
        kw = dict(n_episode=None, n_step=None)
        if ctx.pick("unit", ["step", "episode"]) == "step":
            kw["n_step"] = 7
        else:
            kw["n_episode"] = 3
        kw["repeat"] = 5
    elif kind == "off":
        kw = dict(n_step=2, ups=1.0)
    spe = ctx.conc(spe)
    S = Spec(W, me, spe, grad=kind != "on", **kw)
    tkw = dict(max_epoch=me, step_per_epoch=spe)
    if kind == "on":
        tkw.update(step_per_collect=kw["n_step"], episode_per_collect=kw["n_episode"], repeat_per_collect=5)
    elif kind == "off":
        tkw.update(step_per_collect=2, update_per_step=1.0)
    _drive(W, S, W.trainer(**tkw), mode)


@harness("P36")
def update_ratio(ctx):
    """off-policy: round(update_per_step * steps) updates after each collect; none at all is refused"""
    W = TrainWorld(ctx, "off", test=False, steps=(1, 2, 3), episodes=(0,))
    u = ctx.int("quarter", 0, 10)
    u = ctx.conc(u) / 4
    S = Spec(W, 1, 1, n_step=1, ups=u, bsz=None)
    tr = W.trainer(max_epoch=1, step_per_epoch=1, step_per_collect=1, update_per_step=u, batch_size=None)
    o = ctx.outcome(lambda: list(tr))
    n = W.train[0]["n"]
    if round(u * n) == 0:
        ctx.eq(o, ("err", "ValueError"), "an iteration without any update is refused")
        return
    ctx.check(o[0] == "ok", "training succeeds")
    S.start()
    while S.run_epoch():
        pass
    S.compare()
    ctx.check(not W.policy.is_within_training_step, "the policy is left outside of training steps")


@harness("P36", [dict(agents=0), dict(agents=2)])
def nan_guard(ctx, agents):
    """collecting NaNs (or None) is reported instead of being learned from"""
    from tianshou.data.buffer.base import MalformedBufferError
    W = TrainWorld(ctx, ctx.pick("kind", ["off", "on"]), test=False, nulls=True, agents=agents, steps=(1,), rets=(-1, 1))
    kw = dict(step_per_collect=1) if W.kind == "off" else dict(episode_per_collect=1, repeat_per_collect=1)
    tr = W.trainer(max_epoch=1, step_per_epoch=2, reward_metric=(lambda r: r[:, 1]) if agents else None, **kw)
    o = ctx.outcome(lambda: list(tr))
    ctx.check(len(W.nulls) == len(W.train), "every collect is followed by a check for missing values")
    bad = ctx.maybe(W.nulls[-1])
    for v in W.nulls[:-1]:
        ctx.check(ctx.Not(v), "training does not go on with missing values")
    ctx.check((o == ("err", "MalformedBufferError")) == bad, "missing values are refused, others not")
    n = sum(1 for k, _ in W.ev if k == "update")
    ctx.eq(n, len(W.train) - (1 if bad else 0), "no update with missing values")
    ctx.check(not W.policy.is_within_training_step, "the policy is left outside of training steps")


@harness("P36")
def reset_and_reuse(ctx):
    """run() resets once (only if requested, the buffer only if requested); it can be used again"""
    W = TrainWorld(ctx, "off", steps=(1,), episodes=(1,), rets=(-1, 1))
    rb = ctx.pick("reset_buffer", [False, True])
    S = Spec(W, 1, 1, n_step=1, reset_buffer=rb)
    tr = W.trainer(max_epoch=1, step_per_epoch=1, step_per_collect=1)
    mode = ctx.pick("mode", ["twice", "noreset", "zip"])
    if mode == "twice":
        tr.run(reset_buffer=rb)
        S.start()
        while S.run_epoch():
            pass
        info = tr.run(reset_buffer=rb)
        S.start()
        while S.run_epoch():
            pass
        S.grad_known = False
        S.compare(log=False)
        S.info(_asdict(info), S.best, S.tot, S.grad)
    elif mode == "noreset":
        tr.reset(reset_buffer=rb)
        info = tr.run(reset_prior_to_run=False, reset_buffer=True)
        S.start()
        while S.run_epoch():
            pass
        S.compare()
        S.info(_asdict(info), S.best, S.tot, S.grad)
    else:
        W2 = TrainWorld(ctx, "off", steps=(1,), episodes=(1,), rets=(-1, 1))
        S2 = Spec(W2, 1, 1, n_step=1)
        S.rb = False
        tr2 = W2.trainer(max_epoch=1, step_per_epoch=1, step_per_collect=1)
        ctx.eq(len(list(zip(tr, tr2))), 1, "two trainers side by side")
        for s in (S, S2):
            s.start()
            while s.run_epoch():
                pass
            s.compare()


@harness("P36", [dict(kind=k) for k in ("off", "on", "offline")])
def resume(ctx, kind):
    """a resumed run continues with the restored epoch, environment step and gradient step"""
    W = TrainWorld(ctx, kind, steps=(2,), episodes=(1,), rets=(-1, 1))
    e = ctx.pick("epoch0", [0, 2])
    W.resume = (e, ctx.int("step0", 0, 50), ctx.int("grad0", 0, 50))
    more = ctx.pick("more", [1, 2])
    S = Spec(W, e + more, 2, n_step=2, repeat=1, resume=W.resume, grad=kind != "on")
    kw = {} if kind == "offline" else dict(step_per_collect=2, **(dict(repeat_per_collect=1) if kind == "on" else {}))
    _drive(W, S, W.trainer(max_epoch=e + more, step_per_epoch=2, resume_from_log=True, **kw), ctx.pick("mode", ["run", "iterate"]))


# ------------------------------------------------------------------------------------------------------------------ P37
@harness("P37", [dict(kind=k, mode=m) for k in ("off", "on", "offline") for m in ("run", "iterate")])
def best_and_stop(ctx, kind, mode):
    """the best result is the one with the highest score, saved whenever it improves; training stops when it reaches the goal"""
    W = TrainWorld(ctx, kind, steps=(1,), episodes=(1,) if kind == "offline" else (0, 1), n_test=1)
    thr = ctx.real("goal", -3, 3)
    stop = lambda r: r >= thr
    it = ctx.pick("test_in_train", [True, False]) if kind != "offline" else True
    S = Spec(W, 2, 1, n_step=1, repeat=1, stop=stop, in_train=it, grad=kind != "on")
    kw = {} if kind == "offline" else dict(step_per_collect=1, **(dict(repeat_per_collect=1) if kind == "on" else {}))
    _drive(W, S, W.trainer(max_epoch=2, step_per_epoch=1, stop_fn=stop, test_in_train=it, **kw), mode)


@harness("P37", [dict(with_stop=False), dict(with_stop=True)])
def scores(ctx, with_stop):
    """compute_score_fn decides what is best; rewards and deviations reported belong to that test"""
    W = TrainWorld(ctx, "off", steps=(1,), episodes=(1,), n_test=2)
    sc = lambda st: st.returns[0] * 2 - 1
    scr = lambda r: r[0] * 2 - 1
    thr = ctx.real("goal", -3, 3)
    stop = (lambda r: r >= thr) if with_stop else None
    S = Spec(W, 1 if with_stop else 2, 1, n_step=1, stop=stop, score=scr)
    _drive(W, S, W.trainer(max_epoch=S.max_epoch, step_per_epoch=1, step_per_collect=1, stop_fn=stop, compute_score_fn=sc), "run")


@harness("P37")
def metrics(ctx):
    """reward_metric turns the agents' returns into the scalar used everywhere: logs, stopping, best result"""
    W = TrainWorld(ctx, "off", agents=2, steps=(1,), episodes=(1,), n_test=1)
    m = lambda r: r[:, 1] - r[:, 0]
    thr = ctx.real("goal", -3, 3)
    stop = lambda r: r >= thr
    S = Spec(W, 1, 1, n_step=1, stop=stop, metric=m)
    _drive(W, S, W.trainer(max_epoch=1, step_per_epoch=1, step_per_collect=1, stop_fn=stop, reward_metric=m), "run")


@harness("P37")
def testing_in_training(ctx):
    """no tests within an epoch without a test collector, or if the collector plays another policy"""
    W = TrainWorld(ctx, "off", steps=(1,), episodes=(1,), test=ctx.pick("test", [True, False]))
    thr = ctx.real("goal", -3, 3)
    stop = lambda r: r >= thr
    other = W.test_col is not None
    if other:
        W.train_col.policy = object()
    S = Spec(W, 2, 1, n_step=1, stop=stop, in_train=False)
    _drive(W, S, W.trainer(max_epoch=2, step_per_epoch=1, step_per_collect=1, stop_fn=stop), "run")
