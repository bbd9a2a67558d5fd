"""check runner:  python -m symx.run <PROPERTY> [--tier quick|thorough] [--task SUBSTR] [--replay FILE]"""
from __future__ import annotations

import argparse
import importlib
import json
import os
import pickle
import random
import resource
import select
import signal
import subprocess
import sys
import time
import traceback

sys.set_int_max_str_digits(0)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = int(os.environ.get("VERIF_JOBS", "8"))


def load_harness():
    import glob
    for f in sorted(glob.glob(f"{VERIF}/harness/h_*.py")):
        importlib.import_module("harness." + os.path.basename(f)[:-3])


def mute():
    import logging
    import warnings
    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)


def light_imports():
    """modules the properties do not depend on and that only cost start-up time"""
    import types
    sys.modules["ray"] = None
    m = types.ModuleType("torch.utils.tensorboard")
    m.SummaryWriter = type("SummaryWriter", (), {})
    sys.modules["torch.utils.tensorboard"] = m
    t = types.ModuleType("tensorboard.backend.event_processing")
    ea = types.ModuleType("tensorboard.backend.event_processing.event_accumulator")
    ea.EventAccumulator = type("EventAccumulator", (), {})
    t.event_accumulator = ea
    for n, mod in (("tensorboard", types.ModuleType("tensorboard")), ("tensorboard.backend", types.ModuleType("tensorboard.backend")),
                   ("tensorboard.backend.event_processing", t), ("tensorboard.backend.event_processing.event_accumulator", ea)):
        sys.modules[n] = mod


def preimport():
    import tianshou.data  # noqa: F401
    import tianshou.env  # noqa: F401
    import tianshou.exploration  # noqa: F401
    import tianshou.policy  # noqa: F401
    import tianshou.trainer  # noqa: F401


# ------------------------------------------------------------------ symbolic worker
def run_task(task, tier, seed):
    import numpy as np
    import torch
    from . import core
    from .ctx import SymCtx, CheckFailed
    mute()
    torch.set_num_threads(1)
    eng = core.Engine()
    eng.reachable = {}
    rng = random.Random(seed)
    viol, samples, incomplete = [], [], {}
    tot_checks = 0
    reached = 0
    nsamp = 12 if tier == "thorough" else 5

    def path():
        nonlocal tot_checks, reached
        ctx = SymCtx(eng)
        exc = None
        np.seterr(all="ignore")
        try:
            task.fn(ctx, **task.params)
        except CheckFailed as e:
            eng.require(str(e), False)
        except core.Unsupported as e:
            exc = ("unsupported", f"{e}", _tb(e))
        except (core.PathAbort, core.EngineLimit):
            try:
                eng.discharge()
            finally:
                raise
        except RecursionError as e:
            exc = ("unsupported", "RecursionError", "")
        except Exception as e:
            exc = ("exc", f"{type(e).__name__}: {e}", _tb(e))
        tot_checks += eng.nchecks
        reached += eng.nchecks > 0
        n0 = eng.nchecks
        eng.discharge()
        if exc is not None:
            m = eng.get_model()
            if m is not None:
                if eng.uf:
                    m = eng.refine(m, [])
                viol.append(dict(label=exc[1], kind=exc[0], inputs=eng.extract(m), tb=exc[2]))
        viol.extend(eng.violations)
        for i in eng.incomplete:
            incomplete[i] = incomplete.get(i, 0) + 1
        k = eng.stats["paths"]
        if exc is None and not eng.violations and (k < 2 or (k < 4 * nsamp and rng.random() < 0.15) or rng.random() < 0.005) and len(samples) < nsamp:
            try:
                m = eng.get_model()
                if m is not None:
                    eng._last = eng.solver
                    if eng.check() == core.z3.sat:
                        m = eng.nice_model([])
                    from .arr import SymArray
                    samples.append(dict(inputs=eng.extract(m), nchecks=n0, uf=bool(eng.uf)))
            except (core.PathAbort, core.EngineLimit):
                pass
        return True

    t0 = time.time()
    err = None
    eng.exhausted = False
    nviol_stop = 12
    try:
        for _ in core.explore(path, eng, max_paths=task.max_paths, budget_s=task.budget):
            if len(viol) >= nviol_stop:
                break
        else:
            pass
    except Exception as e:
        err = f"{type(e).__name__}: {e}\n{_tb(e)}"
    if len(viol) >= nviol_stop:
        eng.exhausted = True
    return dict(task=task.name, stats=eng.stats, viol=viol, samples=samples, incomplete=incomplete, checks=tot_checks,
                reached=reached, dead=[l for l, ok in eng.reachable.items() if not ok], nreach=len(eng.reachable), exhausted=eng.exhausted, funcs=sorted(eng.funcs), wall=time.time() - t0, error=err)


def _tb(e):
    return "".join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])[-1800:]


# ------------------------------------------------------------------ replay (unpatched code)
def run_replay(task, inputs, seed=0):
    import numpy as np
    import torch
    from .ctx import AssumeFailed, CheckFailed, ConcCtx
    mute()
    torch.set_num_threads(1)
    np.seterr(all="ignore")
    np.random.seed(seed)
    torch.manual_seed(seed)
    ctx = ConcCtx(inputs, seed)
    out = dict(failed=[], exc=None, tb="", assume=False)
    try:
        task.fn(ctx, **task.params)
    except AssumeFailed:
        out["assume"] = True
    except CheckFailed as e:
        out["failed"].append(str(e))
    except Exception as e:
        out["exc"] = f"{type(e).__name__}: {e}"
        out["tb"] = _tb(e)
    out["failed"] = ctx.failed + out["failed"]
    out["nchecks"] = ctx.nchecks
    out["missing"] = ctx.missing
    return out


def run_reach(task, seed=0, runs=400, secs=12):
    """outcomes the solver found impossible: try to produce them with random inputs"""
    import numpy as np
    import torch
    from .ctx import AssumeFailed, CheckFailed, ConcCtx
    mute()
    torch.set_num_threads(1)
    np.seterr(all="ignore")
    seen, n, t0 = set(), 0, time.time()
    while n < runs * 10 and time.time() - t0 < secs:
        ctx = ConcCtx([], seed + n)
        n += 1
        try:
            task.fn(ctx, **task.params)
        except (AssumeFailed, CheckFailed):
            pass
        except Exception:
            pass
        seen |= ctx.reached
    return dict(seen=sorted(seen), runs=n)


def fork_call(fn, *args, timeout=120, mem_gb=None):
    """generator-free helper: start a forked child computing fn(*args); returns (pid, fd)."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            os.setpgid(0, 0)
        except OSError:
            pass
        code = 0
        try:
            if mem_gb:
                resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
            res = fn(*args)
            data = pickle.dumps(res)
        except BaseException as e:  # noqa: BLE001
            data = pickle.dumps(dict(crash=f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"))
        try:
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(code)
    os.close(w)
    return pid, r


class Pool:
    """forked jobs, at most n at a time"""

    def __init__(self, n):
        self.n = n
        self.queue: list = []
        self.live: dict = {}

    def submit(self, key, fn, *args, timeout=120, mem_gb=None):
        self.queue.append((key, fn, args, timeout, mem_gb))

    def _start(self):
        while self.queue and len(self.live) < self.n:
            key, fn, args, timeout, mem = self.queue.pop(0)
            pid, fd = fork_call(fn, *args, mem_gb=mem)
            self.live[fd] = [key, pid, b"", time.time() + timeout]

    def fds(self):
        self._start()
        return list(self.live)

    def poll(self, ready):
        done = []
        now = time.time()
        for fd in list(self.live):
            ent = self.live[fd]
            fin = False
            res = None
            if fd in ready:
                chunk = os.read(fd, 1 << 20)
                if chunk:
                    ent[2] += chunk
                else:
                    fin = True
                    try:
                        res = pickle.loads(ent[2]) if ent[2] else dict(crash="died")
                    except Exception as e:
                        res = dict(crash=f"unreadable result {e}")
            if not fin and now > ent[3]:
                fin, res = True, dict(crash="timeout")
            if fin:
                try:
                    os.killpg(ent[1], signal.SIGKILL)
                except OSError:
                    try:
                        os.kill(ent[1], signal.SIGKILL)
                    except OSError:
                        pass
                os.close(fd)
                os.waitpid(ent[1], 0)
                del self.live[fd]
                done.append((ent[0], res))
        return done


def replay_server():
    """reads json jobs on stdin, answers on fd 3"""
    out = os.fdopen(3, "w", buffering=1)
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    mute()
    light_imports()
    import_err = None
    try:
        preimport()
        from . import nondet
        nondet.install_real()
        load_harness()
        if os.environ.get("VERIF_WARM"):      # compile the numba kernels once, before forking replays
            from tianshou.data import SegmentTree
            from tianshou.policy import BasePolicy
            BasePolicy._compile()
            SegmentTree(2)
    except Exception as e:
        import_err = f"{type(e).__name__}: {e}\n{_tb(e)}"
    from .ctx import REGISTRY
    tasks = {(t.prop, t.name): t for ts in REGISTRY.values() for t in ts}
    print(json.dumps(dict(ready=True, import_err=import_err)), file=out)
    pool = Pool(max(2, NPROC - 2))
    eof = False
    buf = b""
    while True:
        fds = pool.fds()
        if eof and not fds and not pool.queue:
            return
        rd, _, _ = select.select(fds + ([] if eof else [0]), [], [], 1.0)
        if 0 in rd:
            chunk = os.read(0, 1 << 20)
            if not chunk:
                eof = True
            buf += chunk
            while b"\n" in buf:
                line, buf = buf.split(b"\n", 1)
                j = json.loads(line)
                t = tasks.get((j["prop"], j["task"]))
                if j.get("reach"):
                    pool.submit(j["id"], run_reach, t, j.get("seed", 0), timeout=60)
                else:
                    pool.submit(j["id"], run_replay, t, j["inputs"], j.get("seed", 0), timeout=45)
        for key, res in pool.poll(rd):
            res["id"] = key
            print(json.dumps(res, default=str), file=out)


class ReplayClient:
    def __init__(self, prop=""):
        r, w = os.pipe()
        env = dict(os.environ)
        if prop not in ("P01", "P02", "P03", "P04", "P05", "P06", "P10", "P11", "P12", "P13", "P14", "P15"):
            env["VERIF_WARM"] = "1"
        env.pop("NUMBA_DISABLE_JIT", None)
        self.p = subprocess.Popen([sys.executable, "-m", "symx.run", "--replay-server"], cwd=VERIF, stdin=subprocess.PIPE, env=env,
                                  stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL if not os.environ.get("VERIF_DEBUG") else None,
                                  preexec_fn=lambda: (os.dup2(w, 3), os.set_inheritable(3, True)), pass_fds=(3, w) if w != 3 else (3,))
        os.close(w)
        self.fd = r
        self.buf = b""
        self.ready = None
        self.n = 0

    def send(self, job):
        self.n += 1
        job["id"] = self.n
        self.p.stdin.write((json.dumps(job) + "\n").encode())
        self.p.stdin.flush()
        return self.n

    def read(self):
        chunk = os.read(self.fd, 1 << 20)
        if not chunk:
            raise RuntimeError("replay server died")
        self.buf += chunk
        out = []
        while b"\n" in self.buf:
            line, self.buf = self.buf.split(b"\n", 1)
            m = json.loads(line)
            if m.get("ready"):
                self.ready = m
            else:
                out.append(m)
        return out

    def close(self):
        try:
            self.p.stdin.close()
        except Exception:
            pass
        try:
            self.p.wait(timeout=5)
        except Exception:
            self.p.kill()


def known_findings():
    p = f"{VERIF}/known_findings.json"
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--task", default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--replay-server", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay_server:
        return replay_server()
    if a.replay:
        return replay_file(a.replay)
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    client = ReplayClient(a.prop)
    try:
        return check(a.prop, tier, seed, client, t0, a)
    finally:
        client.close()


def check(prop, tier, seed, client, t0, a):
    from . import hook
    light_imports()
    hook.install()
    sys.path.insert(0, REPO)
    mute()
    import_err = None
    try:
        preimport()
    except Exception as e:
        import_err = _tb(e)
    load_harness()
    from .ctx import REGISTRY
    tasks = [t for t in REGISTRY.get(prop, []) if (tier == "thorough" or t.tier == "quick") and (not a.task or a.task in t.name)]
    if not tasks:
        print(f"no harness for {prop}")
        return 3
    if import_err:
        print("IMPORT ERROR of the rewritten code under test:\n" + import_err)
        return 3
    limit = 600 if tier == "quick" else 6 * 3600
    pool = Pool(NPROC)
    # longest budgets first
    for t in tasks:
        pool.submit(t.name, run_task, t, tier, seed, timeout=t.budget * 2 + 60, mem_gb=8)
    results, jobs, answers = {}, {}, {}
    confirmed, unconfirmed, incomplete = [], [], []
    shown = set()
    validated = mismatched = 0
    pend_jobs = set()

    def schedule(res):
        for vi, v in enumerate(res["viol"]):
            for mi, inp in enumerate([v["inputs"], *v.get("more", [])]):
                jid = client.send(dict(prop=prop, task=res["task"], inputs=inp, seed=seed + mi))
                jobs[jid] = ("viol", res["task"], vi, inp)
                pend_jobs.add(jid)
        if res.get("dead") and res["exhausted"] and not res["incomplete"] and not res["viol"]:
            jid = client.send(dict(prop=prop, task=res["task"], inputs=[], seed=seed, reach=True))
            jobs[jid] = ("reach", res["task"], 0, [])
            pend_jobs.add(jid)
        for si, s in enumerate(res["samples"]):
            jid = client.send(dict(prop=prop, task=res["task"], inputs=s["inputs"], seed=seed))
            jobs[jid] = ("sample", res["task"], si, s["inputs"])
            pend_jobs.add(jid)

    while pool.queue or pool.live or pend_jobs:
        if time.time() - t0 > limit:
            incomplete.append("overall time limit")
            break
        fds = pool.fds()
        rd, _, _ = select.select([*fds, client.fd], [], [], 1.0)
        for key, res in pool.poll(rd):
            if "crash" in res:
                res = dict(task=key, stats={}, viol=[], samples=[], incomplete={f"worker: {res['crash']}": 1}, checks=0, reached=0,
                           exhausted=False, funcs=[], wall=0, error=res["crash"])
            results[key] = res
            if a.v:
                print(f"  {key}: paths={res['stats'].get('paths')} checks={res['checks']} viol={len(res['viol'])} "
                      f"inc={res['incomplete']} exhausted={res['exhausted']} {res['wall']:.1f}s solver={res['stats'].get('solver_s', 0):.1f} {res['error'] or ''}", flush=True)
            schedule(res)
        if client.fd in rd:
            for m in client.read():
                answers[m["id"]] = m
                pend_jobs.discard(m["id"])
    # ---- classify
    if client.ready and client.ready.get("import_err"):
        print("IMPORT ERROR of the code under test:\n" + client.ready["import_err"])
        return 3
    per_v: dict = {}
    for jid, (kind, tname, idx, inp) in jobs.items():
        ans = answers.get(jid)
        if ans is None:
            continue
        if kind == "reach":
            for l in results[tname]["dead"]:
                if ans.get("crash"):
                    incomplete.append(f"{tname}: replay {ans['crash'][:200]}")
                elif l in ans["seen"]:
                    unconfirmed.append(dict(task=tname, label=f"impossible: {l}", inputs=[], replay=[ans]))
                elif ans["runs"] >= 20:
                    confirmed.append(dict(task=tname, label=f"impossible: {l}", inputs=[], kind="reach", solver_label=l,
                                          replay=dict(failed=[f"impossible: {l}"], exc=None, runs=ans["runs"])))
            continue
        bad = not ans.get("crash") and not ans.get("assume") and (ans["failed"] or ans["exc"])
        if kind == "sample":
            if ans.get("crash"):
                incomplete.append(f"{tname}: replay {ans['crash'][:200]}")
            elif bad:
                confirmed.append(dict(task=tname, label=(ans["failed"] or [ans["exc"]])[0], inputs=inp, replay=ans, kind="trace-validation"))
            elif ans.get("assume"):
                s = results[tname]["samples"][idx]
                if not s["uf"]:
                    mismatched += 1
            else:
                s = results[tname]["samples"][idx]
                if ans["nchecks"] == s["nchecks"] and not ans["missing"]:
                    validated += 1
                elif not s["uf"]:
                    mismatched += 1
                    if a.v:
                        print("  MISMATCH", tname, "checks", s["nchecks"], "replayed", ans["nchecks"], "missing", ans["missing"], inp)
            continue
        per_v.setdefault((tname, idx), []).append((bad, ans, inp))
    for (tname, idx), rs in per_v.items():
        v = results[tname]["viol"][idx]
        hit = next((r for r in rs if r[0]), None)
        if hit:
            lab = v["label"]
            if hit[1]["failed"]:
                lab = next((f for f in hit[1]["failed"] if f.startswith(lab)), hit[1]["failed"][0])
            else:
                lab = hit[1]["exc"]
            confirmed.append(dict(task=tname, label=lab, inputs=hit[2], replay=hit[1], kind=v["kind"], solver_label=v["label"]))
        elif v["kind"] == "check":
            unconfirmed.append(dict(task=tname, label=v["label"], inputs=v["inputs"], replay=[r[1] for r in rs]))
        else:
            incomplete.append(f"{tname}: {v['kind']} {v['label'][:300]}")
            if a.v and (tname, v["label"]) not in shown:
                shown.add((tname, v["label"]))
                print(v.get("tb", ""), str(v["inputs"])[:600])
    for tname, r in results.items():
        for k, n in r["incomplete"].items():
            incomplete.append(f"{tname}: {k} (x{n})")
        if not r["exhausted"] and not r["error"]:
            incomplete.append(f"{tname}: path/time budget reached after {r['stats'].get('paths')} paths")
    vac = [t.name for t in tasks if t.must_reach and results.get(t.name) and not results[t.name]["reached"] and not results[t.name]["viol"]
           and not results[t.name]["incomplete"] and results[t.name]["exhausted"]]
    # ---- known findings
    kf = known_findings()
    new, seen_kf = [], {}
    for c in confirmed:
        m = next((f for f in kf["findings"] if f["property"] == prop and f["task"] == c["task"] and (f["label"] in c["label"])), None)
        if m:
            seen_kf[m["id"]] = m
        else:
            new.append(c)
    for f in kf["findings"]:
        if f["property"] == prop and f["id"] in seen_kf:
            print(f"KNOWN-FINDING: property={prop} {f['id']}: {f['what']}")
    # ---- output
    wall = time.time() - t0
    tot = {}
    for r in results.values():
        for k, n in r["stats"].items():
            tot[k] = tot.get(k, 0) + n
    funcs = sorted({f for r in results.values() for f in r["funcs"]})
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    samples = []
    for r in results.values():
        if r["samples"] and len(samples) < 3:
            samples.append(dict(task=r["task"], inputs={n: (v if not isinstance(v, list) else "/".join(v)) for n, _, v in r["samples"][0]["inputs"][:40]}))
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(
                  states=tot.get("paths", 0), transitions=tot.get("branches", 0) + tot.get("concretised", 0),
                  traces_validated_against_impl=validated, trace_mismatches=mismatched, samples=samples,
                  exhaustive=False,
                  explanation="states = feasible symbolic paths of the real code, transitions = branch/concretisation decisions made by the solver; "
                              "every assertion is decided by Z3 for all values of the symbolic inputs on its path; traces = solver models replayed on the unmodified code.",
                  functions_encoded=funcs, assertions=tot.get("checks", 0), assertions_trivially_true_after_simplification=tot.get("checks_trivial", 0),
                  possibility_claims=sum(r.get("nreach", 0) for r in results.values()), solver_queries=tot.get("queries", 0), solver_seconds=round(tot.get("solver_s", 0), 2), solver_unknown=tot.get("unknown", 0),
                  infeasible_or_assumed_away_paths=tot.get("aborted", 0), assertions_equal_within_tolerance=tot.get("within_tol", 0),
                  bounds=[dict(task=t.name, doc=" ".join((t.fn.__doc__ or "").split()), paths=results[t.name]["stats"].get("paths", 0),
                               checks=results[t.name]["checks"], exhausted=results[t.name]["exhausted"]) for t in tasks if t.name in results],
                  incomplete=sorted(set(incomplete)), unconfirmed=[dict(task=u["task"], label=u["label"]) for u in unconfirmed[:20]], vacuous=vac, counterexamples_replayed=len(per_v)),
              assumptions=["floats are mathematical reals (rounding, overflow and NaN propagation of data are outside)",
                           "python/numpy integers are unbounded", "random number generators return arbitrary values of their documented range",
                           "the numpy/torch primitives used by the code are encoded by /verif/symx (validated by selftest and by replaying solver models)"],
              wall_s=round(wall, 2), violations=len(new))
    with open(f"{VERIF}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for i in sorted(set(incomplete))[:12]:
        print("INCOMPLETE:", i)
    rc = 0
    if new:
        rc = 1
        done = set()
        rd_ = f"{VERIF}/evidence/replays"
        os.makedirs(rd_, exist_ok=True)
        for k, c in enumerate(new):
            key = (c["task"], c["label"].split(":")[0])
            if key in done:
                continue
            done.add(key)
            path = f"{rd_}/{prop}_{len(done)}.json"
            with open(path, "w") as f:
                json.dump(dict(property=prop, task=c["task"], label=c["label"], inputs=c["inputs"], seed=seed, kind=c["kind"], replay=c["replay"]), f, indent=1, default=str)
            print(f"counterexample [{c['task']}] {c['label'][:400]}  ({c['kind']})")
            if a.v:
                print("   inputs:", [(n, v) for n, _, v in c["inputs"]][:60])
                print(c["replay"].get("tb", ""))
            print(f"VIOLATION property={prop} replay={path}", flush=True)
            if len(done) >= 5:
                break
    elif unconfirmed:
        rc = 2 if os.environ.get("VERIF_STRICT") else 0
        for u in unconfirmed[:6]:
            print(f"UNCONFIRMED [{u['task']}] {u['label']}: the solver's counterexample does not reproduce on the real code")
            if a.v:
                print("   inputs:", [(n, v) for n, _, v in u["inputs"]][:60], u["replay"][:1])
    elif vac:
        rc = 2 if os.environ.get("VERIF_STRICT") else 0
        print("VACUOUS:", vac)
    print(f"{prop} [{tier}] tasks={len(tasks)} paths={tot.get('paths', 0)} assertions={tot.get('checks', 0)} queries={tot.get('queries', 0)} "
          f"solver={tot.get('solver_s', 0):.1f}s validated_traces={validated} mismatches={mismatched} violations={len(new)} wall={wall:.1f}s")
    if os.environ.get("VERIF_STRICT") and (incomplete or mismatched):
        rc = rc or 4
    return rc


def replay_file(path):
    j = json.load(open(path))
    sys.path.insert(0, REPO)
    mute()
    light_imports()
    preimport()
    from . import nondet
    nondet.install_real()
    load_harness()
    from .ctx import REGISTRY
    t = next(t for t in REGISTRY[j["property"]] if t.name == j["task"])
    if j.get("kind") == "reach":
        seen = run_reach(t, j.get("seed", 0))
        dead = j["label"].removeprefix("impossible: ")
        print(json.dumps(dict(seen, impossible=dead), indent=1))
        return 0 if dead in seen["seen"] else 1
    out = run_replay(t, j["inputs"], j.get("seed", 0))
    print(json.dumps(out, indent=1, default=str))
    return 1 if out["failed"] or out["exc"] else 0


if __name__ == "__main__":
    sys.exit(main())
