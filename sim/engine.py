"""Runs a check: many seeded runs in forked workers, minimisation, replay, evidence."""

import copy
import gc
import importlib
import json
import os
import pickle
import resource
import select
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from sim import runtime
from sim.kit import Context, Hang, InvalidPlan, Violation, plain, rng_for

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
CPU_PER_RUN = 30
WALL = {"quick": 780, "thorough": 6 * 3600}


def load(pid):
    for name in sorted(os.listdir(os.path.join(VERIF, "checks"))):
        if name.lower().startswith(pid.lower() + "_") and name.endswith(".py"):
            return importlib.import_module("checks." + name[:-3])
    raise SystemExit(f"no check for {pid}")


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


def is_known(found, known):
    for k in known:
        if k["kind"] == found["kind"] and all(s in found["message"] for s in k.get("contains", [])):
            return k
    return None


def _alarm(signum, frame):
    raise Hang()


def _where(ex):
    """The innermost function of the code under test, else of the check, that raised."""
    frames = [f for f in traceback.extract_tb(ex.__traceback__)]
    own = [f for f in frames if "/diamondback/" in f.filename] or frames
    return f"in {os.path.basename(own[-1].filename)}:{own[-1].name}" if own else ""


def run_once(mod, plan, trace=False):
    """Executes one plan.  Returns (violation or None, context)."""
    ctx = Context(trace)
    found = None
    gc.collect()  # when objects die must not depend on the runs before
    gc.disable()
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, getattr(mod, "CPU_PER_RUN", CPU_PER_RUN))
    try:
        mod.execute(plan, ctx)
    except Violation as v:
        found = dict(kind=v.kind, message=v.message)
    except (InvalidPlan, MemoryError):
        raise
    except Exception as ex:
        found = dict(kind=f"unexpected {type(ex).__name__} {_where(ex)}", message=f"{ex}\n{traceback.format_exc()[-1500:]}")
    except Hang:
        found = dict(kind="no-progress", message=f"the run used {CPU_PER_RUN} s of processor time without ending")
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        gc.enable()
    if found:
        ctx.event("violation", found["kind"])
    return found, ctx


def plan_for(mod, seed, tier, index):
    return mod.generate(rng_for(seed, mod.ID, index), tier)


def _worker(mod, seed, tier, indices, pipe, stop):
    out = os.fdopen(pipe, "wb")

    def send(x):
        data = pickle.dumps(x)
        out.write(len(data).to_bytes(8, "big") + data)
        out.flush()

    known = known_findings(mod.ID)
    agg = dict(runs=0, nontrivial=set(), stats={}, faults={}, states=set(), simtime=0.0, steps=0, digests=[], known={}, samples=[])
    try:
        if hasattr(mod, "start"):
            mod.start()
        for n, i in enumerate(indices):
            plan = plan_for(mod, seed, tier, i)
            found, ctx = run_once(mod, plan)
            agg["runs"] += 1
            if ctx.nontrivial or not getattr(mod, "NEEDS_FAULTS", True):
                agg["nontrivial"].add(ctx.digest())
            for k, v in ctx.stats.items():
                agg["stats"][k] = agg["stats"].get(k, 0) + v
            for k, v in ctx.faults.items():
                agg["faults"][k] = agg["faults"].get(k, 0) + v
            agg["states"] |= ctx.states
            agg["simtime"] += ctx.simtime
            agg["steps"] += ctx.steps
            agg["digests"].append((i, ctx.digest()))
            if i < 2:
                agg["samples"].append(dict(run=i, plan=json.loads(plain(plan)[:20000]) if len(plain(plan)) < 4000 else plain(plan)[:4000], digest=ctx.digest()))
            if found:
                k = is_known(found, known)
                if k:
                    agg["known"][k["id"]] = found
                    continue
                plan = copy.deepcopy(plan)
                if ctx.switches is not None and "sched" in plan:
                    plan["sched"] = dict(switches=ctx.switches)
                send(("found", i, found, plan))
                break
            if n % 4 == 0:
                r, _, _ = select.select([stop], [], [], 0)
                if r:
                    break
        send(("agg", agg))
        out.close()
        os._exit(0)
    except BaseException:  # noqa
        send(("error", traceback.format_exc()))
        out.close()
        os._exit(2)


def _isolated(mod, plan, wall=120):
    """Runs one plan in a forked child.  Returns (violation or None, digest) or None if it broke."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        os.close(r)
        code = 0
        try:
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
            if hasattr(mod, "start"):
                mod.start()
            found, ctx = run_once(mod, plan)
            data = pickle.dumps((found, ctx.digest(), ctx.switches))
        except BaseException:  # noqa
            data = pickle.dumps(None)
        with os.fdopen(w, "wb") as f:
            f.write(data)
        os._exit(code)
    os.close(w)
    data, end = b"", time.time() + wall
    while True:
        ready, _, _ = select.select([r], [], [], max(0.0, end - time.time()))
        if not ready:
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return pickle.loads(data)
    except Exception:
        return None


def _lists(plan, keys, path=()):
    if isinstance(plan, dict):
        for k in plan:
            if isinstance(plan[k], list) and k in keys:
                yield path + (k,)
            yield from _lists(plan[k], keys, path + (k,))
    elif isinstance(plan, list):
        for k, v in enumerate(plan):
            yield from _lists(v, keys, path + (k,))


def _get(plan, path):
    for p in path:
        plan = plan[p]
    return plan


def _candidates(mod, plan):
    """Smaller plans, largest reductions first."""
    keys = getattr(mod, "SHRINK_LISTS", ("ops", "faults", "switches", "split", "threads", "chunks", "events"))
    paths = list(_lists(plan, keys))
    for path in paths:
        n = len(_get(plan, path))
        size = n
        while size >= 1:
            for at in range(0, n, size):
                c = copy.deepcopy(plan)
                del _get(c, path)[at : at + size]
                yield c
            size //= 2
    if hasattr(mod, "simpler"):
        yield from mod.simpler(copy.deepcopy(plan))


def minimise(mod, plan, kind, seconds=60, tries=600):
    end, used, best = time.time() + seconds, 0, plan
    progress = True
    while progress and time.time() < end and used < tries:
        progress = False
        for c in _candidates(mod, best):
            if time.time() > end or used >= tries:
                break
            used += 1
            try:
                res = _isolated(mod, c, wall=60)
            except Exception:
                continue
            if res and res[0] and res[0]["kind"] == kind:
                best, progress = c, True
                break
    return best, used


def write_replay(mod, plan, found, seed, index, tier, digest):
    d = os.path.join(VERIF, "replays", mod.ID)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{digest}.json")
    with open(path, "w") as f:
        json.dump(dict(property=mod.ID, kind=found["kind"], message=found["message"], seed=seed, run=index, tier=tier, digest=digest, plan=plan), f, indent=1, sort_keys=True)
    return path


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    runtime.preload()
    mod = load(rec["property"])
    if hasattr(mod, "prepare"):
        mod.prepare()
    if hasattr(mod, "start"):
        mod.start()
    found, ctx = run_once(mod, rec["plan"], trace=bool(os.environ.get("VERIF_TRACE")))
    if ctx.events is not None:
        for e in ctx.events:
            print("  ", e)
    if found:
        print(f"{found['kind']}: {found['message']}")
        print(f"digest {ctx.digest()} recorded {rec['digest']} {'exactly reproduced' if ctx.digest() == rec['digest'] else 'differs'}")
        print(f"VIOLATION property={mod.ID} replay={path}")
        return 1
    print(f"property={mod.ID} not violated by {path}")
    return 0


def main(pid, tier, seed, runs=None, workers=None, dump=None, first=0):
    began = time.time()
    runtime.preload()
    mod = load(pid)
    runs = runs or mod.RUNS[tier]
    workers = workers or WORKERS
    if hasattr(mod, "prepare"):
        mod.prepare()
    limit = 3 << 30
    resource.setrlimit(resource.RLIMIT_AS, (limit * 3, limit * 3))
    kids, stop_r, stop_w = [], *os.pipe()
    print(f"property={pid} tier={tier} VERIF_SEED={seed} runs={runs} workers={workers}", flush=True)
    sys.stdout.flush()
    for w in range(workers):
        r, wr = os.pipe()
        pid_ = os.fork()
        if not pid_:
            os.close(r)
            os.close(stop_w)
            for k in kids:
                os.close(k["r"])
            _worker(mod, seed, tier, range(first + w, first + runs, workers), wr, stop_r)
        os.close(wr)
        kids.append(dict(pid=pid_, r=r, buf=b"", msgs=[], open=True))
    end = began + WALL[tier]
    broke, late, stopping = [], False, False
    while any(k["open"] for k in kids):
        ready, _, _ = select.select([k["r"] for k in kids if k["open"]], [], [], max(0.0, end - time.time()))
        if not ready:
            late = True
            break
        for k in kids:
            if k["open"] and k["r"] in ready:
                b = os.read(k["r"], 1 << 20)
                if not b:
                    k["open"] = False
                    continue
                k["buf"] += b
                while len(k["buf"]) >= 8:
                    n = int.from_bytes(k["buf"][:8], "big")
                    if len(k["buf"]) < 8 + n:
                        break
                    k["msgs"].append(pickle.loads(k["buf"][8 : 8 + n]))
                    if k["msgs"][-1][0] in ("found", "error") and not stopping:
                        stopping = True
                        os.write(stop_w, b"x")
                    k["buf"] = k["buf"][8 + n :]
    if late:
        for k in kids:
            try:
                os.kill(k["pid"], signal.SIGKILL)
            except ProcessLookupError:
                pass
    for k in kids:
        k["status"] = os.waitpid(k["pid"], 0)[1]
    found, agg = [], dict(runs=0, nontrivial=set(), stats={}, faults={}, states=set(), simtime=0.0, steps=0, digests=[], known={}, samples=[])
    for k in kids:
        kinds = [m[0] for m in k["msgs"]]
        if "error" in kinds:
            broke.append(next(m[1] for m in k["msgs"] if m[0] == "error"))
        elif "agg" not in kinds and "found" not in kinds:
            broke.append(f"a worker ended without a result, status {k['status']:#x}")
        for m in k["msgs"]:
            if m[0] == "found":
                found.append(m[1:])
            elif m[0] == "agg":
                a = m[1]
                agg["runs"] += a["runs"]
                agg["simtime"] += a["simtime"]
                agg["steps"] += a["steps"]
                agg["nontrivial"] |= a["nontrivial"]
                agg["states"] |= a["states"]
                agg["digests"] += a["digests"]
                agg["known"].update(a["known"])
                agg["samples"] += a["samples"]
                for x in ("stats", "faults"):
                    for n, v in a[x].items():
                        agg[x][n] = agg[x].get(n, 0) + v
    search_s = time.time() - began
    if dump:
        with open(dump, "w") as f:
            for i, d in sorted(agg["digests"]):
                f.write(f"{i} {d}\n")
    status, line = 0, None
    if found:
        found.sort(key=lambda x: x[0])
        index, viol, plan = found[0]
        print(f"run {index}: {viol['kind']}: {viol['message']}", flush=True)
        original = plan
        res = _isolated(mod, plan)
        if not (res and res[0]):
            plan = plan_for(mod, seed, tier, index)  # the schedule as drawn
            res = _isolated(mod, plan)
        if res and res[0]:
            viol = res[0]
            plan, used = minimise(mod, plan, viol["kind"])
            print(f"minimised with {used} executions: {len(plain(original))} to {len(plain(plan))} bytes", flush=True)
            res = _isolated(mod, plan) or res
            path = write_replay(mod, plan, res[0] or viol, seed, index, tier, res[1])
            ok = False
            for _ in range(3):
                q = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), pid, "--replay", path], capture_output=True, text=True, timeout=300)
                if q.returncode == 1 and "VIOLATION" in q.stdout:
                    ok = True
                    break
            if ok:
                status, line = 1, f"VIOLATION property={pid} replay={path}"
                print(q.stdout.strip().splitlines()[0] if q.stdout.strip() else "", flush=True)
            else:
                broke.append("the violation did not reproduce in a fresh process: " + str(viol) + q.stdout[-500:] + q.stderr[-500:])
        else:
            broke.append(f"the violation of run {index} did not reproduce: {viol}")
    for k in known_findings(pid):
        print(f"KNOWN-FINDING: property={pid} {k['text']}")
    hours = max(1e-9, search_s / 3600.0)
    cov = dict(
        evaluations=agg["runs"],
        distinct_nontrivial=len(agg["nontrivial"]),
        rule=mod.RULE,
        samples=(agg["samples"] or [dict(run=first, plan=plain(plan_for(mod, seed, tier, first))[:4000])])[:2],
        runs_per_hour=int(agg["runs"] / hours),
        seeds_per_hour=int(agg["runs"] / hours),
        seeds=f"run i uses the generator sha256({seed}/{pid}/i), i in [{first}, {first + runs})",
        workers=workers,
        simulated_seconds=round(agg["simtime"], 3),
        scheduler_steps=agg["steps"],
        faults_injected=dict(sorted(agg["faults"].items())),
        probes=dict(sorted(agg["stats"].items())),
        distinct_states=len(agg["states"]),
        state_measure=getattr(mod, "STATE", "distinct digests of complete event logs"),
        real_components=mod.REAL,
        stub_components=mod.STUB,
        known_findings_met=sorted(agg["known"]),
    )
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=mod.ASSUMPTIONS, wall_s=round(time.time() - began, 2), violations=1 if status == 1 else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{pid}.{os.getpid()}")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{pid}.json"))
    print(f"property={pid} runs={agg['runs']} distinct={len(agg['nontrivial'])} states={len(agg['states'])} simulated={agg['simtime']:.1f}s faults={sum(agg['faults'].values())} wall={time.time() - began:.1f}s", flush=True)
    if status == 1:
        print(line, flush=True)
        return 1
    if late:
        print(f"ERROR: not finished within {WALL[tier]} s", flush=True)
        return 2
    if broke:
        print("ERROR: " + "\n".join(broke[:2]), flush=True)
        return 2
    missing = [p for p in getattr(mod, "PROBES", ()) if not (agg["stats"].get(p) or agg["faults"].get(p))]
    if missing and runs >= mod.RUNS["quick"]:
        print(f"WARNING: never reached: {missing}", flush=True)
    return 0
