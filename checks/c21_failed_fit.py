"""C21: a failed fit leaves the previous model in force."""

import os
import pickle
import sys

import numpy

from sim import kit, runtime, zoo
from sim.kit import InvalidPlan, check

ID = "C21"
RUNS = dict(quick=16000, thorough=800000)
SHRINK_LISTS = ("ops",)
RULE = ("A run takes one classifier through fits that succeed and fits that fail - refused data, a singular class, a class of too few samples or with not-a-number, or an exception raised by the n-th call of the numerical library - with settings, predictions and restarts between; "
        "after each operation it must predict as a new instance given only the last successful fit, or refuse as one never fitted; distinct by digest of the predictions.")
STATE = "distinct (classifier, order, sequence of operations and failures, class in which the fit failed)"
REAL = ["diamondback.models.GaussianModel, GaussianMixtureModel, diamondback.commons.Serial", "numpy, scipy, scikit-learn (except for the call that fails)"]
STUB = ["the n-th call of numpy, numpy.linalg, scipy.linalg or sklearn.mixture raises (injected)"]
ASSUMPTIONS = ["the library fails at the entry of one of its functions", "predictions of one process on one machine are exactly reproducible"]
ERRORS = dict(memory=MemoryError, linalg=numpy.linalg.LinAlgError, floating=FloatingPointError, interrupt=KeyboardInterrupt, runtime=RuntimeError, exit=SystemExit)
PROBES = ("gaussian", "mixture", "call", "singular", "few", "nan", "bad", "unfitted", "fitted", "restart", "succeeded", "first-class", "later-class", *ERRORS)
FILES = {}


def prepare():
    zoo.quiet()
    import random
    import warnings

    import numpy as np
    import scipy.linalg
    import sklearn.mixture

    warnings.simplefilter("ignore")
    base = os.path.dirname(os.path.dirname(np.__file__))
    FILES["gaussian"] = (base + "/numpy/",)
    FILES["mixture"] = (base + "/sklearn/mixture/", base + "/numpy/linalg/", base + "/scipy/linalg/")
    lib, r = runtime.Process(), random.Random(1)
    for name in FILES:  # everything is imported and cached before calls are counted
        k = zoo.kind(name)
        for _ in range(5):
            c = k.cfg(r)
            inst = k.make(lib, c)
            k.fit(inst, k.data(r, c))
            inst.predict(zoo.rows(k.query(r, c)))
            try:
                inst.fit(numpy.zeros((4, 2)), numpy.zeros(4, int))
            except Exception:
                pass


def traced(files, at, error, body):
    """Runs body; the at-th call of a function in files raises. Returns the number of calls."""
    n = [0]

    def tracer(frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(files) and not frame.f_code.co_name.startswith("<"):
            n[0] += 1
            if n[0] == at:
                raise error("injected")
        return None

    before = sys.gettrace()
    sys.settrace(tracer)
    try:
        body()
    finally:
        sys.settrace(before)
    return n[0]


def generate(r, tier):
    k = zoo.kind(r.choice(["gaussian", "gaussian", "mixture"]))
    c = k.cfg(r)
    ops = []
    for _ in range(r.choice([2, 3, 5, 8])):
        u = r.random()
        if u < 0.25:
            ops.append(["fit", k.data(r, c)])
        elif u < 0.7:
            data = k.data(r, c)
            if r.random() < 0.2:
                data["dim"] = r.choice([1, 2, 3])
            how = r.choice(["call", "call", "call", "bad", "singular", "few", "nan"])
            if how == "call":
                ops.append(["fail", data, ["call", r.random(), r.choice(sorted(ERRORS))]])
            elif how == "bad":
                ops.append(["fail", data, ["bad", r.choice([b for b in k.bad(r, c) if b[0] == "fit"])]])
            else:
                ops.append(["fail", data, [how if k.name == "mixture" or how != "few" else "singular", r.randrange(data["classes"])]])
        elif u < 0.8:
            ops.append(["restart", r.choice(["encode", "compress", "pickle"])])
        elif u < 0.88:
            ops.append(["set", *k.draw_set(r, c)])
        else:
            ops.append(["predict", k.query(r, c)])
    return dict(kind=k.name, cfg=c, ops=ops, seed=r.randrange(1 << 30))


def spoiled(data, how, which):
    x, y = zoo.labelled(data)
    labels = sorted(set(y.tolist()))
    label = labels[which % len(labels)]
    rows = numpy.nonzero(y == label)[0]
    if how == "singular":
        x[rows] = 2.0
    elif how == "few":
        keep = numpy.ones(len(y), bool)
        keep[rows[1:]] = False
        x, y = x[keep], y[keep]
    elif how == "nan":
        x[rows[-1]] = numpy.nan
    else:
        raise InvalidPlan(how)
    return x, y


def execute(plan, ctx):
    lib = runtime.Process()
    k, c = zoo.kind(plan["kind"]), plan["cfg"]
    ctx.stat(k.name)
    inst = k.make(lib, c)
    known = {n: getattr(inst, n) for n in k.settings}
    twin, shape, trail = None, (), []

    def fresh():
        return getattr(lib, k.cls)(**({"order": c["order"]} if "order" in c else {}), **known)

    def verify(where, inst):
        for n, v in known.items():
            check(getattr(inst, n) == v, "settings", lambda: f"{where}: {n} is {getattr(inst, n)!r} instead of {v!r}")
        check(tuple(inst.shape) == tuple(shape), "shape", lambda: f"{where}: the shape reads {inst.shape} instead of {shape}")
        g = numpy.random.Generator(numpy.random.PCG64(plan["seed"]))
        for d in {c["dim"], *shape}:
            q = g.standard_normal((6, d)) * 4.0
            try:
                got = inst.predict(q)
            except Exception as ex:
                got = ex
            if twin is None:
                check(isinstance(got, Exception), "unfitted", lambda: f"{where}: a classifier never fitted predicts {got.tolist()}")
                ctx.event("refused")
                continue
            try:
                want = twin.predict(q)
            except Exception:
                check(isinstance(got, Exception), "shape", lambda: f"{where}: rows of {d} columns are accepted after a fit of shape {shape}")
                continue
            check(not isinstance(got, Exception), "lost", lambda: f"{where}: the previous model does not predict any more: {type(got).__name__} {got}")
            check(numpy.array_equal(got, want), "prediction", lambda: f"{where}: predictions {got.tolist()} instead of {want.tolist()} of the last successful fit")
            ctx.values("p", got)

    for j, op in enumerate(plan["ops"]):
        where = f"{k.name} {c} operation {j} {op[0]} {op[2] if op[0] == 'fail' else ''} after {trail[-6:]}"
        seed = op[1].get("random", 0) % (1 << 32) if op[0] in ("fit", "fail") else 0
        if op[0] == "fit":
            k.fit(inst, op[1])
            twin = fresh()
            k.fit(twin, op[1])
            shape = (op[1]["dim"],)
            ctx.stat("succeeded")
            trail.append("fit")
        elif op[0] == "fail":
            how = op[2]
            ctx.stat("fitted" if twin is not None else "unfitted")
            ctx.fault(how[0])
            trail.append(how[0])
            if how[0] == "bad":
                k.apply(inst, ["bad", how[1]])
            elif how[0] == "call":
                x, y = zoo.labelled(op[1])
                numpy.random.seed(seed)
                probe = fresh()
                total = traced(FILES[k.name], 0, None, lambda: probe.fit(x, y))
                at = 1 + int(how[1] * total)
                numpy.random.seed(seed)
                failed = None
                try:
                    traced(FILES[k.name], at, ERRORS[how[2]], lambda: inst.fit(x, y))
                except BaseException as ex:
                    failed = ex
                ctx.stat(how[2])
                ctx.stat("first-class" if how[1] < 1.0 / op[1]["classes"] else "later-class")
                check(failed is not None, "swallowed", lambda: f"{where}: {how[2]} error at call {at} of {total} of the numerical library, and the fit returned")
                trail[-1] = [how[2], int(how[1] * op[1]["classes"])]
            else:
                x, y = spoiled(op[1], *how)
                probe, failed = fresh(), []
                for v in (probe, inst):
                    if how[0] == "singular":
                        v.regularize = 0.0
                    numpy.random.seed(seed)
                    try:
                        v.fit(x, y)
                        failed.append(None)
                    except Exception as ex:
                        failed.append(ex)
                    v.regularize = known["regularize"]
                check((failed[0] is None) == (failed[1] is None), "exception", lambda: f"{where}: {failed[1]!r} where a new instance gives {failed[0]!r}")
                ctx.stat("first-class" if not how[1] else "later-class")
                if failed[0] is None:  # not a failure after all
                    twin, shape = probe, (op[1]["dim"],)
                    ctx.stat("harmless")
        elif op[0] == "restart":
            ctx.stat("restart")
            ctx.fault("restart")
            with lib:
                inst = pickle.loads(pickle.dumps(inst)) if op[1] == "pickle" else lib.Serial.decode(lib.Serial.encode(inst, compress=op[1] == "compress"))
            trail.append("restart")
        elif op[0] == "set":
            setattr(inst, op[1], op[2])
            known[op[1]] = op[2]
            trail.append("set")
        elif op[0] == "predict":
            try:
                inst.predict(zoo.argument(op[1], zoo.rows(op[1])))
            except Exception:
                pass
            trail.append("predict")
        else:
            raise InvalidPlan(op)
        verify(where, inst)
        ctx.steps += 1
    with lib:  # and after a checkpoint
        verify(f"{k.name} {c} decoded after {trail}", lib.Serial.decode(lib.Serial.encode(inst)))
    ctx.state(k.name, c.get("order"), trail)
