#!/opt/venv/bin/python
"""python check.py C01 [--tier quick|thorough] [--seed N] [--runs N] [--replay FILE]"""
import argparse
import os
import sys

ENV = dict(PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", HOME="/nonexistent")


def setup():
    """The same process environment for every run, whoever starts it."""
    want = dict(ENV)
    if os.environ.get("VERIF_HASHSEED"):
        want["PYTHONHASHSEED"] = os.environ["VERIF_HASHSEED"]
    drop = [k for k in os.environ if k.lower().endswith("_proxy") or k in ("PYTHONPATH", "PYTHONSTARTUP", "NETRC", "REQUESTS_CA_BUNDLE", "CURL_CA_BUNDLE", "NO_COLOR", "FORCE_COLOR", "TZ", "PYTHONWARNINGS", "PYTHONTRACEMALLOC") or k.startswith("LOGURU_")]
    if drop or any(os.environ.get(k) != v for k, v in want.items()):
        env = {k: v for k, v in os.environ.items() if k not in drop}
        env.update(want)
        python = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
        os.execve(python, [python, os.path.abspath(__file__), *sys.argv[1:]], env)


def main():
    p = argparse.ArgumentParser()
    p.add_argument("property")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    p.add_argument("--runs", type=int)
    p.add_argument("--first", type=int, default=0)
    p.add_argument("--workers", type=int)
    p.add_argument("--replay")
    p.add_argument("--dump", help="write one digest per run")
    a = p.parse_args()
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path[:0] = [here, os.environ.get("VERIF_REPO", "/repo")]
    os.chdir(here)
    import warnings

    warnings.simplefilter("ignore")
    from sim import engine

    try:
        if a.replay:
            return engine.replay(a.replay)
        return engine.main(a.property, a.tier, a.seed, a.runs, a.workers, a.dump, a.first)
    except SystemExit:
        raise
    except BaseException:  # noqa
        import traceback

        traceback.print_exc()
        return 2


if __name__ == "__main__":
    setup()
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
