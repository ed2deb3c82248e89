#!/opt/veriftools/pyvenv/bin/python
"""run.py CNN [--tier quick|thorough] [--replay FILE] [--only SUB ...] [--scale X]"""
import argparse, atexit, importlib, os, shutil, sys, tempfile

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
# the code under test is always compiled from the current sources of the working tree
sys.dont_write_bytecode = True
_cache = tempfile.mkdtemp(prefix="verif-pyc-")
sys.pycache_prefix = _cache
_pid = os.getpid()
atexit.register(lambda: os.getpid() == _pid and shutil.rmtree(_cache, ignore_errors=True))
os.environ["PYXRC"] = os.path.join(HERE, "lib", "pyxrc")
os.environ.pop("TEXINPUTS", None)
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"


def main():
    p = argparse.ArgumentParser()
    p.add_argument("prop")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    p.add_argument("--replay")
    p.add_argument("--only", nargs="*")
    p.add_argument("--scale", type=float, default=1.0)
    a = p.parse_args()
    from lib import core
    sys.path.insert(0, core.REPO)
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
    mod = importlib.import_module("checks." + a.prop.lower())
    import pyx
    assert os.path.realpath(pyx.__file__).startswith(os.path.realpath(core.REPO) + "/"), pyx.__file__
    if a.replay:
        return core.replay(mod, a.replay)
    return core.run_check(mod, a.tier, a.seed, a.only, a.scale)


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.exit(code)
