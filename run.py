"""run.py <property> [quick|thorough]   |   run.py --replay FILE"""
import importlib
import os
import sys

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [REPO, HERE]
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)

from lib import common  # noqa: E402


def mods(prop):
    return importlib.import_module("checks." + prop.lower())


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(common.replay(sys.argv[2], mods))
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    rc = common.main(prop, mods(prop), tier, seed)
    sys.stdout.flush()
    os._exit(rc)
