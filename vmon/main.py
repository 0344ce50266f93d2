import argparse
import importlib
import os
import sys

from vmon import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only", nargs="*")
    ap.add_argument("--nproc", type=int)
    a = ap.parse_args()
    core.setup_env()
    import pyuvdata

    src = os.environ.get("VMON_SRC", "/repo/src")
    assert os.path.realpath(pyuvdata.__file__).startswith(os.path.realpath(src) + "/"), pyuvdata.__file__
    mod = importlib.import_module(f"vmon.props.{a.prop.lower()}")
    if a.replay:
        sys.exit(core.replay(a.prop, mod, a.replay))
    sys.exit(core.run_property(a.prop, mod, a.tier, a.seed, getattr(mod, "LEVEL", "exploration"),
                               scale=a.scale, only=a.only, nproc=a.nproc))


if __name__ == "__main__":
    main()
