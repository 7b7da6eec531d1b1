"""python -m vf.run C01 [--replay FILE] [--scale X] [--only sub,sub]"""
import argparse
import os
import sys
import warnings

warnings.filterwarnings("ignore")
sys.setrecursionlimit(10000)


def cli():
    p = argparse.ArgumentParser()
    p.add_argument("property")
    p.add_argument("--replay")
    p.add_argument("--scale", type=float, default=1.0)
    p.add_argument("--only")
    a = p.parse_args()
    from vf import compat  # noqa: F401  (environment work-arounds)
    from vf import runner

    if a.replay:
        code = runner.replay(a.property, a.replay)
    else:
        code = runner.main(a.property, a.scale, a.only.split(",") if a.only else None)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


if __name__ == "__main__":
    try:
        cli()
    except Exception:
        import traceback

        traceback.print_exc()
        sys.stderr.flush()
        os._exit(3)
