"""python -m vf.main C01 [--tier quick|thorough] [--seed N] [--replay FILE]"""

import argparse
import os
import sys

from vf import boot, build


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--shard", type=int)
    ap.add_argument("--nshards", type=int, default=None)
    ap.add_argument("--out")
    ap.add_argument("--budget", type=float, default=420)
    a = ap.parse_args()

    from vf import core

    if a.shard is not None:
        boot.boot()
        return core.shard_main(a.prop, a.tier, a.seed, a.shard, a.nshards, a.out, a.budget)

    sys.path.append(boot.TOOLS)
    try:
        # everything native is rebuilt from the working tree before the search starts
        build.build_all()
    except build.BuildError as e:
        print(f"the working tree does not build:\n{e}", file=sys.stderr)
        return 2
    boot.boot()
    if a.replay:
        return core.replay_main(a.prop, a.replay)
    return core.parent_main(a.prop, a.tier, a.seed, a.nshards)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
