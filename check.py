#!/usr/bin/env python3
"""check.py run <ID> [--tier quick|thorough] [--seed N] | replay <file> | setup | one <ID> <index>"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dst import boot  # noqa: E402

boot.reexec_with_env()


def main(argv):
    from dst import world
    world.install()
    if argv[:1] == ["setup"]:
        print("native modules built: %d" % boot.install())
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if "--seed" in argv:
        seed = argv[argv.index("--seed") + 1]
    try:
        boot.install()
    except RuntimeError as e:
        print("HARNESS-ERROR: %s" % e)
        return 2
    from dst import drive, runner
    drive.preload()
    if argv[0] == "run":
        return runner.check(argv[1], seed, tier)
    if argv[0] == "replay":
        return runner.replay(argv[1])
    if argv[0] == "one":
        import json
        import random
        mod = runner.load(argv[1])
        plan = runner.norm(mod.gen(random.Random(runner.run_seed(seed, argv[1], int(argv[2]))), tier))
        print(json.dumps(plan))
        for _, _, v in runner.execute(mod, [(0, plan)]):
            print(v[0])
            print(v[1] if isinstance(v[1], str) else json.dumps(v[1], indent=1, default=str)[:6000])
        return 0
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
