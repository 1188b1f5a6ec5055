import importlib
import os
import sys


def main():
    args = [a for a in sys.argv[1:]]
    replay = None
    if "--replay" in args:
        i = args.index("--replay")
        replay = args[i + 1]
        del args[i : i + 2]
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if replay:
        os.environ.setdefault("VERIF_VERBOSE", "1")
    mod = importlib.import_module(f"harness.checks.{prop.lower()}")
    import megatron.energon
    from harness import core

    if not megatron.energon.__file__.startswith(core.REPO_SRC + "/"):
        print("wrong megatron.energon:", megatron.energon.__file__)
        sys.exit(3)
    rc = core.main_run(mod, tier, seed, replay)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
