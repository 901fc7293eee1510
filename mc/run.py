import importlib
import os
import sys
import traceback


def registry(prop):
    from . import env  # noqa: binds artemis first
    from .checks import REGISTRY
    mod, cls = REGISTRY[prop]
    return getattr(importlib.import_module("mc.checks." + mod), cls)()


def main(argv):
    try:
        from . import core
        if argv[0] == "replay":
            return core.main_replay(argv[1], registry)
        tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        return core.main_check(registry(argv[0]), tier, seed)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
