import os
import sys

from . import core


def main():
    args = sys.argv[1:]
    if "--replay" in args:
        return core.replay(args[args.index("--replay") + 1])
    name = args[0].lower()
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    return core.run_property(name, tier)


if __name__ == "__main__":
    sys.stdout.flush()
    code = main()
    sys.stdout.flush()
    os._exit(code)
