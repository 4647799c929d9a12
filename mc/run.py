import importlib
import os
import sys

import mc.boot  # noqa: F401
from mc import harness


def run():
    args = sys.argv[1:]
    replay = None
    if "--replay" in args:
        i = args.index("--replay")
        replay = args[i + 1]
        del args[i : i + 2]
    ident = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module("checks." + ident.lower())
    code = harness.main(mod, tier, replay)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


run()
