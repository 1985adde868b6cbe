"""Replay one violating case in this process, plainly: python -m mc.replay FILE."""

import importlib
import json
import sys

from mc import core

if __name__ == "__main__":
    doc = json.load(open(sys.argv[1]))
    core.load_skfolio()
    module = importlib.import_module(f"mc.checks.{doc['property'].lower()}")
    v = core.decide(module, doc["case"], core.Ctx())
    if v is None:
        print("held")
        sys.exit(0)
    print(f"VIOLATION property={doc['property']} replay={sys.argv[1]}")
    print(v["key"], v["message"])
    sys.exit(1)
