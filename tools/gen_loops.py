"""writes contracts/loops.json: the loop nesting of every function the loop invariants of the
contracts are attached to (run by hand when a contract or an invariant changes)"""
import ast
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pyvc.loader import SRC, Transformer  # noqa: E402

out = {}
for root, _, files in os.walk(os.path.join(SRC, "tranquilo")):
    for f in files:
        if f.endswith(".py"):
            path = os.path.join(root, f)
            name = os.path.relpath(path, SRC)[:-3].replace(os.sep, ".")
            tr = Transformer(name)
            tr.module(ast.parse(open(path).read()))
            out.update({k: v for k, v in tr.shapes.items() if v})
with open(os.path.join(HERE, "contracts", "loops.json"), "w") as f:
    json.dump(out, f, indent=1, sort_keys=True)
    f.write("\n")
