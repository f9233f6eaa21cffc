#!/usr/bin/env python3
"""Writes engine/signatures.json: the parameters of the functions of the crate, as the contracts pass them."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, HERE)
import check
from contracts import signature
from interp import Prog

prog = Prog(check.mir("/repo"))
out = {}
for k, f in prog.fns.items():
    if not f["name"].startswith("<") and "{closure" not in f["name"]:
        out[f["name"]] = signature(prog, k)
json.dump(dict(sorted(out.items())), open(os.path.join(HERE, "engine", "signatures.json"), "w"), separators=(",", ":"))
