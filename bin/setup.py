#!/usr/bin/env python3
"""Checks that the tools are there and that the simulators build from /repo's working tree."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
import json
used = {check.kind(p) for p in json.load(open(os.path.join(check.V, "bin/props.json")))}
for what in sorted(used):
    print(check.build(what))
