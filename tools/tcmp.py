#!/usr/bin/env python3
"""tcmp.py OUT.json: stable tests that did not pass"""
import json
import sys
b, t = json.load(open("/opt/vp/BASELINE.json")), json.load(open(sys.argv[1]))
print("missing:", sorted(set(b["stable"]) - set(t["passed"])))
