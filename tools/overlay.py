#!/usr/bin/env python3
"""overlay.py REPO HARNESS: prints the overlay that shows the harness to the Go
compiler as packages below REPO/zz_verif."""
import json, os, sys
repo, harness = sys.argv[1], os.path.abspath(sys.argv[2])
rep = {}
for d, _, files in os.walk(harness):
    for f in files:
        if f.endswith(".go"):
            p = os.path.join(d, f)
            rep[os.path.join(repo, "zz_verif", os.path.relpath(p, harness))] = p
json.dump({"Replace": rep}, sys.stdout)
