#!/usr/bin/env python3
"""bugs.py [ID...]: writes the planted bugs to seeded/ and confirms each one."""
import json, os, subprocess, sys

DEMO = r'''#!/bin/bash
# Runs the program beside this script with the code in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/zz_demo/main.go":"%s/main.go.txt"}}' "$PWD" "$here" > "$tmp/overlay.json"
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zz_demo || exit 1
"$tmp/demo"
'''

MATCH = '''package main

import (
	"fmt"
	"os"

	"github.com/flowchartsman/aql/jsonmatcher"
)

func main() {
	for _, c := range []struct {
		query, doc string
		want       bool
	}{
%s
	} {
		m, err := jsonmatcher.NewMatcher(c.query)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		got, err := m.Match([]byte(c.doc))
		if err != nil || got != c.want {
			fmt.Printf("%%s on %%s: %%v, %%v\\n", c.query, c.doc, got, err)
			os.Exit(1)
		}
	}
}
'''

def matches(*cases):
    return MATCH % "\n".join("\t\t{`%s`, `%s`, %s}," % (q, d, "true" if w else "false") for q, d, w in cases)

BUGS = {}
def bug(id, prop, needs, breaks, edits, main):
    BUGS[id] = (prop, needs, breaks, edits, main)

exec(open("/verif/tools/buglist.py").read())

def run(c, **k):
    return subprocess.run(c, shell=True, text=True, **k)

for id, (prop, needs, breaks, edits, main) in BUGS.items():
    if len(sys.argv) > 1 and id not in sys.argv[1:]:
        continue
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    if isinstance(main, dict):
        for name, text in main.items():
            open(f"{d}/{name}", "w").write(text)
    else:
        open(f"{d}/demo.sh", "w").write(DEMO)
        open(f"{d}/main.go.txt", "w").write(main)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    assert not run("git -C /repo status --porcelain", capture_output=True).stdout
    for f, old, new in edits:
        p = "/repo/" + f
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    print("==", id, prop)
    run(f"python3 /verif/tools/mkbug.py {id}")
