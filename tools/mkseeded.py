#!/usr/bin/env python3
"""Writes the planted bugs under seeded/ (patch.diff, demo.sh, main.go, meta.json) from the list below.
Only used while developing; no check reads seeded/."""
import json, os, shutil, subprocess, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GOMOD = open(here + "/mc/go.sum").read()
DEMO = r'''#!/bin/bash
# %s
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
export HOME=${HOME:-/root} GOPATH=${GOPATH:-/root/go} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=mod
export PATH=$PATH:/usr/local/go/bin
cp "$here/main.go" "$here/go.sum" "$w"
cat > "$w/go.mod" <<EOF
module demo
go 1.21
require (
	github.com/webability-go/xcore v0.0.0
	github.com/webability-go/xcore/v2 v2.0.0
	golang.org/x/text v0.3.8
)
replace github.com/webability-go/xcore => $repo
replace github.com/webability-go/xcore/v2 => $repo/v2
EOF
cd "$w" && go build %s -o demo . || exit 0
timeout 250 ./demo
'''
MAIN = '''package main

import (
%s)

func fail(a ...interface{}) { fmt.Println(append([]interface{}{"WRONG:"}, a...)...); os.Exit(1) }

func main() {
%s
}
'''
LIBS = {"xcore.": '"github.com/webability-go/xcore/v2"', "x1.": 'x1 "github.com/webability-go/xcore"', "time.": '"time"', "sync.": '"sync"', "strings.": '"strings"', "language.": '"golang.org/x/text/language"', "filepath.": '"path/filepath"'}
B = []
def bug(id, prop, needs, breaks, edits, body, race=False):
    B.append((id, prop, needs, breaks, edits, body, race))
exec(open(here + "/tools/seeded_list.py").read())
root = here + "/seeded"
for id, prop, needs, breaks, edits, body, race in B:
    d = root + "/" + id
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    files = sorted({f for f, _, _ in edits})
    for s in ("a", "b"):
        for f in files:
            os.makedirs(os.path.dirname(w + "/" + s + "/" + f), exist_ok=True)
            shutil.copy("/repo/" + f, w + "/" + s + "/" + f)
    for f, old, new in edits:
        p = w + "/b/" + f
        t = open(p).read()
        assert t.count(old) == 1, (id, f, old, t.count(old))
        open(p, "w").write(t.replace(old, new))
    for f in files:
        r = subprocess.run(["gofmt", "-l", w + "/b/" + f], capture_output=True, text=True)
        assert r.returncode == 0 and not r.stdout, (id, r)
    out = subprocess.run(["git", "diff", "--no-index", "--no-color", "--no-prefix", "a", "b"], cwd=w, capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(out)
    imp = ['"fmt"', '"os"'] + [v for k, v in LIBS.items() if k in body]
    open(d + "/main.go", "w").write(MAIN % ("".join("\t%s\n" % i for i in imp), body.strip("\n")))
    subprocess.check_call(["gofmt", "-w", d + "/main.go"])
    open(d + "/go.sum", "w").write(GOMOD)
    open(d + "/demo.sh", "w").write(DEMO % (breaks, "-race" if race else ""))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(w)
print(len(B))
