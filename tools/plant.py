#!/usr/bin/env python3
"""plant.py ID PROP: reads a spec file tools/bugs/ID.py? No: used as a module.

Creates /verif/seeded/ID from a spec and confirms it in a scratch copy."""
import json, os, shutil, subprocess, sys, textwrap
DEMO_SH = '''#!/bin/bash
# Runs the Go program beside this file inside /repo's module (run with cwd /repo).
d=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/zz_demo/main.go":"%s/main.go"}}' "$PWD" "$d" > "$t/overlay.json"
go build -overlay "$t/overlay.json" -o "$t/demo" ./zz_demo || exit 2
cd "$t" && timeout 120 ./demo
'''
SCRIPT_GO = '''package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"
)

// Each group of programs runs in one interpreter; what a program should give
// is its printed value, or "error" when it should fail.
var groups = [][][2]string{
%s}

func main() {
	bad := 0
	for _, g := range groups {
		env := zygo.NewZlisp()
		env.StandardSetup()
		for _, c := range g {
			x, err := env.EvalString(c[0])
			got := ""
			if err != nil {
				got = "error"
				if strings.HasPrefix(c[1], "error ") && strings.Contains(err.Error(), c[1][6:]) {
					got = c[1]
				}
			} else {
				got = x.SexpString(nil)
			}
			if c[1] != "*" && got != c[1] {
				bad++
				fmt.Printf("%%s\\n  gives %%s (error %%v)\\n  should give %%s\\n", c[0], got, err, c[1])
			}
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
}
'''
def goq(s): return json.dumps(s, ensure_ascii=False)
def script(groups):
    out = ""
    for g in groups:
        out += "\t{\n" + "".join("\t\t{%s, %s},\n" % (goq(a), goq(b)) for a, b in g) + "\t},\n"
    return SCRIPT_GO % out
def sh(cmd, cwd, env=None, t=900):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, timeout=t)
def plant(id, prop, edits, demo, needs, breaks, checks=None, tier="quick"):
    """edits: [(file, old, new[, nth])]; demo: groups list or Go source."""
    d = "/verif/seeded/" + id
    w = "/tmp/plant/" + id
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs("/tmp/plant", exist_ok=True)
    sh("git clone -q --shared /repo %s" % w, "/tmp")
    try:
        for e in edits:
            f, old, new = e[:3]; nth = e[3] if len(e) > 3 else 1
            p = os.path.join(w, f); s = open(p).read(); i = -1
            for _ in range(nth):
                i = s.find(old, i + 1)
                if i < 0: print(id, "NOT FOUND", f, repr(old)); return False
            s = s[:i] + new + s[i + len(old):]
            open(p, "w").write(s)
        sh("gofmt -l zygo", w)
        patch = sh("git diff", w).stdout
        if not patch.strip(): print(id, "no change"); return False
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(patch)
        open(d + "/demo.sh", "w").write(DEMO_SH); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/main.go", "w").write(demo if isinstance(demo, str) else script(demo))
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        r = sh("gofmt -l %s/main.go; bash %s/demo.sh" % (d, d), "/repo")
        if r.returncode != 0: print(id, "DEMO FAILS ON CLEAN TREE\n", r.stdout[:2000]); return False
        r = sh("bash %s/demo.sh" % d, w)
        if r.returncode == 0: print(id, "DEMO PASSES WITH THE BUG"); return False
        if "zz_demo" in r.stdout and "build" in r.stdout or r.returncode == 2: print(id, "demo rc2?", r.stdout[:600])
        demo_out = r.stdout
        # tests
        r = sh("bash /verif/tools/testin.sh %s" % w, w)
        if r.returncode != 0: print(id, "TESTS FAIL WITH THE BUG", r.stdout[-1500:]); return False
        for c in (checks or [prop]):
            e = dict(os.environ, VERIF_REPO=w)
            r = sh("./check %s --tier %s" % (c, tier), "/verif", env=e, t=3000)
            print("%s: %s %s (%s)\n   %s" % (id, c, {0: "MISSED", 1: "caught"}.get(r.returncode, "NO ANSWER"), r.stdout.strip().split("\n")[-1][:150], r.stdout[:300].replace("\n", "\n   ") if r.returncode == 1 else r.stdout[-300:]), flush=True)
        return True
    finally:
        shutil.rmtree(w, ignore_errors=True)
