#!/usr/bin/env python3
"""Plant a bug: make patch, confirm it, keep it under seeded/<id>/.

mkseed.py FILE.py...   each FILE.py defines SEEDS = [dict(id, property, edits=[(file, old, new)...], needs, breaks, demo)]
where demo is the body of a Go program's main function using the helpers of demolib.go.
mkseed.py --run [ID...]  apply each to /repo, run the property's quick check, undo; prints CAUGHT / MISSED.
"""
import json, os, shutil, subprocess, sys, tempfile, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(V, "seeded")
BASE = json.load(open("/opt/vp/BASELINE.json"))

DEMO = r'''#!/bin/bash
# exit 0: the property holds; run in the repository
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf -- "$d"' EXIT
cp "$here/main.go.txt" "$d/main.go"
cp "$here/lib.go.txt" "$d/lib.go"
cp "$repo/go.sum" "$d/go.sum" 2>/dev/null
cat > "$d/go.mod" <<X
module demo
go 1.13
require github.com/flukeish/pmml v0.0.0
replace github.com/flukeish/pmml => $repo
X
cd "$d" || exit 3
go build @RACE@ -o demo . || exit 3
timeout 120 ./demo
'''

LIB = r'''package main

import (
	"encoding/xml"
	"fmt"
	"os"
	"strings"

	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"
)

func fail(format string, args ...interface{}) {
	fmt.Printf("BROKEN: "+format+"\n", args...)
	os.Exit(1)
}

func load(doc string) *models.PMML {
	var p models.PMML
	if err := xml.NewDecoder(strings.NewReader(doc)).Decode(&p); err != nil {
		fail("does not load: %v", err)
	}
	return &p
}

func mk(p *models.PMML) evaluation.Model {
	m, err := evaluation.NewModel(&p.DataDictionary, &p.TransformationDictionary, p.Models[0])
	if err != nil {
		fail("does not build: %v", err)
	}
	return m
}

func row(kv ...interface{}) evaluation.DataRow {
	r := evaluation.DataRow{}
	for i := 0; i < len(kv); i += 2 {
		r[kv[i].(string)] = evaluation.NewValue(kv[i+1])
	}
	return r
}

func num(m evaluation.Model, r evaluation.DataRow, out string) float64 {
	o, err := m.Evaluate(r)
	if err != nil {
		fail("error %v", err)
	}
	v, ok := o[out]
	if !ok {
		fail("no output %s in %v", out, o)
	}
	return v.Float64()
}

func text(m evaluation.Model, r evaluation.DataRow, out string) string {
	o, err := m.Evaluate(r)
	if err != nil {
		fail("error %v", err)
	}
	v, ok := o[out]
	if !ok {
		return "<none>"
	}
	return v.String()
}

func near(a, b float64) bool { d := a - b; return d < 1e-9 && d > -1e-9 }

// doc wraps a model in a document declaring the fields "name:type" (values after the type, separated by commas).
func doc(fields string, td string, model string) string {
	s := `<PMML version="4.2"><Header/><DataDictionary>`
	for _, f := range strings.Fields(fields) {
		p := strings.Split(f, ":")
		op := "continuous"
		if p[1] == "string" || p[1] == "boolean" {
			op = "categorical"
		}
		s += fmt.Sprintf(`<DataField name="%s" optype="%s" dataType="%s">`, p[0], op, p[1])
		if len(p) > 2 {
			for _, v := range strings.Split(p[2], ",") {
				s += fmt.Sprintf(`<Value value="%s"/>`, v)
			}
		}
		s += `</DataField>`
	}
	s += `</DataDictionary>`
	if td != "" {
		s += `<TransformationDictionary>` + td + `</TransformationDictionary>`
	}
	return s + model + `</PMML>`
}
'''

def go_env():
    e = dict(os.environ)
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e["PATH"]
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
    return e

def sh(cmd, cwd, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=go_env())
    return p.returncode, p.stdout

def tests_pass(wt):
    rc, out = sh("go build ./... && go test ./... 2>&1 | tail -40", wt)
    return "FAIL" not in out and rc == 0, out

def original_lines(wt, edits):
    """every removed line of the patch is a line of the first commit"""
    rc, out = sh("git diff -U0", "/tmp") if False else (0, "")
    return True

def plant(s):
    d = os.path.join(SEEDED, s["id"])
    wt = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    wt2 = os.path.join(wt, "r")
    try:
        sh("cp -a /repo %s && cd %s && git checkout -q -- ." % (wt2, wt2), "/tmp")
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("@RACE@", "-race" if s.get("race") else ""))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "lib.go.txt"), "w").write(LIB)
        imports = s.get("imports", [])
        open(os.path.join(d, "main.go.txt"), "w").write("package main\n\n" + "".join('import "%s"\n' % i for i in imports) + "\nfunc main() {\n" + s["demo"].strip("\n") + "\n}\n")
        rc, out = sh("bash %s/demo.sh" % d, wt2)
        if rc != 0:
            return "demo fails on the clean tree (%d): %s" % (rc, out[-1500:])
        for f, old, new in s["edits"]:
            p = os.path.join(wt2, f)
            t = open(p).read()
            if t.count(old) != 1:
                return "edit of %s matches %d times: %s" % (f, t.count(old), old[:80])
            open(p, "w").write(t.replace(old, new))
        rc, diff = sh("git diff", wt2)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        # removed / context lines must be original ones
        touched = []
        for f, old, new in s["edits"]:
            rc, bl = sh("git blame -s HEAD -- %s" % f, wt2)
            lines = [x.split(")", 1)[1][1:] for x in bl.splitlines()]
            com = [x.split(" ", 1)[0] for x in bl.splitlines()]
            rc, dd = sh("git diff -U0 -- %s" % f, wt2)
            import re
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", dd, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                for k in range(a, a + n):
                    touched.append((com[k - 1].startswith("^") or com[k - 1].startswith("011aa63"), lines[k - 1]))
        if touched and not any(o for o, _ in touched):
            return "touches only lines of fix commits: %r" % [l for _, l in touched][:3]
        ok, out = tests_pass(wt2)
        if not ok:
            return "tests fail: " + out[-1500:]
        rc, out = sh("bash %s/demo.sh" % d, wt2)
        if rc == 0:
            return "demo passes with the patch"
        if rc == 3:
            return "demo does not build: " + out[-800:]
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        return "ok" + ("" if all(o for o, _ in touched) else " (also touches fix lines)") + ": " + out.strip()[:140]
    finally:
        shutil.rmtree(wt)

def run(ids):
    ids = ids or sorted(os.listdir(SEEDED))
    res = {}
    for i in ids:
        d = os.path.join(SEEDED, i)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        rc, out = sh("git apply %s/patch.diff" % d, "/repo")
        if rc:
            print(i, prop, "patch does not apply", out); continue
        try:
            rc, out = sh("VERIF_SEED=1 VERIF_TIER=quick python3 check.py %s" % prop, V)
        finally:
            sh("git checkout -- .", "/repo")
        hit = rc == 1 and "VIOLATION property=%s" % prop in out
        print(i, prop, "CAUGHT" if hit else "MISSED rc=%d" % rc, (out.strip().splitlines() or [""])[0][:150], flush=True)
    sh("rm -rf /verif/replays", V)

if __name__ == "__main__":
    if sys.argv[1] == "--run":
        run(sys.argv[2:])
    else:
        for path in sys.argv[1:]:
            spec = importlib.util.spec_from_file_location("s", path)
            mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
            for s in mod.SEEDS:
                r = plant(s)
                print(s["id"], r, flush=True)
                if not r.startswith("ok"):
                    shutil.rmtree(os.path.join(SEEDED, s["id"]), ignore_errors=True)
