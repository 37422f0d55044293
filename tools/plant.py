#!/usr/bin/env python3
"""Makes the planted bugs under /verif/seeded from descriptions: plant.py FILE.py [id...]
FILE.py defines BUGS: list of dict(id, prop, edits=[(file, old, new)], demo=go source or dict of files, needs, breaks, demo_sh=optional)
Each is verified in a scratch copy: builds, stable tests pass, demo passes without and fails with the change."""
import sys, os, subprocess, shutil, json, runpy
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "7936274"
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds on the demonstrated input; 1: it does not
set -u
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin HOME=${HOME:-/root} GOFLAGS="-mod=readonly -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
echo "{\\"Replace\\": {\\"$PWD/zzdemo/main.go\\": \\"$here/demo.go.txt\\"}}" > "$d/overlay.json"
FLAGS timeout 120 "$d/demo"
'''
PRELUDE = '''package main

import (
	"fmt"
	"os"
IMPORTS
	"github.com/shellyln/go-open-soql-parser/soql/parser"
	"github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

func fail(f string, a ...interface{}) {
	fmt.Printf(f+"\\n", a...)
	os.Exit(1)
}

func parse(s string) *types.SoqlQuery {
	q, err := parser.Parse(s)
	if err != nil {
		fail("%q is rejected: %v", s, err)
	}
	return q
}

var _ = parse

'''
def sh(cmd, cwd=None, t=300):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout
def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    bad = 0
    for b in bugs:
        if only and b["id"] not in only: continue
        w = "/tmp/plant/repo"
        shutil.rmtree(w, ignore_errors=True)
        sh("cp -a /repo " + w)
        dest = "/tmp/plant/out/" + b["id"]
        shutil.rmtree(dest, ignore_errors=True); os.makedirs(dest)
        def err(m):
            nonlocal bad
            bad += 1
            print("BAD", b["id"], m)
        ok = True
        for f, old, new in b["edits"]:
            p = w + "/" + f
            s = open(p).read()
            if s.count(old) != 1:
                err("%d matches of %r in %s" % (s.count(old), old[:60], f)); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok: continue
        sh("gofmt -w " + " ".join(sorted({w + "/" + e[0] for e in b["edits"]})))
        _, diff = sh("git diff", w)
        open(dest + "/patch.diff", "w").write(diff)
        # all removed lines are lines of the original repository
        cur = None; n = 0
        removed = []
        for l in diff.split("\n"):
            if l.startswith("--- a/"): cur = l[6:]
            elif l.startswith("@@"): ln = int(l.split("-")[1].split(",")[0].split(" ")[0])
            elif l.startswith("-"): removed.append((cur, ln)); ln += 1
            elif l.startswith(" "): ln += 1
        before = bad
        for f, ln in removed:
            _, o = sh(f"git blame -s --abbrev=7 -L {ln},{ln} HEAD -- {f}", "/repo")
            h = o.split()[0].lstrip("^")
            rc, _ = sh(f"git merge-base --is-ancestor {h} {BASE}", "/repo")
            if rc != 0: err("line of a fix: %s:%d %s" % (f, ln, o.strip()))
        if not removed: err("no original line is changed")
        if bad > before: continue
        demo = b["demo"]
        flags = 'go build -overlay "$d/overlay.json" -o "$d/demo" ./zzdemo || exit 3\n'
        if b.get("race"): flags = flags.replace("go build", "CGO_ENABLED=1 go build -race")
        if "demo_sh" in b:
            open(dest + "/demo.sh", "w").write(b["demo_sh"])
        else:
            open(dest + "/demo.sh", "w").write(DEMO_SH.replace("FLAGS ", flags))
        os.chmod(dest + "/demo.sh", 0o755)
        if demo:
            src = demo if demo.startswith("package") else PRELUDE.replace("IMPORTS", "".join('\t"%s"\n' % i for i in b.get("imports", []))) + demo
            open(dest + "/demo.go.txt", "w").write(src)
        for k, v in b.get("files", {}).items(): open(dest + "/" + k, "w").write(v)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(dest + "/meta.json", "w"), indent=1)
        rc, o = sh("bash " + dest + "/demo.sh", "/repo")
        if rc != 0: err("demo fails on the unchanged tree: rc %d %s" % (rc, o[-600:])); continue
        rc, o = sh("bash " + dest + "/demo.sh", w)
        if rc in (0, 3): err("demo does not fail with the change: rc %d %s" % (rc, o[-600:])); continue
        msg = o.strip()[-200:].replace("\n", " ")
        rc, o = sh("cd %s && go vet ./soql/... && go build ./soql/... && GOOS=js GOARCH=wasm go build -o /dev/null ./wasm && go test -vet=off -count=1 -timeout 10m ./..." % w, t=900)
        if rc != 0: err("build or tests: " + o[-800:]); continue
        final = here + "/seeded/" + b["id"]
        shutil.rmtree(final, ignore_errors=True)
        shutil.copytree(dest, final)
        rc, o = sh("git apply --check %s/patch.diff" % final, "/repo")
        if rc != 0: err("does not apply " + o)
        print("ok ", b["id"], b["prop"], "|", msg)
    shutil.rmtree("/tmp/plant/repo", ignore_errors=True)
    sys.exit(bad > 0)
main()
