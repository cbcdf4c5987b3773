#!/usr/bin/env python3
"""plant.py SPEC.py...: plants the bugs of the specs and keeps the valid ones.

A spec defines BUGS, a list of dicts: id, property, needs, breaks, edits
[(file, old, new)...] and demo (the body of func main of a Go program that
calls fail(...) when the property doesn't hold)."""
import json, os, shutil, subprocess, sys, tempfile
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off",
  GOFLAGS="-mod=mod", GOWORK="off", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])
SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
LIB = '''package main

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

var _ = strings.Contains
var _ nm.Config

func fail(format string, args ...any) {
	fmt.Printf("FAILED: "+format+"\\n", args...)
	os.Exit(1)
}

// get serves a request and returns the recorded response.
func get(h http.Handler, method, url string) *httptest.ResponseRecorder {
	w := httptest.NewRecorder()
	h.ServeHTTP(w, httptest.NewRequest(method, url, nil))
	return w
}

// say returns a handler that answers with the text.
func say(text string) nm.Handler {
	return func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
		fmt.Fprint(w, text)
		return true
	}
}

// want serves a request and checks the answer's code and body.
func want(h http.Handler, method, url string, code int, body string) {
	w := get(h, method, url)
	if w.Code != code || body != "" && strings.TrimSpace(w.Body.String()) != body {
		fail("%s %s: %d %q %v, expected %d %q", method, url, w.Code, w.Body, w.Header(), code, body)
	}
}

// wantLoc checks the answer's code and location.
func wantLoc(h http.Handler, method, url string, code int, loc string) {
	w := get(h, method, url)
	if w.Code != code || w.Header().Get("Location") != loc {
		fail("%s %s: %d %v, expected %d %q", method, url, w.Code, w.Header(), code, loc)
	}
}

// panics tells whether the function panics.
func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}
'''
SH = '''#!/bin/bash
# Exits with 0 if the property holds for nanomux in the working directory.
dir=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$dir/lib.go.txt" "$tmp/lib.go"
cp "$dir/main.go.txt" "$tmp/main.go"
cat > "$tmp/go.mod" <<E
module demo

go 1.18

require github.com/shohruhadham/nanomux v0.0.0

replace github.com/shohruhadham/nanomux => $repo
E
cd "$tmp" && go build RACE -o demo . && timeout 120 ./demo
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **k)
def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return set(b.get("stable_pass") or b.get("stable") or b.get("passed"))
def tests(repo):
    d = tempfile.mkdtemp()
    with open(d + "/nanomux.log", "w") as f:
        subprocess.run(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "5m", "./..."],
          cwd=repo, env=ENV, stdout=f, stderr=subprocess.DEVNULL)
    subprocess.run(["python3", "/opt/vp/results.py", d + "/o.json", "gojson:" + d + "/nanomux.log"], capture_output=True)
    o = json.load(open(d + "/o.json"))
    shutil.rmtree(d)
    return stable() - set(o.get("passed"))
def plant(b):
    d = os.path.join(SEEDED, b["id"])
    w = tempfile.mkdtemp(prefix="plant-")
    repo = w + "/repo"
    try:
        sh(["git", "clone", "-q", os.environ.get("REPO", "/repo"), repo], "/")
        base = sh(["git", "blame", "-s", "HEAD"], repo)
        for f, old, new in b["edits"]:
            s = open(f"{repo}/{f}").read()
            if s.count(old) != 1:
                return f"the text occurs {s.count(old)} times in {f}: {old[:60]!r}"
            open(f"{repo}/{f}", "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], repo).stdout
        # Changed lines must be the original repository's.
        first = sh(["git", "rev-list", "--max-parents=0", "HEAD"], repo).stdout.strip()
        import re
        orig = tot = 0
        for f in {e[0] for e in b["edits"]}:
            bl = sh(["git", "blame", "-s", "-l", "HEAD", "--", f], repo).stdout.splitlines()
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))?", sh(["git", "diff", "-U0", "--", f], repo).stdout, re.M):
                a, n = int(m[1]), int(m[2] or 1)
                for i in range(a, a + n):
                    tot += 1
                    orig += bl[i-1].lstrip("^")[:30] == first[:30]
                if n == 0:
                    tot += 1; orig += 1
        if orig == 0:
            return "only lines of the fix commits are changed"
        note = "" if orig == tot else f" ({orig} of {tot} changed lines are original)"
        r = sh(["go", "build", "./..."], repo)
        if r.returncode: return "doesn't build: " + r.stderr[:500]
        miss = tests(repo)
        if miss: return f"stable tests fail: {sorted(miss)[:4]}"
        t = w + "/demo"; os.mkdir(t)
        open(t + "/lib.go.txt", "w").write(LIB)
        open(t + "/main.go.txt", "w").write(b["demo"].lstrip("\n"))
        open(t + "/demo.sh", "w").write(SH.replace("RACE ", "-race " if b.get("race") else ""))
        r = sh(["bash", t + "/demo.sh"], "/repo")
        if r.returncode: return "the demo fails on the unchanged tree: " + (r.stdout + r.stderr)[:1500]
        r = sh(["bash", t + "/demo.sh"], repo)
        if r.returncode == 0: return "the demo doesn't fail with the patch"
        if "FAILED" not in r.stdout and not b.get("race"): return "the demo fails otherwise: " + (r.stdout + r.stderr)[:600]
        if os.path.exists(d): shutil.rmtree(d)
        os.makedirs(d)
        for f in os.listdir(t):
            if f != "demo": shutil.copy(t + "/" + f, d)
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
          open(d + "/meta.json", "w"), indent=1)
        return "planted" + note + ": " + r.stdout.strip()[:160]
    finally:
        shutil.rmtree(w)
only = [a for a in sys.argv[1:] if not a.endswith(".py")]
for spec in sys.argv[1:]:
    if spec.endswith(".py"):
        g = {}
        exec(open(spec).read(), g)
        for b in g["BUGS"]:
            if not only or b["id"] in only:
                print(b["id"], plant(b), flush=True)
