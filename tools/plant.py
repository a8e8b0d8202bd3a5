#!/usr/bin/env python3
"""Planted bugs: plant.py new DEFS.py writes seeded/<id>/ from a list of
edits; plant.py try ID [PROPERTY...] applies one to /repo, builds, tests, runs
its demonstration and the checks, and undoes it."""
import json, os, runpy, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
# Bugs are tried on a copy of /repo, with a build folder of its own.
REPO = os.environ.get("PLANT_REPO", "/tmp/plant/repo")
BUILD = os.path.join(os.path.dirname(REPO), "build")

DEMO_SH = """#!/bin/sh
# Exits 0 if the code in the working directory does what it should.
d=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-buildvcs=false GOTOOLCHAIN=local GOPROXY=off
exec go run "$d/demo.go"
"""

# The usual demonstration: texts and what must come of them.
DEMO_GO = r"""package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"strings"

	"github.com/jchv/cleansheets/ecmascript/lexer"
	"github.com/jchv/cleansheets/ecmascript/parser"
)

// A text has to be rejected if want is empty, and otherwise accepted with a
// tree that contains want.
var cases = []struct {
	mode parser.ParseMode
	text string
	want string
}{
%s}

func run(mode parser.ParseMode, text string) (tree string, err error) {
	defer func() {
		if p := recover(); p != nil {
			tree, err = "", nil
			fmt.Println("panic:", p)
		}
	}()
	n, err := parser.NewParser(lexer.NewLexer(lexer.NewScanner(strings.NewReader(text), nil))).Parse(parser.ParseOptions{Mode: mode})
	if err != nil {
		return "", err
	}
	b := &bytes.Buffer{}
	e := json.NewEncoder(b)
	e.SetEscapeHTML(false)
	if err := e.Encode(n.ESTree()); err != nil {
		return "", err
	}
	return b.String(), nil
}

func main() {
	status := 0
	for _, c := range cases {
		tree, err := run(c.mode, c.text)
		switch {
		case c.want == "" && err != nil:
		case c.want != "" && err == nil && strings.Contains(tree, c.want):
		default:
			status = 1
			fmt.Printf("%%q: expected %%q, got %%s %%v\n", c.text, c.want, tree, err)
		}
	}
	os.Exit(status)
}
"""
MODES = {"s": "parser.ScriptMode", "m": "parser.ModuleMode", "e": "parser.ExpressionMode"}


def git(*a, **k):
    return subprocess.run(["git", "-C", REPO] + list(a), check=True, stdout=subprocess.PIPE, text=True, **k).stdout


def clean():
    if not os.path.isdir(REPO):
        os.makedirs(os.path.dirname(REPO), exist_ok=True)
        subprocess.run(["git", "clone", "-q", "/repo", REPO], check=True)
    if git("status", "--porcelain").strip():
        sys.exit(REPO + " is not clean")


def new(defs):
    clean()
    for b in runpy.run_path(defs)["BUGS"]:
        d = os.path.join(SEEDED, b["id"])
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, repl in b["edits"]:
                p = os.path.join(REPO, f)
                s = open(p).read()
                if s.count(old) != 1:
                    sys.exit("%s: %d matches in %s of %r" % (b["id"], s.count(old), f, old))
                open(p, "w").write(s.replace(old, repl))
                blame = git("blame", "-s", f)
            subprocess.run(["gofmt", "-l"] + [os.path.join(REPO, f) for f, _, _ in b["edits"]])
            open(os.path.join(d, "patch.diff"), "w").write(git("diff"))
        finally:
            git("checkout", "--", ".")
        demo = b.get("go") or DEMO_GO % "".join(
            "\t{%s, %s, %s},\n" % (MODES[m], json.dumps(t, ensure_ascii=True), json.dumps(w)) for m, t, w in b.get("cases", []))
        if "sh" in b:
            open(os.path.join(d, "demo.sh"), "w").write(b["sh"])
        else:
            open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        if b.get("go") or b.get("cases"):
            open(os.path.join(d, "demo.go"), "w").write(demo)
        for name, text in b.get("files", {}).items():
            open(os.path.join(d, name), "w").write(text)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        with open(os.path.join(d, "meta.json"), "w") as f:
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), f, indent=1)
        print("wrote", b["id"])


def attempt(i, props):
    clean()
    d = os.path.join(SEEDED, i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    run = lambda cmd, **k: subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    p = run(["sh", os.path.join(d, "demo.sh")], cwd=REPO)
    ok = p.returncode == 0
    res = ["demo on the unchanged tree: %s" % ("passes" if ok else "FAILS\n" + p.stdout)]
    git("apply", os.path.join(d, "patch.diff"))
    try:
        p = run("go build ./... && GOOS=js GOARCH=wasm go build -o /dev/null ./web/parser", shell=True, cwd=REPO)
        res.append("build: %s" % ("ok" if p.returncode == 0 else "FAILS\n" + p.stdout[-2000:]))
        p = run(["go", "test", "-vet=off", "-count=1", "./..."], cwd=REPO)
        res.append("tests: %s" % ("pass" if p.returncode == 0 else "FAIL " + p.stdout[:600]))
        p = run(["sh", os.path.join(d, "demo.sh")], cwd=REPO)
        res.append("demo with the change: %s" % ("fails (%s)" % p.stdout.strip()[:200] if p.returncode else "PASSES"))
        for prop in props or [meta["property"]]:
            t0 = time.time()
            p = run([os.path.join(VERIF, "bin/check"), prop, "quick"], cwd=VERIF, env=dict(os.environ, VERIF_REPO=REPO, VERIF_BUILD=BUILD))
            v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION property=" + prop)]
            res.append("check %s: %s (%d s) %s" % (prop, "caught" if p.returncode == 1 and v else "MISSED (%d)" % p.returncode,
                                                  time.time() - t0, "" if p.returncode == 0 else
                                                  ([l for l in p.stdout.splitlines() if l.startswith("  ") and not l.startswith(("  TLC", "  harness"))] or [p.stdout[-600:]])[0][:260]))
    finally:
        git("checkout", "--", ".")
    print(i + "\n  " + "\n  ".join(res), flush=True)


if sys.argv[1] == "new":
    new(sys.argv[2])
else:
    only = sys.argv[2:]
    ids = [x for x in only if os.path.isdir(os.path.join(SEEDED, x))] or sorted(os.listdir(SEEDED))
    for i in ids:
        attempt(i, [x for x in only if x not in ids])
