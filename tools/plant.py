#!/usr/bin/env python3
"""plant.py SPEC.py [id ...]: plants bugs from a spec, validates, writes /verif/seeded/<id>/"""
import sys, os, json, subprocess, shutil, re, concurrent.futures as cf
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:"+os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
STABLE = None
PRE = '''package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"strings"
%s
	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/lint"
	"github.com/schemalex/schemalex/model"
)

var _ = bytes.NewReader
var _ = context.Background
var _ = strings.ToUpper
var _ = lint.New
var _ = format.SQL
var _ = diff.Strings
var _ model.Stmts

func check(ok bool, f string, a ...interface{}) {
	if !ok {
		fmt.Printf("FAIL: "+f+"\\n", a...)
		os.Exit(1)
	}
}

func parse(s string) model.Stmts {
	st, err := schemalex.New().ParseString(s)
	check(err == nil, "%%q is rejected: %%v", s, err)
	return st
}

func table(s string) model.Table { return parse(s)[0].(model.Table) }

func col(s string) model.TableColumn {
	c, ok := <-table("CREATE TABLE t (" + s + ")").Columns()
	check(ok, "no column")
	return c
}

func index(s string) model.Index {
	x, ok := <-table("CREATE TABLE t (a INT, b INT, " + s + ")").Indexes()
	check(ok, "no index")
	return x
}

func rejected(s string) {
	_, err := schemalex.New().ParseString(s)
	check(err != nil, "%%q is accepted", s)
}

func sql(v interface{}) string {
	var buf bytes.Buffer
	check(format.SQL(&buf, v) == nil, "format failed")
	return buf.String()
}

func migrate(from, to string) string {
	var buf bytes.Buffer
	err := diff.Strings(&buf, from, to)
	check(err == nil, "diff failed: %%v", err)
	return buf.String()
}

func lints(s string, indent string, n int) string {
	var buf bytes.Buffer
	err := lint.New().Run(context.Background(), schemalex.NewReaderSource(strings.NewReader(s)), &buf, lint.WithIndent(indent, n))
	check(err == nil, "lint failed: %%v", err)
	return buf.String()
}

'''
DEMO_SH = '''#!/bin/bash
# runs demo.go against the repository in the working directory
here=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
exec go run "$here/demo.go"
'''
bugs = []
def bug(id, prop, edits, demo, needs, what, imports=""):
    bugs.append((id, prop, edits, demo, needs, what, imports))
def run(cmd, cwd, timeout=300):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 99, "timeout"
def fixlines(f):
    out = subprocess.run(["git","-C","/repo","blame","-s","--",f],stdout=subprocess.PIPE).stdout.decode(errors="replace").splitlines()
    return [not (l.startswith("^b04bd6b") or l.startswith("b04bd6b")) for l in out]
def one(b):
    id, prop, edits, demo, needs, what, imports = b
    w = "/tmp/seedwork/"+id
    if os.path.exists(w): shutil.rmtree(w)
    os.makedirs(w)
    subprocess.check_call(["cp","-a","/repo",w+"/repo"])
    r = w+"/repo"
    orig = True
    for f, old, new in edits:
        p = r+"/"+f; s = open(p).read()
        if s.count(old) != 1: return id, "EDIT %s: %d matches of %r" % (f, s.count(old), old[:60])
        open(p,"w").write(s.replace(old,new))
    patch = subprocess.check_output(["git","-C",r,"diff"]).decode()
    # which removed lines are mine?
    for f in set(e[0] for e in edits):
        d = subprocess.check_output(["git","-C",r,"diff","-U0","--",f]).decode()
        mine = fixlines(f); n_orig = 0; n_mine = 0; pure_add=0
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
            a = int(m.group(1)); c = int(m.group(2) or 1)
            if c == 0: pure_add += 1
            for i in range(a, a+c):
                if mine[i-1]: n_mine += 1
                else: n_orig += 1
        if n_mine: orig = False
    rc, o = run(["go","build","./..."], r)
    if rc: return id, "BUILD "+o
    sd = "/tmp/seedwork/"+id+"/seed"; os.makedirs(sd)
    open(sd+"/demo.go","w").write(PRE % "".join('\t"%s"\n' % i for i in imports.split()) + demo)
    open(sd+"/demo.sh","w").write(DEMO_SH); os.chmod(sd+"/demo.sh",0o755)
    run(["gofmt","-w",sd+"/demo.go"], sd)
    rc, o = run(["bash",sd+"/demo.sh"], "/repo")
    if rc: return id, "DEMO fails on clean: "+o[-600:]
    rc, o2 = run(["bash",sd+"/demo.sh"], r)
    if rc == 0: return id, "DEMO passes on patched"
    # tests
    rc, o = run(["go","test","-json","-vet=off","-count=1","-timeout","5m","./..."], r)
    failed = set(); passed=set()
    for l in o.splitlines():
        try: e = json.loads(l)
        except Exception: continue
        if e.get("Test"):
            if e["Action"]=="fail": failed.add(e["Test"])
            if e["Action"]=="pass": passed.add(e["Test"])
    base = CLEANFAIL
    bad = sorted(f for f in failed if f not in base)
    if bad: return id, "TESTS fail: "+", ".join(bad[:4])
    dst = "/verif/seeded/"+id
    if os.path.exists(dst): shutil.rmtree(dst)
    shutil.copytree(sd, dst)
    open(dst+"/patch.diff","w").write(patch)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":what}, open(dst+"/meta.json","w"), indent=1)
    shutil.rmtree(w)
    return id, "ok%s demo: %s" % ("" if orig else " (TOUCHES FIX LINES)", o2.strip().splitlines()[0][:150] if o2.strip() else "")
if __name__ == "__main__":
    spec = sys.argv[1]; only = sys.argv[2:]
    exec(open(spec).read())
    rc, o = run(["go","test","-json","-vet=off","-count=1","./..."], "/repo")
    CLEANFAIL = set()
    for l in o.splitlines():
        try: e = json.loads(l)
        except Exception: continue
        if e.get("Test") and e["Action"]=="fail": CLEANFAIL.add(e["Test"])
    print("clean failures:", CLEANFAIL)
    todo = [b for b in bugs if not only or b[0] in only]
    with cf.ThreadPoolExecutor(6) as ex:
        for r in ex.map(one, todo): print(*r, flush=True)
