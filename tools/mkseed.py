#!/usr/bin/env python3
"""mkseed.py <definitions.py> [id...]: plant each change in /repo, confirm it (builds, tests pass, demo fails with it and
passes without), write /verif/seeded/<id>/, and undo it."""
import json, os, subprocess, sys, runpy
R, S = "/repo", "/verif/seeded"
DEMO = r'''#!/bin/bash
# run with cwd = the repository, after its build
here=$(cd "$(dirname "$0")" && pwd); R=$PWD; d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
B=$R/_build/src
g++ -std=c++0x -include cstdint -w -g -I$R/src -I$R/_build -I$R/third_party/common/crc32 -I$R/third_party/crawler/googleurl/src -I/usr/include/libxml2 "$here/demo.cpp" \
    -Wl,--start-group $(ls $B/mws/*/*.a $B/common/*/*.a $B/crawler/*/*.a) $R/_build/third_party/common/crc32/libcrc32.a $R/_build/third_party/crawler/googleurl/libgoogleurl.a -Wl,--end-group \
    -lxml2 -lleveldb -ljson-c -lmicrohttpd LIBS -lpthread -o $d/demo || exit 2
cd $d && timeout 100 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def build(): return sh("bash /opt/vp/build.sh").returncode == 0
def tests():
    sh("bash /opt/vp/test.sh /tmp/seedwork/o.json")
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    o = open("/tmp/seedwork/o.json").read()
    d = json.loads(o)
    p = d.get("passed", d)
    return [t for t in base if not (t in p if isinstance(p, list) else p.get(t) in (True, "pass", "passed"))]
g = runpy.run_path(sys.argv[1])
want = sys.argv[2:]
assert sh("git -C /repo status --porcelain").stdout == "", "dirty /repo"
for s in g["SEEDS"]:
    if want and s["id"] not in want: continue
    d = S + "/" + s["id"]; os.makedirs(d, exist_ok=True)
    open(d + "/demo.sh", "w").write(s.get("demo_sh") or DEMO.replace("LIBS", s.get("libs", "")))
    if "demo" in s: open(d + "/demo.cpp", "w").write(s["demo"])
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    build()
    a = sh("bash %s/demo.sh" % d, cwd=R)
    ok = a.returncode == 0
    msg = "" if ok else "clean demo rc %d: %s" % (a.returncode, a.stdout[-800:])
    try:
        for f, old, new in s["edits"]:
            t = open(R + "/" + f).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old))
            open(R + "/" + f, "w").write(t.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        if not build(): ok = False; msg += " does not build"
        else:
            bad = tests()
            if bad: ok = False; msg += " tests fail: %s" % bad
            b = sh("bash %s/demo.sh" % d, cwd=R)
            if b.returncode in (0, 2): ok = False; msg += " demo passes with the patch (%d) %s" % (b.returncode, b.stdout[-300:])
    finally:
        sh("git -C /repo checkout -- .")
    print(s["id"], "OK" if ok else "BAD", msg, flush=True)
build()
