#!/usr/bin/env python3
"""Writes seeded/<id>/ (patch.diff, demo.sh, demo.cc, meta.json) from the table
in tools/seeds/*.py: S(id, prop, edits=[(file, old, new)...], demo, needs, breaks)."""
import json, os, subprocess, sys, tempfile, glob, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# exit 0: the property held; anything else: it did not
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demoXXXXXX)
trap 'rm -rf "$d"' EXIT
g++ -std=c++17 -fno-rtti -w -g -O0 %(flags)s -Isrc "$here/demo.cc" %(srcs)s -o "$d/demo" -lpthread || exit 99
cd "$d" && timeout 120 ./demo
"""
HEAD = """#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#define MUST(c) do { if (!(c)) { fprintf(stderr, "FAILED: %s (line %d)\\n", #c, __LINE__); std::_Exit(1); } } while (0)
"""
ASYNC = "address awaitable channel context flag pipe wait mutex future executor errors registry dynamic_base_class io_adapters string_adapters"
NET = ASYNC + " connection socket address_resolver file"
CORE = "errors io_adapters string_adapters registry dynamic_base_class"
def A(id, prop, edits, demo, needs, breaks, srcs=ASYNC, flags=""):
    S(id, prop, edits, demo, needs, breaks, srcs, '-I"$here" ' + flags)
    o = os.path.join(V, "seeded", id)
    if os.path.isdir(o):
        os.makedirs(o + "/function2", exist_ok=True)
        shutil.copy(V + "/stubs/function2/function2.hpp", o + "/function2/")
def S(id, prop, edits, demo, needs, breaks, srcs=CORE, flags=""):
    if len(sys.argv) > 1 and not any(id.startswith(a) for a in sys.argv[1:]): return
    d = tempfile.mkdtemp(dir="/tmp")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", d + "/w", "HEAD"])
    try:
        for f, old, new in edits:
            p = d + "/w/src/arpc/" + f; s = open(p).read()
            n = s.count(old)
            if n != 1: print(id, "EDIT MATCHES %d TIMES in %s: %r" % (n, f, old)); return
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", d + "/w", "diff"]).decode()
        base = {}
        for l in diff.splitlines():
            if l.startswith("--- a/"): cur = l[6:]
            elif l.startswith("-") and not l.startswith("---"):
                b = base.setdefault(cur, subprocess.check_output(["git", "-C", "/repo", "show", "361cc02:" + cur]).decode().splitlines())
                if l[1:] not in b: print(id, "WARNING: not an original line:", l)
        o = os.path.join(V, "seeded", id); os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff)
        open(o + "/demo.cc", "w").write(HEAD + demo.strip() + "\n")
        open(o + "/demo.sh", "w").write(DEMO % dict(flags=flags, srcs=" ".join("src/arpc/%s.cpp" % s for s in srcs.split())))
        os.chmod(o + "/demo.sh", 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + "/meta.json", "w"), indent=1)
        print(id, "written")
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", d + "/w"]); shutil.rmtree(d)
for f in sorted(glob.glob(V + "/tools/seeds/*.py")): exec(open(f).read())
