#!/usr/bin/env python3
"""Authoring and verifying planted bugs (not used by any check).

  plant.py verify ID...   applies each to /repo, builds, tests, runs demo and check, undoes
In Python: plant.new(id, prop, edits=[(file, old, new)], needs=..., breaks=..., demo=C++ source, flags=...)
"""
import json, os, re, subprocess, sys, tempfile

V = "/verif"
R = os.environ.get("PLANT_REPO", "/repo")     # May be a clone, with a copy of /opt/vp that builds it
VP = os.environ.get("PLANT_VP", "/opt/vp")
TMP = "/tmp/plant_test_%d.json" % os.getpid()
SH = '''#!/bin/bash
# Exit 0: behaves as the property says. Run with cwd /repo.
set -u
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
clang++-18 -std=gnu++17 -g -O1 %(flags)s -DNDEBUG -w -include "$here/compat_demo.h" -I "$PWD/include" "$here/demo.cpp" -o "$t/demo" %(libs)s || exit 3
cd "$t" || exit 3
timeout %(timeout)d ./demo
rc=$?
echo "demo: exit $rc"
exit $rc
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


PRE = """#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <thread>
#include <atomic>
#include <chrono>
#include <memory>
#define CHECK(x) do { if (!(x)) { printf("FAILED line %d: %s\\n", __LINE__, #x); fflush(stdout); _exit(1); } } while (0)
#include <unistd.h>
"""


def clean():
    r = sh("git -C %s status --porcelain --untracked-files=no" % R)
    assert not r.stdout.strip(), r.stdout


def new(id, prop, edits, needs, breaks, demo, flags="-fsanitize=address,undefined -fno-sanitize=alignment,nonnull-attribute,vptr -fno-sanitize-recover=all", libs="-lz -lpthread -lnuma -luuid", timeout=60):
    clean()
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, nw, *anchor in edits: # With an anchor: the first occurrence behind it
            p = os.path.join(R, "include/stdex", f)
            s = open(p, "rb").read()
            o, n = old.encode(), nw.encode()
            if anchor:
                a = s.index(anchor[0].encode())
                a = s.index(o, a)
                open(p, "wb").write(s[:a] + n + s[a + len(o):])
                continue
            assert s.count(o) == 1, "%s: %d occurrences of %r" % (f, s.count(o), old)
            open(p, "wb").write(s.replace(o, n))
        r = subprocess.run(["git", "-C", R, "diff"], stdout=subprocess.PIPE)
        open(os.path.join(d, "patch.diff"), "wb").write(r.stdout)
    finally:
        sh("git -C %s checkout -- ." % R)
    open(os.path.join(d, "demo.cpp"), "w").write(PRE + demo)
    open(os.path.join(d, "demo.sh"), "w").write(SH % dict(flags=flags, libs=libs, timeout=timeout))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "compat_demo.h"), "w").write(open(V + "/harness/linux_compat.h").read())
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    return verify(id)


def verify(id, check=True):
    clean()
    d = os.path.join(V, "seeded", id)
    meta = json.load(open(d + "/meta.json"))
    res = {}
    env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", **({} if R == "/repo" else {"VH_REPO": R}))
    res["demo_clean"] = sh("bash %s/demo.sh" % d, cwd=R)
    try:
        r = sh("git -C %s apply %s/patch.diff" % (R, d))
        assert r.returncode == 0, r.stdout
        t = sh("bash %s/test.sh %s" % (VP, TMP))
        j = json.load(open(TMP))
        base = json.load(open(VP + "/BASELINE.json"))["stable"]
        lost = [x for x in base if x not in j["passed"]]
        res["demo_bug"] = sh("bash %s/demo.sh" % d, cwd=R)
        chk = sh("python3 run.py " + meta["property"], cwd=V, env=env) if check else None
    finally:
        sh("git -C %s checkout -- ." % R)
    orig = [l[1:].strip() for l in open(d + "/patch.diff", errors="replace") if l.startswith("-") and not l.startswith("---")]
    base = sh("git -C %s show 89eefdc:include/stdex/%s" % (R, re.search(r"b/include/stdex/(\S+)", open(d + "/patch.diff", errors="replace").read()).group(1))).stdout
    if not any(l and l in base for l in orig):
        print(id, "removes no line of the original"); lost = lost + ["(no original line)"]
    ok = res["demo_clean"].returncode == 0 and res["demo_bug"].returncode not in (0, 3) and not lost
    caught = chk is not None and chk.returncode == 1 and ("VIOLATION property=" + meta["property"]) in chk.stdout
    print("%s %s: %s%s; demo clean=%d bug=%d lost tests=%s" % (id, meta["property"], "COUNTS" if ok else "INVALID", " CAUGHT" if caught else " MISSED", res["demo_clean"].returncode, res["demo_bug"].returncode, lost))
    if not ok:
        print(" clean:", res["demo_clean"].stdout[-1500:], "\n bug:", res["demo_bug"].stdout[-1500:], "\n", t.stdout[-800:] if lost else "")
    if chk is not None:
        print("   ", "\n    ".join(l[:260] for l in chk.stdout.splitlines() if not l.startswith("note"))[:1500])
    sys.stdout.flush()
    return ok and caught


if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
    bad = [i for i in ids if not verify(i)]
    print("not caught or invalid:", bad)
