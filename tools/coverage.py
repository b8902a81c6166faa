#!/usr/bin/env python3
"""Line and branch coverage of /repo/include/stdex by the drivers (not used by any check): what do the workloads never execute?

  coverage.py OUTDIR [SHARE]      writes OUTDIR/HEADER.txt: '0' lines never executed, '?' lines of templates never instantiated; OUTDIR/branches.txt: conditions that went one way only
"""
import os, re, subprocess, sys, glob, json, concurrent.futures as cf
V = "/verif"
sys.path.insert(0, V)
REPO = os.environ.get("VH_REPO", "/repo")
LIBS = ["-lz", "-lcrypto", "-lnuma", "-luuid", "-lpthread"]
import checks
MORE = {d["src"][0]: d.get("libs", []) for c in checks.CHECKS.values() for d in c["drivers"]}
out = sys.argv[1]
share = float(sys.argv[2]) if len(sys.argv) > 2 else 0.1
os.makedirs(out, exist_ok=True)
jobs = []
for s in sorted(glob.glob(V + "/drivers/*.cpp")):
    b = os.path.basename(s)[:-4]
    if b in ("hash_big", "wipe_new", "serial_huge", "zlib_big"): continue
    parts = ["-DPART=%d" % i for i in (1, 2, 3)] if b == "parse_contract" else [None]
    for p in parts: jobs.append((s, b + (p[-1] if p else ""), p))


def one(j):
    s, b, p = j
    exe = "%s/%s.exe" % (out, b)
    srcs = [s] + ([V + "/drivers/wipe_new.cpp"] if b == "wipe" else [])
    r = subprocess.run(["clang++-18", "-std=gnu++17", "-g0", "-O0", "-DNDEBUG", "-w", "-include", V + "/harness/linux_compat.h", "-I", REPO + "/include", "-I", V + "/harness", "-fprofile-instr-generate", "-fcoverage-mapping"] + ([p] if p else []) + srcs + ["-o", exe] + MORE.get(os.path.basename(s), []) + LIBS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: print(b, r.stdout[-500:]); return None
    gs = [x.split("\t") for x in subprocess.run([exe, "--list"], stdout=subprocess.PIPE, text=True, env=dict(os.environ, LLVM_PROFILE_FILE="/dev/null")).stdout.splitlines()]
    for g in gs:
        d = "%s/%s_%s" % (out, b, g[0])
        os.makedirs(d, exist_ok=True)
        try:
            r = subprocess.run([exe, "--group", g[0], "--seed", "1", "--to", str(max(20, int(int(g[1]) * share)))], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           env=dict(os.environ, LLVM_PROFILE_FILE=d + ".profraw", VH_SCRATCH=d), timeout=900, cwd=d)
            if r.returncode: print(b, g[0], r.returncode, r.stdout[-300:])
        except subprocess.TimeoutExpired: print("timeout", b, g)
    subprocess.run("llvm-profdata-18 merge -o %s/%s.profdata %s/%s_*.profraw && rm -f %s/%s_*.profraw" % (out, b, out, b, out, b), shell=True)
    r = subprocess.run(["llvm-cov-18", "show", exe, "-instr-profile=%s/%s.profdata" % (out, b), "--show-instantiations=false"] + sorted(glob.glob(REPO + "/include/stdex/*.hpp")), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
    cov, cur = {}, None
    for l in r.stdout.splitlines():
        m = re.match(r"(/\S+\.hpp):$", l)
        if m: cur = cov.setdefault(os.path.basename(m.group(1)), {}); continue
        m = re.match(r"\s*(\d+)\|\s*([\d.]+[kMGTE]?)?\|", l)
        if m and cur is not None and m.group(2) is not None: cur[int(m.group(1))] = cur.get(int(m.group(1)), 0) or m.group(2) != "0"
    br = {}
    r = subprocess.run(["llvm-cov-18", "export", "-format=text", "--skip-expansions", exe, "-instr-profile=%s/%s.profdata" % (out, b)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
    for fn in json.loads(r.stdout)["data"][0]["functions"]:
        for x in fn.get("branches", []):
            f = fn["filenames"][x[6]]
            if not f.startswith(REPO): continue
            k = (os.path.basename(f), x[0], x[1], x[2], x[3])
            a = br.get(k, (0, 0))
            br[k] = (a[0] + x[4], a[1] + x[5])
    os.unlink(exe)
    return cov, br


tot, brs = {}, {}
with cf.ThreadPoolExecutor(int(os.environ.get("COV_JOBS", "6"))) as ex:
    for c in ex.map(one, jobs):
        for k, a in (c[1] if c else {}).items():
            o = brs.get(k, (0, 0))
            brs[k] = (a[0] + o[0], a[1] + o[1])
        for f, d in (c[0] if c else {}).items():
            t = tot.setdefault(f, {})
            for n, x in d.items(): t[n] = t.get(n, False) or x
sum_l = []
for h in sorted(glob.glob(REPO + "/include/stdex/*.hpp")):
    f = os.path.basename(h)
    t = tot.get(f, {})
    with open("%s/%s.txt" % (out, f), "w") as o:
        for i, l in enumerate(open(h, encoding="utf-8-sig", errors="replace"), 1):
            mark = " " if t.get(i) else "0" if i in t else "?"
            o.write("%s %5d %s" % (mark, i, l))
    n = len(t); k = sum(1 for x in t.values() if x)
    print("%-22s %5d of %5d lines executed" % (f, k, n))
with open(out + "/branches.txt", "w") as o: # Conditions that went one way only
    src = {}
    for (f, l, c, l2, c2), (t, n) in sorted(brs.items()):
        if t and n: continue
        if f not in src: src[f] = open(REPO + "/include/stdex/" + f, encoding="utf-8", errors="replace").read().split("\n")
        o.write("%s:%d %s %s\n" % (f, l, "never" if not t and not n else "always" if t else "not once", src[f][l - 1].encode()[c - 1:c2 - 1 if l2 == l else None].decode("utf-8", "replace")))
