#!/usr/bin/env python3
"""Builds and runs the runtime monitors of one property against /repo's working tree.

  run.py ID            quick or thorough by VERIF_TIER (default quick), seed from VERIF_SEED (default 1)
  run.py --setup       checks the toolchain
  run.py --replay FILE runs one recorded case again

Exit 0: held on everything explored. Exit 1: VIOLATION line(s). Exit 2: the check gave no answer.
"""
import concurrent.futures as cf
import hashlib, json, mmap, os, re, shutil, struct, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VH_REPO", "/repo")
CXX = "/usr/bin/clang++-18"
sys.path.insert(0, VERIF)
from checks import CHECKS, VARIANTS

BASE = ["-std=gnu++17", "-g1", "-fno-omit-frame-pointer", "-DNDEBUG", "-w", "-include", VERIF + "/harness/linux_compat.h",
        "-I", REPO + "/include", "-I", VERIF + "/harness"]
LIBS = ["-lz", "-lpthread", "-lnuma", "-luuid", "-ldl"]
MAX_RESTARTS = 25
MAX_HANGS = 3
STALL_S = 120
NPROC = os.cpu_count() or 4


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class NoAnswer(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for top in (REPO + "/include", VERIF + "/harness", VERIF + "/drivers"):
        for d, ds, fs in sorted(os.walk(top)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def file_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, "rb") as fh:
            h.update(p.encode() + b"\0" + hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def include_hash():
    ps = []
    for top in (REPO + "/include", VERIF + "/harness"):
        for d, ds, fs in os.walk(top):
            ps += [os.path.join(d, f) for f in fs]
    return file_hash(sorted(ps))


def build(driver, variant, inc_hash):
    """Compiles a driver (one or more sources) for a sanitizer variant; returns the executable."""
    srcs = [os.path.join(VERIF, "drivers", s) for s in driver["src"]]
    extra = [os.path.join(VERIF, "drivers", s) for s in driver.get("inc", [])]
    flags = BASE + VARIANTS[variant]["flags"] + driver.get("flags", [])
    key = hashlib.sha256((inc_hash + file_hash(srcs + extra) + json.dumps(flags) + json.dumps(driver.get("libs", []))).encode()).hexdigest()[:24]
    bdir = os.path.join(VERIF, "build")
    os.makedirs(bdir, exist_ok=True)
    exe = os.path.join(bdir, "%s-%s-%s" % (os.path.splitext(driver["src"][0])[0], variant, key))
    if os.path.exists(exe):
        os.utime(exe)
        return exe
    tmp = tempfile.mkdtemp(prefix="b", dir=bdir)
    try:
        def one(s):
            o = os.path.join(tmp, os.path.basename(s) + ".o")
            r = subprocess.run([CXX] + flags + ["-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode:
                raise NoAnswer("compilation of %s (%s) failed:\n%s" % (s, variant, r.stdout[-4000:]))
            return o
        with cf.ThreadPoolExecutor(NPROC) as ex:
            objs = list(ex.map(one, srcs))
        t = os.path.join(tmp, "exe")
        r = subprocess.run([CXX] + VARIANTS[variant]["flags"] + objs + ["-o", t] + driver.get("libs", []) + LIBS,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode:
            raise NoAnswer("linking of %s failed:\n%s" % (driver["src"], r.stdout[-4000:]))
        os.rename(t, exe)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


def env_for(variant, scratch):
    e = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "HOME": "/root",
         "TZ": "UTC", "VH_SCRATCH": scratch, "TMPDIR": scratch}
    e["ASAN_OPTIONS"] = ("abort_on_error=0:exitcode=86:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=1024:"
                         "hard_rss_limit_mb=4096:detect_stack_use_after_return=1:handle_abort=1:strict_memcmp=1:"
                         "alloc_dealloc_mismatch=1:new_delete_type_mismatch=1")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=86"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=86:second_deadlock_stack=1:history_size=4:suppressions=" + VERIF + "/harness/tsan.supp"
    e["LSAN_OPTIONS"] = "exitcode=86"
    e.update(VARIANTS[variant].get("env", {}))
    return e


FRAME = re.compile(r"^\s*#\d+ 0x[0-9a-f]+ (?:in )?(.*?)(?: (/\S+?:\d+)(?::\d+)?)?(?: \(.*\))?$")


def strip_templates(s):
    out, depth = [], 0
    s = s.replace("operator<<", "operator_shl").replace("operator>>", "operator_shr").replace("operator<", "operator_lt").replace("operator>", "operator_gt").replace("operator->", "operator_arrow")
    for ch in s:
        if ch == "<":
            depth += 1
        elif ch == ">":
            depth = max(0, depth - 1)
        elif not depth:
            out.append(ch)
    s = "".join(out)
    s = s.split("(")[0].strip()
    return s.split(" ")[-1]


def crash_key(text, rc):
    kind = None
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([A-Za-z0-9_-]+)", text)
    if m:
        kind = "asan-" + m.group(2)
    elif "WARNING: ThreadSanitizer:" in text:
        kind = "tsan-" + re.search(r"ThreadSanitizer: ([a-z -]+)", text).group(1).strip().replace(" ", "-")
    elif "runtime error:" in text:
        m = re.search(r"runtime error: (.*)", text)
        kind = "ubsan-" + re.sub(r"[^a-z]+", "-", re.sub(r"'[^']*'|-?\d[\w.+-]*", "", m.group(1).lower())).strip("-")[:60]
    elif "hard rss limit" in text:
        kind = "memory-limit"
    elif "terminate called" in text:
        kind = "terminate"
    else:
        kind = "exit-%s" % rc
    fn = ""
    for line in text.splitlines():
        m = FRAME.match(line)
        if m and ("/include/stdex/" in (m.group(2) or "") or m.group(1).startswith("stdex::")):
            fn = strip_templates(m.group(1))
            break
    return "crash:%s:%s" % (kind, fn)


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.viol = []          # (key, driver, variant, group, case, msg, logfile)
        self.errors = []
        self.hangs = {}         # per group and variant, over all shards
        self.frag = []
        self.lock = threading.Lock()
        self.known = known(pid)
        self.deadline = None    # set by the first violation: the answer is decided, what runs gets a little more time to add to it
        self.scratch = tempfile.mkdtemp(prefix="vh_%s_" % pid, dir="/tmp")

    def proc(self, exe, variant, args, shared, outp, wall_stall):
        """Runs one process; returns (rc, stdout, stderr, stalled)."""
        errf = tempfile.TemporaryFile(dir=self.scratch)
        outf = tempfile.TemporaryFile(dir=self.scratch)
        pre = VARIANTS[variant].get("prefix", [])
        p = subprocess.Popen(pre + [exe] + args, stdout=outf, stderr=errf, stdin=subprocess.DEVNULL, env=env_for(variant, self.scratch),
                             cwd=self.scratch, start_new_session=True)
        last, tlast, stalled = None, time.monotonic(), False
        nap = 0.01
        while True:
            try:
                p.wait(nap)
                break
            except subprocess.TimeoutExpired:
                nap = min(nap * 1.5, 0.5)
            now = time.monotonic()
            try:
                with open(shared, "rb") as f:
                    cur = f.read(24)
            except OSError:
                cur = None
            if cur != last:
                last, tlast = cur, now
            if self.late() or now - tlast > wall_stall and cur == last:
                stalled = not self.late()
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
                break
        def rd(f):
            f.seek(0, 2)
            n = f.tell()
            f.seek(0)
            b = f.read(8 << 20)
            f.close()
            return b.decode("utf-8", "replace")
        return p.returncode, rd(outf), rd(errf), stalled

    def add_viol(self, key, drv, variant, group, case, msg, detail):
        with self.lock:
            self.viol.append((key, drv, variant, group, case, msg, detail))
            if key not in self.known and self.deadline is None:
                self.deadline = time.monotonic() + (300 if self.tier == "thorough" else 60)

    def late(self):
        return self.deadline is not None and time.monotonic() > self.deadline

    def shard(self, drv, variant, exe, group, n, start, step):
        uid = "%s-%s-%s-%d" % (drv["src"][0], variant, group, start)
        shared = os.path.join(self.scratch, uid + ".sh")
        outp = os.path.join(self.scratch, uid + ".json")
        base = ["--group", group, "--seed", str(self.seed), "--shared", shared, "--out", outp] + (["--thorough"] if self.tier == "thorough" else [])
        cur, restarts, evals = start, 0, 0
        while self.hangs.get((group, variant), 0) < MAX_HANGS and not self.late():
            with open(shared, "wb") as f:
                f.write(b"\0" * 24)
            rc, out, err, stalled = self.proc(exe, variant, base + ["--from", str(cur), "--to", str(n), "--step", str(step)], shared, outp, STALL_S)
            with open(shared, "rb") as f:
                c, done, fin = struct.unpack("QQQ", f.read(24))
            for line in out.splitlines():
                if line.startswith("@@VIOL\t"):
                    _, g, key, case, msg = line.split("\t", 4)
                    self.add_viol(key, drv, variant, g, int(case), msg, "")
            if rc == 0 and fin:
                if os.path.exists(outp):
                    with open(outp) as f:
                        self.frag.append((drv["src"][0], variant, group, json.load(f)))
                    os.unlink(outp)
                break
            if rc == 2:
                raise NoAnswer("driver %s group %s: %s" % (exe, group, err[-2000:]))
            evals += done
            if self.late() and rc == -9:
                break   # Stopped here, not by the case.
            if stalled or rc == 97 or "@@HANG" in out:
                # Run the case alone once more before calling it a hang.
                self.hangs[(group, variant)] = self.hangs.get((group, variant), 0) + 1
                with open(shared, "wb") as f:
                    f.write(b"\0" * 24)
                rc2, out2, err2, st2 = self.proc(exe, variant, base + ["--only", str(c)], shared, outp, STALL_S)
                if self.late() and rc2 == -9:
                    break
                if st2 or rc2 == 97:
                    key = "%s:%s" % ("stall" if stalled else "hang", group)
                    self.add_viol(key, drv, variant, group, c, "case does not finish (%s)" % ("no progress for %d s" % STALL_S if stalled else "CPU limit"), "")
                elif rc2 not in (0,):
                    self.add_viol(crash_key(err2, rc2), drv, variant, group, c, first_line(err2), err2)
                else:
                    log("note: %s case %d was slow once, not on repetition" % (group, c))
                    for line in out2.splitlines():
                        if line.startswith("@@VIOL\t"):
                            _, g, key, case, msg = line.split("\t", 4)
                            self.add_viol(key, drv, variant, g, int(case), msg, "")
                    with open(outp) as f:
                        self.frag.append((drv["src"][0], variant, group, json.load(f)))
                    os.unlink(outp)
            elif rc == 98:
                self.hangs[(group, variant)] = self.hangs.get((group, variant), 0) + 1  # Reported by the driver's own guard.
            else:
                self.add_viol(crash_key(err, rc), drv, variant, group, c, first_line(err), err)
            restarts += 1
            cur = c + step
            if cur >= n:
                break
            if restarts > MAX_RESTARTS or self.hangs.get((group, variant), 0) >= MAX_HANGS:
                log("note: group %s stopped after %d crashes/hangs" % (group, restarts))
                break
        if restarts:
            self.frag.append((drv["src"][0], variant, group, {"group": group, "evaluations": evals, "sigs": [], "samples": [], "counters": {}, "violations": 0}))

    def run(self):
        spec = CHECKS[self.pid]
        inc = include_hash()
        jobs = []
        targets = [(d, v) for d in spec["drivers"] for v in d.get("variants", ["asan"])]
        # Two builds with the same sources wait for each other's compiler slots only.
        with cf.ThreadPoolExecutor(NPROC) as ex:
            exes = list(ex.map(lambda t: build(t[0], t[1], inc), targets))
        mins = {}
        for (d, v), exe in zip(targets, exes):
            r = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env_for(v, self.scratch))
            if r.returncode:
                raise NoAnswer("driver %s does not list its groups: %s" % (exe, r.stderr[-2000:]))
            for line in r.stdout.splitlines():
                g, q, t, m = line.split("\t")
                only = d.get("groups")
                if only and g not in only:
                    continue
                q, t, m = int(q), int(t), int(m)
                scale = VARIANTS[v].get("scale", 1.0) * d.get("scale", {}).get(v, 1.0)
                n = max(1, int((t if self.tier == "thorough" else q) * scale))
                if v == d.get("variants", ["asan"])[0]:
                    mins[(d["src"][0], g)] = m
                shards = 1 if n < 64 or d.get("mt") else min(NPROC, 1 + n // 64)
                for s in range(shards):
                    jobs.append((d, v, exe, g, n, s, shards))
        # Biggest groups first is not known in advance; single-shard groups (few, long cases) go first.
        jobs.sort(key=lambda j: j[6])
        workers = max(2, NPROC // 3) if spec.get("mt") else NPROC
        with cf.ThreadPoolExecutor(workers) as ex:
            futs = [ex.submit(self.shard, *j) for j in jobs]
            for f in futs:
                f.result()
        return mins


def first_line(text):
    for l in text.splitlines():
        if "ERROR:" in l or "runtime error:" in l or "WARNING: ThreadSanitizer" in l or "terminate called" in l or "what():" in l:
            return re.sub(r"==\d+==", "", l).strip()[:300]
    return (text.strip().splitlines() or ["no output"])[-1][:300]


def known(pid):
    ks = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                ks[m.group(2)] = m.group(3).strip()
    return ks


def main():
    if len(sys.argv) == 2 and sys.argv[1] == "--setup":
        r = subprocess.run([CXX, "--version"], stdout=subprocess.PIPE, text=True)
        if r.returncode:
            log("no compiler")
            return 2
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        print("setup ok: " + r.stdout.splitlines()[0])
        return 0
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        d = r["driver"]
        exe = build(d, r["variant"], include_hash())
        s = tempfile.mkdtemp(prefix="vh_replay_", dir="/tmp")
        try:
            return subprocess.run([exe, "--group", r["group"], "--seed", str(r["seed"]), "--only", str(r["case"])] + (["--thorough"] if r["tier"] == "thorough" else []),
                                  env=env_for(r["variant"], s), cwd=s).returncode
        finally:
            shutil.rmtree(s, ignore_errors=True)
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    run = Run(pid, tier, seed)
    try:
        try:
            mins = run.run()
        finally:
            shutil.rmtree(run.scratch, ignore_errors=True)
    except NoAnswer as e:
        log("NO ANSWER: %s" % e)
        mins = None
    ks = known(pid)
    groups, sigs, counters, samples, evals = {}, {}, {}, [], 0
    for drv, variant, g, fr in run.frag:
        evals += fr["evaluations"]
        gi = groups.setdefault("%s/%s" % (g, variant), {"evaluations": 0, "distinct": set()})
        gi["evaluations"] += fr["evaluations"]
        gi["distinct"].update(fr["sigs"])
        sigs.setdefault((drv, g), set()).update(fr["sigs"])
        for k, n in fr["counters"].items():
            counters["%s.%s" % (g, k)] = counters.get("%s.%s" % (g, k), 0) + n
        for s in fr["samples"]:
            if sum(1 for x in samples if x.startswith(g + ": ")) < 2:
                samples.append("%s: %s" % (g, s))
    new, seen_known, rep = [], {}, {}
    for v in run.viol:
        if v[0] in ks:
            seen_known[v[0]] = seen_known.get(v[0], 0) + 1
        else:
            new.append(v)
    distinct = sum(len(s) for s in sigs.values())
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": CHECKS[pid].get("level", "exploration"),
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": distinct, "rule": CHECKS[pid]["rule"], "samples": samples[:40],
            "groups": {k: {"evaluations": v["evaluations"], "distinct_nontrivial": len(v["distinct"])} for k, v in sorted(groups.items())},
            "observed": dict(sorted(counters.items())),
        },
        "assumptions": CHECKS[pid].get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    if seen_known:
        ev["coverage"]["known_findings_seen"] = seen_known
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(p + ".tmp", p)
    for k in ks:
        if k in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (pid, ks[k]))
    if new:
        rdir = os.path.join(VERIF, "replays", pid)
        os.makedirs(rdir, exist_ok=True)
        shown = {}
        for key, drv, variant, g, case, msg, detail in new:
            if key in shown:
                continue
            shown[key] = 1
            if len(shown) > 20:
                continue
            rp = os.path.join(rdir, re.sub(r"[^A-Za-z0-9_.-]+", "_", key)[:100] + ".json")
            with open(rp, "w") as f:
                json.dump({"property": pid, "key": key, "driver": drv, "variant": variant, "group": g, "case": case, "seed": seed, "tier": tier,
                           "message": msg, "log": detail[-12000:]}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            print("  key=%s group=%s variant=%s case=%s: %s" % (key, g, variant, case, msg[:1200]))
        sys.stdout.flush()
        return 1
    if mins is None:
        return 2
    for (drv, g), m in mins.items():
        got = len(sigs.get((drv, g), ()))
        if got < m:
            log("NO ANSWER: group %s of %s observed %d distinct non-trivial cases, fewer than %d" % (g, drv, got, m))
            return 2
    print("OK property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs" % (pid, tier, evals, distinct, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except NoAnswer as e:
        log("NO ANSWER: %s" % e)
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
