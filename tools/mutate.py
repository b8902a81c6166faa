#!/usr/bin/env python3
"""Mutation sampling (not used by any check): which small changes of a header do a property's drivers not notice?

  mutate.py FILE FROM-TO DRIVER[,DRIVER...] COUNT [SEED]     e.g. parser.hpp 1273-1460 parse_numbers.cpp,parse_contract.cpp 60

Each mutant is compiled with the drivers (ASan/UBSan build) and every group runs a share of its quick cases until
something is reported. Survivors are printed as diffs; most are equivalent or outside the properties, the rest are holes.
"""
import os, random, re, shutil, subprocess, sys, tempfile, concurrent.futures as cf
V = "/verif"
sys.path.insert(0, V)
import checks
REPO = os.environ.get("VH_REPO", "/repo")
LIBS = ["-lz", "-lcrypto", "-lnuma", "-luuid", "-lpthread"]
SHARE = float(os.environ.get("MUT_SHARE", "0.34"))
VARIANT = os.environ.get("MUT_VARIANT", "asan_null")
NP = int(os.environ.get("MUT_JOBS", "7"))


def strip(lines):
    """Code only, same line numbers."""
    out, block, skip = [], False, []
    for l in lines:
        s = l
        if re.match(r"\s*#\s*if", s):
            skip.append(bool(re.match(r"\s*#\s*if(def)?\s+(defined\()?(_WIN32|_MSC_VER|__APPLE__|_WIN64|_UNICODE)|\s*#\s*if BYTE_ORDER == BIG|\s*#\s*ifndef NDEBUG", s)))
            if re.match(r"\s*#\s*ifndef\s+_WIN32", s): skip[-1] = False
            out.append(""); continue
        if re.match(r"\s*#\s*(else|elif)", s) and skip:
            skip[-1] = not skip[-1]; out.append(""); continue
        if re.match(r"\s*#\s*endif", s) and skip:
            skip.pop(); out.append(""); continue
        if any(skip) or re.match(r"\s*(#|//|\*|/\*|stdex_assert|_Unreferenced_|template|using|class|struct|public:|protected:)", s): out.append(""); continue
        s = re.sub(r"//.*", "", s)
        out.append(s)
    return out


OPS = [
    (r"(?<![<>=\-])<(?![<=])(?=\s)", "<="), (r"<=", "<"), (r"(?<![>\-<])>(?![>=])(?=\s)", ">="), (r">=(?!=)", ">"), (r"==", "!="), (r"!=", "=="),
    (r"&&", "||"), (r"\|\|", "&&"), (r"\s\+\s", " - "), (r"\s-\s", " + "), (r"\s\+ 1\b", ""), (r"\s- 1\b", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\+=", "-="), (r"-=", "+="), (r"(?<![\w.'\\])(\d+)(?![\w.'x])", lambda m: str(int(m.group(1)) + 1)), (r"(?<![\w.'\\])([1-9]\d*)(?![\w.'x])", lambda m: str(int(m.group(1)) - 1)),
    (r"\bif \((?!.*;)", "if (!("), (r"std::min<", "std::max<"), (r"std::min\(", "std::max("), (r"'([A-Za-z0-9.,:;/@+\-=])'", lambda m: "'%s'" % chr(ord(m.group(1)) + 1)),
    (r"state_t::ok\b", "state_t::eof"), (r"state_t::eof\b", "state_t::fail"), (r"state_t::fail\b", "state_t::ok"), (r"->invalidate\(\)", "->interval"),
]


def mutants(lines, lo, hi):
    code = strip(lines)
    res = []
    for i in range(lo - 1, min(hi, len(code))):
        c = code[i]
        if not c.strip() or re.match(r"\s*(_In_|_Out_|_Inout_|virtual|inline|constexpr|typedef|case .*:$|typename)", c): continue
        for rx, rep in OPS:
            for m in re.finditer(rx, c):
                if rx.startswith(r"\bif "):
                    # Negate a whole one-line condition.
                    mm = re.match(r"(.*\bif \()(.*)(\)\s*(?:_Unlikely_|_Likely_)?\s*\{?.*)$", c)
                    if not mm or mm.group(2).count("(") != mm.group(2).count(")"): continue
                    n = mm.group(1) + "!(" + mm.group(2) + ")" + mm.group(3)
                else:
                    n = c[:m.start()] + (rep(m) if callable(rep) else rep) + c[m.end():]
                if n != c: res.append((i, n))
        if re.match(r"\s*[A-Za-z_*(][^(){}]*(=|\+\+|--|\().*;\s*$", c) and not re.match(r"\s*(return|throw|break|continue|auto|const|size_t|uint\w+|int\w*|std::\w+<.*>\s+\w|T\s|bool\s|char\s|fsize_t|fpos_t|for|else|if|while|constexpr|static)", c):
            res.append((i, re.match(r"\s*", c).group(0) + ";"))
        if re.match(r"\s*(break|continue);\s*$", c): res.append((i, ";"))
        if re.match(r"\s*return true;", c): pass
    return sorted(set(res))


def main():
    f, rng, drv, count = sys.argv[1], sys.argv[2], sys.argv[3].split(","), int(sys.argv[4])
    seed = int(sys.argv[5]) if len(sys.argv) > 5 else 1
    lo, hi = (int(x) for x in rng.split("-"))
    path = os.path.join(REPO, "include/stdex", f)
    lines = open(path, encoding="utf-8").read().split("\n")
    ms = mutants(lines, lo, hi)
    random.Random(seed).shuffle(ms)
    ms = ms[:count]
    print("%s %s: %d mutants" % (f, rng, len(ms)), flush=True)
    stat = {"killed": 0, "survived": 0, "invalid": 0}

    def one(m):
        i, n = m
        d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
        try:
            shutil.copytree(os.path.join(REPO, "include"), d + "/include")
            l2 = list(lines)
            l2[i] = n
            open(d + "/include/stdex/" + f, "w", encoding="utf-8").write("\n".join(l2))
            for s in drv:
                variant = VARIANT
                exe = d + "/" + s + ".exe"
                v = checks.VARIANTS[variant]
                r = subprocess.run(["clang++-18", "-std=gnu++17", "-g0", "-fno-omit-frame-pointer", "-DNDEBUG", "-w", "-include", V + "/harness/linux_compat.h", "-I", d + "/include", "-I", V + "/harness"] + v["flags"] + [V + "/drivers/" + s, "-o", exe] + LIBS,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode: return "invalid", ""
                env = dict(os.environ, ASAN_OPTIONS="exitcode=86:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=1024:hard_rss_limit_mb=3000:handle_abort=1", VH_SCRATCH=d)
                env.update({k: x for k, x in v.get("env", {}).items() if k != "ASAN_OPTIONS"})
                gs = [x.split("\t") for x in subprocess.run([exe, "--list"], stdout=subprocess.PIPE, text=True, env=env).stdout.splitlines()]
                for g in gs:
                    n_cases = max(1, int(int(g[1]) * SHARE))
                    try:
                        r = subprocess.run([exe, "--group", g[0], "--seed", "1", "--to", str(n_cases)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, timeout=180, cwd=d, start_new_session=True)
                    except subprocess.TimeoutExpired:
                        return "killed", "timeout"
                    if r.returncode or "@@VIOL" in r.stdout: return "killed", ""
            return "survived", ""
        finally:
            shutil.rmtree(d, ignore_errors=True)

    with cf.ThreadPoolExecutor(NP) as ex:
        for m, (r, x) in zip(ms, ex.map(one, ms)):
            stat[r] += 1
            if r == "survived":
                print("SURVIVED %s:%d\n  - %s\n  + %s" % (f, m[0] + 1, lines[m[0]].strip(), m[1].strip()), flush=True)
    print("TOTAL %s %s %s" % (f, rng, stat), flush=True)


main()
