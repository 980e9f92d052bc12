#!/usr/bin/env python3
"""Mutation campaign used while developing the checks (no check depends on it).

  mutate.py FILE COUNT SEED SECS TU[,TU..] OUT [FROM-TO]
Makes small random changes to include/gtl/FILE in private copies of /repo/include, compiles the given
harness TUs against each, runs every harness of the binary for SECS seconds and writes the survivors to OUT.
"""
import os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = os.path.join(HERE, "sim")
sys.path.insert(0, HERE)
import check as C

RULES = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
         (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r"\+\+(\w)", r"--\1"), (r"--(\w)", r"++\1"), (r"\breturn true;", "return false;"), (r"\breturn false;", "return true;"),
         (r"\bif \((?!constexpr)(.*)\) *(\{?)$", r"if (true) \2"), (r"\bif \((.*)\) *(\{?)$", r"if (false) \2"), (r"\bif \((.*)\) *(\{?)$", r"if (!(\1)) \2"),
         (r"\bUniqueLock\b", "SharedLock"), (r"\bSharedLock\b", "UniqueLock"), (r"memory_order_(acq_rel|release|acquire)", "memory_order_relaxed"),
         (r"std::move\((\w+)\)", r"\1"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r" << ", " >> "), (r" \| ", " & "), (r" & ", " | "), (r"~", ""),
         (r"\bbegin\(\)", "end()"), (r"\bfirst\b", "last"), (r"\+= ", "-= "), (r"-= ", "+= "), (r"\*2\b|\* 2\b", "* 1"), (r"!(\w)", r"\1")]


def mutants(path, lo, hi):
    L = open(path).read().split("\n")
    out = []
    incom = False
    for i, l in enumerate(L):
        s = l.strip()
        if s.startswith("/*"): incom = True
        if incom:
            if "*/" in s: incom = False
            continue
        if not (lo <= i + 1 <= hi) or not s or s.startswith(("//", "#", "*", "template", "using", "static_assert", "assert", "typename", "namespace", "friend", "public", "private", "GTL_", "class", "struct", "requires")): continue
        code = l.split("//")[0]
        rest = l[len(code):]
        for k, (a, b) in enumerate(RULES):
            for m in re.finditer(a, code):
                n = code[:m.start()] + m.expand(b) + code[m.end():]
                if n != code: out.append((i, n + rest, "r%d" % k))
        if s.endswith(";") and re.match(r"^[\w\.\->:\(\)\*\[\]\+]+.*;$", s) and not re.match(r"^(return|const|auto|using|typedef|size_t|int|bool|static|template|friend|break|continue|case|default|else|[\w:<>]+ \w+( =|;|\())", s):
            out.append((i, re.match(r"\s*", l).group(0) + ";", "del"))
        if re.match(r"^(break|continue|return);$", s): out.append((i, ";", "del"))
    return L, out


def one(job):
    n, f, L, (i, new, kind), tus, secs, tmp = job
    d = os.path.join(tmp, "m%d" % n)
    try:
        shutil.copytree(os.path.join(C.REPO, "include"), d + "/include")
        M = list(L); M[i] = new
        open(d + "/include/gtl/" + f, "w").write("\n".join(M))
        objs = [os.path.join(tmp, "rt.o")]
        for t in tus:
            o = "%s/%s.o" % (d, t)
            r = subprocess.run([C.CXX] + C.CFLAGS + ["-ferror-limit=1", "-I" + d + "/include", "-c", SIM + "/" + t + ".cpp", "-o", o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if r.returncode: return (n, "nocompile", "")
            subprocess.run(["objcopy", "--redefine-syms=" + SIM + "/wraps.syms", o])
            objs.append(o)
        b = d + "/sim"
        if subprocess.run([C.CXX, "-no-pie"] + objs + ["-o", b, "-lpthread"], stderr=subprocess.DEVNULL).returncode: return (n, "nolink", "")
        if os.path.exists(tmp + "/ref.md5"):
            t = subprocess.run("objdump -d --no-show-raw-insn %s | md5sum" % b, shell=True, stdout=subprocess.PIPE).stdout.decode()
            if t.split()[0] == open(tmp + "/ref.md5").read().strip(): return (n, "equivalent", "")
        hs = [h for h in subprocess.run([b, "--list"], stdout=subprocess.PIPE).stdout.decode().split() if not h.startswith("kf_")]
        for rnd in (0.15, secs):
            for h in hs:
                try:
                    r = subprocess.run([b, "--harness", h, "--seed0", "1", "--time", str(rnd), "--viol", d + "/v", "--out", d + "/o"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=rnd + 30)
                    rc = r.returncode
                except subprocess.TimeoutExpired: rc = -99
                if rc: return (n, "killed", h + " " + (r.stdout.decode(errors="replace")[:100] if rc != -99 else "timeout"))
        return (n, "SURVIVED", "")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    f, cnt, seed, secs, tus, outp = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), float(sys.argv[4]), sys.argv[5].split(","), sys.argv[6]
    lo, hi = (map(int, sys.argv[7].split("-"))) if len(sys.argv) > 7 else (1, 10**9)
    L, ms = mutants(os.path.join(C.REPO, "include/gtl", f), lo, hi)
    random.Random(seed).shuffle(ms)
    # at most a few per line
    seen = {}; sel = []
    for m in ms:
        if seen.get(m[0], 0) < int(os.environ.get("PERLINE", "2")): seen[m[0]] = seen.get(m[0], 0) + 1; sel.append(m)
    sel = sel[:cnt]
    tmp = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    subprocess.run([C.CXX, "-std=c++20", "-O2", "-w", "-c", SIM + "/rt.cpp", "-o", tmp + "/rt.o"], check=True)
    nop = (0, L[0], "id")
    # reference object code (line numbers do not matter, -g1 is not in the text section)
    one_ref = one((-1, f, L, nop, tus, 0, tmp)) if False else None
    st = {}
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex, open(outp, "w") as o:
        for n, r, w in ex.map(one, [(n, f, L, m, tus, secs, tmp) for n, m in enumerate(sel)]):
            st[r] = st.get(r, 0) + 1
            i, new, kind = sel[n]
            if r == "SURVIVED":
                o.write("%s:%d %s\n   - %s\n   + %s\n" % (f, i + 1, kind, L[i].strip(), new.strip())); o.flush()
            print(n, f, i + 1, kind, r, w.replace("\n", " ")[:120], flush=True)
    print(st)
    shutil.rmtree(tmp, ignore_errors=True)


main()
