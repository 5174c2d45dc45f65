#!/usr/bin/env python3
"""mutate.py WORK FILE[:from-to] ...   first-order mutants of /repo/src files against the quick checks.
Every mutant is one edited token or statement of one source file, compiled into a shared library the harnesses are linked with;
the harnesses of the properties anchored in that file run one after another and stop at the first unexpected failure.
Prints the mutants which no check notices: equivalent ones, or gaps. Work files go to WORK (outside /repo and /verif)."""
import sys, os, re, subprocess, json, shutil, concurrent.futures as cf, threading, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src"
FL = "-std=c++17 -O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -ftrivial-auto-var-init=pattern -w -ffp-contract=off -fPIC".split()
if "--fast" in sys.argv: FL = "-std=c++17 -O2 -D_GLIBCXX_ASSERTIONS -ftrivial-auto-var-init=pattern -w -ffp-contract=off -fPIC".split()  # no sanitizers: memory errors can survive
WORK = sys.argv[1]
CHECKS = {
 "BezierUtil": "C21", "Face": "C02 C13", "Geometry": "C09 C10 C34 C11 C33", "GeometryUtil": "C34", "ImageGenerator": "C31", "ImageIoBmp": "C24 C25 C26", "ImageUtil": "C31 C32",
 "Image": "C31 C24 C02 C08", "Color": "C31 C30", "Mesh": "C01 C03 C02 C13 C33 C32 C11 C10", "MeshBoolean": "C11 C32", "MeshFactory": "C05 C32 C21", "MeshKernelHalfEdge": "C33", "MeshKernelTIN": "C33",
 "MeshKernelLinkedTriangles": "C33 C01 C03", "MeshKernel": "C33", "MeshMeasurements": "C04", "MeshTessellate": "C06 C32", "MeshUtil": "C07 C08 C32", "NurbsCurve": "C14 C16 C17 C20 C02 C18", "NurbsExtrude": "C18 C32",
 "NurbsFactory": "C19 C32", "NurbsRevolve": "C18 C19 C32", "NurbsRuled": "C18 C19 C32", "NurbsSolid": "C02 C13 C19", "NurbsSurface": "C15 C16 C17 C13 C02 C18", "NurbsUtil": "C20 C08 C32", "OBJFile": "C23 C25 C26",
 "QuadBezierTriangle": "C21 C13", "Renderer": "C28 C29 C30", "RendererCamera": "C30 C28 C29", "RendererLight": "C30", "STLFile": "C22 C25 C26", "SmoothMesh": "C21 C02 C13", "SmoothMeshFactory": "C21", "Solid": "C02 C13",
 "StepFile": "C27", "Transform": "C12 C13 C30" }

def sh(a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def prepare():
    os.makedirs(WORK + "/h", exist_ok=True); os.makedirs(WORK + "/o", exist_ok=True)
    for f in os.listdir(VERIF + "/harness"): shutil.copy(VERIF + "/harness/" + f, WORK + "/h/" + f)
    p = WORK + "/h/mc.hpp"; s = open(p).read()
    a = "		auto it = _fails.find(key);\n"; assert s.count(a) == 1
    s = s.replace(a, "		if (!_known.count(key)) { printf(\"KILLED %s\\n\", key.c_str()); fflush(stdout); _exit(5); }\n" + a); open(p, "w").write(s)
    srcs = [f for f in re.findall(r"(\w+)\.cpp", open(SRC + "/CMakeLists.txt").read())]
    ex = cf.ThreadPoolExecutor(8); jobs = []
    for f in srcs: jobs.append(ex.submit(sh, ["g++"] + FL + ["-I", SRC, "-c", SRC + "/" + f + ".cpp", "-o", WORK + "/o/" + f + ".o"]))
    for j in jobs: assert j.result().returncode == 0, j.result().stdout
    r = sh(["g++"] + FL + ["-shared", "-o", WORK + "/libmut.so"] + [WORK + "/o/" + f + ".o" for f in srcs]); assert r.returncode == 0, r.stdout
    if "--fast" in sys.argv: open(WORK + "/stub.cpp", "w").write('#include <cstddef>\nextern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) { return 0; }\n'); assert sh(["g++"] + FL + ["-c", WORK + "/stub.cpp", "-o", WORK + "/stub.o"]).returncode == 0
    jobs = [ex.submit(sh, ["g++"] + FL + ["-I", SRC, "-I", WORK + "/h", WORK + "/h/C%02d.cpp" % i, "-o", WORK + "/C%02d" % i] + ([WORK + "/stub.o"] if "--fast" in sys.argv else []) + ["-L", WORK, "-lmut"]) for i in range(1, 35)]
    for j in jobs: assert j.result().returncode == 0, j.result().stdout[-3000:]
    return srcs

def mutants(f, lo, hi):
    lines = open(SRC + "/" + f, encoding="latin-1").read().split("\n"); res = []
    incomment = False
    for n, l in enumerate(lines):
        if lo and not (lo <= n + 1 <= hi): continue
        st = l.strip()
        if "/*" in st: incomment = True
        if incomment:
            if "*/" in st: incomment = False
            continue
        if not st or st.startswith("//") or st.startswith("#") or st in "{}": continue
        code = l.split("//")[0]
        mask = re.sub(r'"(\\.|[^"\\])*"', lambda m: "\x01" * len(m.group(0)), code); mask = re.sub(r"'(\\.|[^'\\])'", lambda m: "\x01" * len(m.group(0)), mask)
        def sub(a, b, t): res.append((n, l, l[:a] + t + l[b:]))
        if "--trig" in sys.argv:  # loops which end one step early beyond a size, or at some sizes only
            m = re.search(r"for\s*\([^;]*;\s*\w+\s*(<=?)\s*([^;]+?)\s*;", mask)
            if m:
                x = code[m.start(2):m.end(2)]
                for k in (8, 16, 32, 64, 128, 256, 600): sub(m.start(2), m.end(2), "(%s) - ((int)(%s) > %d)" % (x, x, k))
                for k in (5, 7, 11): sub(m.start(2), m.end(2), "(%s) - ((int)(%s) > 4 && (int)(%s) %% %d == 0)" % (x, x, x, k))
            continue
        for m in re.finditer(r"<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|\+\+|--|<<|>>|->|[-+*/<>%]|!(?!=)", mask):
            o, a, b = m.group(0), m.start(), m.end()
            if o in ("->", "<<", ">>"): continue
            if o in "<>" and re.search(r"(vector|unique_ptr|map|pair|set|shared_ptr|static_cast|numeric_limits)\s*<[^;()]*>?$", mask[:b]): continue
            T = { "<=": ["<", ">"], ">=": [">", "<"], "<": ["<=", ">"], ">": [">=", "<"], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "+=": ["-=", "="], "-=": ["+="], "*=": ["/="], "/=": ["*="],
                  "++": ["--"], "--": ["++"], "+": ["-"], "-": ["+"], "*": ["/", "+"], "/": ["*"], "%": ["/"], "!": [""] }[o]
            if o in "*&" and re.search(r"[\w>]\s*$", mask[:a]) is None: continue
            for t in T: sub(a, b, t)
        for m in re.finditer(r"(?<![\w.])(\d+\.\d*(?:e[-+]?\d+)?f?|\d+(?:e[-+]?\d+)?|0x[0-9a-fA-F]+)(?![\w.])", mask):
            v, a, b = m.group(1), m.start(), m.end()
            if "." in v or ("e" in v and not v.startswith("0x")):
                x = float(v.rstrip("f")); sub(a, b, "1." if x == 0 else repr(x * 1.25)); 
                if x: sub(a, b, "0.")
            else: sub(a, b, v + "+1" if re.search(r"[\[(=,<>]\s*$", mask[:a]) else str(int(v, 0) + 1)); (int(v, 0) > 0) and sub(a, b, str(int(v, 0) - 1))
        m = re.match(r"(\s*(?:else )?if\s*\()(.*)(\)\s*(?:\{|\S.*;|))$", code.rstrip())
        if m: sub(len(m.group(1)), len(m.group(1)) + len(m.group(2)), "true"); sub(len(m.group(1)), len(m.group(1)) + len(m.group(2)), "false")
        if st.endswith(";") and not re.match(r"(return|break|continue|using|case|default|for|while|if|else|const|int|double|float|bool|auto|string|std::|vector|Point3|Mesh|unsigned|char|Nurbs\w+|throw)\b", st): res.append((n, l, ";"))
        if re.match(r"(break|continue)\s*;", st): res.append((n, l, ";"))
        m = re.match(r"\s*return (.+);", code)
        if m and m.group(1).strip() in ("true", "false"): res.append((n, l, l.replace("true", "\x02").replace("false", "true").replace("\x02", "false")))
        for a, b in (("x", "y"), ("y", "z"), ("z", "x")):
            for m in re.finditer(r"(?<![a-zA-Z])_?%s\(\)|\b_%s\b" % (a, a), mask): sub(m.start(), m.end(), m.group(0).replace(a, b))
        for a, b in (("p1", "p2"), ("p2", "p3"), ("v1", "v2"), ("v2", "v3"), ("i1", "i2"), ("i2", "i3"), ("U", "V"), ("V", "U"), ("u", "v"), ("v", "u"), ("i", "j"), ("j", "i"), ("iWidth", "iHeight"), ("iHeight", "iWidth")):
            for m in re.finditer(r"(?<![A-Za-z0-9])%s(?![A-Za-z0-9])" % a if len(a) > 1 else (r"(?<=[a-z])%s(?![A-Za-z])" % a if a in "UV" else r"(?<![\w])%s(?![\w])" % a), mask): sub(m.start(), m.end(), b)
    seen, out = set(), []
    for n, l, t in res:
        if t != l and (n, t) not in seen: seen.add((n, t)); out.append((n, l, t))
    return lines, out

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77:hard_rss_limit_mb=2500:max_allocation_size_mb=2000:max_malloc_fill_size=1000000:detect_stack_use_after_return=0", UBSAN_OPTIONS="halt_on_error=1:exitcode=77")
def known(ck):
    p = WORK + "/known" + ck; open(p, "w").write("".join(m.group(1) + "\n" for m in re.finditer(r"KNOWN-FINDING: property=%s key=(\S+)" % ck, open(VERIF + "/known_findings.txt").read()))); return p
def run_one(job):
    f, k, lines, (n, l, t), srcs, order = job; d = "%s/m_%s_%d" % (WORK, f, k); os.makedirs(d, exist_ok=True)
    try:
        new = list(lines); new[n] = t; open(d + "/" + f, "w", encoding="latin-1").write("\n".join(new)); stem = f.rsplit(".", 1)[0]
        if f.endswith(".cpp"):
            if sh(["g++"] + FL + ["-I", SRC, "-c", d + "/" + f, "-o", d + "/m.o"]).returncode: return "nobuild", ""
            if subprocess.run(["cmp", "-s", d + "/m.o", WORK + "/o/" + stem + ".o"]).returncode == 0: return "same", ""
            if sh(["g++"] + FL + ["-shared", "-o", d + "/libmut.so"] + [WORK + "/o/" + s + ".o" if s != stem else d + "/m.o" for s in srcs]).returncode: return "nobuild", ""
        for ck in order:
            os.makedirs(d + "/s", exist_ok=True)
            try: r = subprocess.run([WORK + "/" + ck, "--tier", "quick", "--known", known(ck), "--scratch", d + "/s", "--out", d + "/out"], env=dict(ENV, LD_LIBRARY_PATH=d), cwd=d + "/s", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60 if "--fast" in sys.argv else 240)
            except subprocess.TimeoutExpired: return "killed", ck + " timeout"
            if r.returncode: return "killed", ck + " %d" % r.returncode
        return "SURVIVED", ""
    finally: shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    srcs = prepare() if not os.path.exists(WORK + "/C34") or "--fresh" in sys.argv else [f for f in re.findall(r"(\w+)\.cpp", open(SRC + "/CMakeLists.txt").read())]
    jobs = []
    for a in [x for x in sys.argv[2:] if not x.startswith("--")]:
        f, _, rg = a.partition(":"); lo, hi = (int(x) for x in rg.split("-")) if rg else (0, 0)
        lines, ms = mutants(f, lo, hi); stem = f.rsplit(".", 1)[0]
        for k, m in enumerate(ms): jobs.append((f, k, lines, m, srcs, CHECKS[stem].split()))
    print(len(jobs), "mutants", flush=True); cnt = {}
    with cf.ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "8"))) as ex:
        for job, (v, why) in zip(jobs, ex.map(run_one, jobs)):
            cnt[v] = cnt.get(v, 0) + 1; f, k, _, (n, l, t), _, _ = job
            if v == "SURVIVED": print("%s:%d\n  - %s\n  + %s" % (f, n + 1, l.strip(), t.strip()), flush=True)
    print(cnt)
