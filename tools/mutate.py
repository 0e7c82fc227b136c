#!/usr/bin/env python3
"""Mutation runs: small random changes of the library sources, to find behaviour the checks do not notice.

  mutate.py OUT FILE[:FIRST-LAST] N SEED PROP...   N mutants of code/FILE, checked by PROP... in this order

Works on a copy of the sources (never /repo). Survivors (no check reports a violation) are written to OUT with their
change, to be judged by hand (equivalent, unspecified, or a gap)."""
import sys, os, re, random, subprocess, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("MUT_REPO", "/repo")


def blank(src):
    """Comments and strings replaced by blanks, of the same length."""
    def f(m):
        return re.sub(r"[^\n]", " ", m.group(0))
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', f, src, flags=re.S)


OPS = [(r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
       (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", ["", " - 2"]), (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ ", [" - "]), (r" - ", [" + "]),
       (r" \+= ", [" = ", " -= "]), (r" -= ", [" = ", " += "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\+\+", ["--"]), (r"--", ["++"]),
       (r"!(?=[\w(])", [""]), (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\b([2-9]|\d\d+)\b", [lambda m: str(int(m.group(0)) + 1)]),
       (r" & ", [" | "]), (r" \| ", [" & "]), (r" << ", [" >> "]), (r" >> ", [" << "]), (r"\bmin\(\)", ["max()"]), (r"\bmax\(\)", ["min()"]),
       (r"\bstd::min\b", ["std::max"]), (r"\bstd::max\b", ["std::min"]), (r"\bif \(", ["if (true || ", "if (false && "]), (r"\bwhile \((?!true)", ["while (false && "]),
       (r"\b_min\b", ["_max"]), (r"\b_max\b", ["_min"]), (r"\bnext\(", ["prev("]), (r"\bprev\(", ["next("]), (r"\b_next\b", ["_prev"]), (r"\b_prev\b", ["_next"]),
       (r"\bbegin\(\)", ["end()"]), (r"\bbreak;", [";", "return {};"]), (r"\bcontinue;", [";", "break;"]), (r"\breturn \*this;", ["break;"]),
       (r"\.prefix\(", [".suffix("]), (r"\.suffix\(", [".prefix("]), (r" \? ([^:?;\n]+) : ([^:?;\n)]+)(?=[;)])", [lambda m: f" ? {m.group(2)} : {m.group(1)}"])]
STMT = re.compile(r"^[ \t]+[\w*(:\[][^;{}\n]*(?:=|\+\+|--|\()[^;{}\n]*;[ \t]*$", re.M)


def mutants(src, lo, hi):
    b = blank(src)
    line = lambda p: src.count("\n", 0, p) + 1
    out = []
    for pat, reps in OPS:
        for m in re.finditer(pat, b):
            l = b[b.rfind("\n", 0, m.start()) + 1:m.start()].lstrip()
            if l.startswith(("#", "template", "static_assert", "using", "friend", "return operator")) or "operator" in l[-10:]:
                continue
            for r in reps:
                t = m.expand(r) if isinstance(r, str) and "\\" in r else r(m) if callable(r) else r
                out.append((m.start(), m.end(), t))
    for m in STMT.finditer(b):
        if not re.match(r"\s*(return|using|auto |const |static |template|friend|typedef|throw|case |default|\w[\w:<>,&* ]* operator)", m.group(0)) and not re.match(r"\s*[\w:<>,&]+[ *&]+\w+\s*(\(|=|;|\{)", m.group(0)):
            out.append((m.start(), m.end(), re.match(r"\s*", m.group(0)).group(0) + ";"))
    return [x for x in out if lo <= line(x[0]) <= hi], line


def main():
    outf, spec, n, seed, props = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5:]
    f, _, r = spec.partition(":")
    lo, hi = map(int, r.split("-")) if r else (1, 10 ** 9)
    work = f"/tmp/mut.{os.getpid()}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work + "/repo")
    shutil.copytree(R + "/code", work + "/repo/code")
    os.makedirs(work + "/build")
    for x in ("symex", "symex.key"):
        shutil.copy2(f"{os.environ.get('VF_BUILD', V + '/build')}/{x}", work + "/build/" + x)
    path = f"{work}/repo/code/{f}"
    src = open(path).read()
    ms, line = mutants(src, lo, hi)
    random.Random(seed).shuffle(ms)
    env = dict(os.environ, VF_REPO=work + "/repo", VF_BUILD=work + "/build", VF_FIRST="1", VF_TIME=os.environ.get("VF_TIME", "100"))
    cnt = dict(killed=0, survived=0, invalid=0, none=0)
    t0 = time.time()
    limit = float(os.environ.get("MUT_TIME", "1e9"))
    with open(outf, "a") as log:
        for a, b, t in ms:
            if cnt["killed"] + cnt["survived"] >= n or time.time() - t0 > limit:
                break
            new = src[:a] + t + src[b:]
            if new == src:
                continue
            open(path, "w").write(new)
            l = line(a)
            desc = f"{f}:{l}: {src[a:b].strip()!r} -> {t.strip()!r}   | {new.splitlines()[l - 1].strip()}"
            res = "survived"
            for p in props:
                q = subprocess.run(["python3", V + "/bin/vf.py", "check", p, "quick"], env=env, cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                if q.returncode == 1:
                    res = "killed"
                    break
                if q.returncode == 2:
                    res = "invalid" if "BUILD ERROR" in q.stdout else "none"
                    break
                if "INCOMPLETE" in q.stdout or "UNCONFIRMED" in q.stdout or "WARNING" in q.stdout:
                    res = "survived " + " ".join(re.findall(r"(?:INCOMPLETE|UNCONFIRMED|WARNING)[^\n]{0,150}", q.stdout)[:2])
            cnt[res.split()[0]] += 1
            for o in os.listdir(work + "/build/obj"):
                if not o.startswith(("rt.", "rt_c.", "native.")):
                    os.unlink(f"{work}/build/obj/{o}")
            shutil.rmtree(work + "/build/bin", ignore_errors=True)
            if res not in ("killed", "invalid"):
                log.write(f"{res} [{p}] {desc}\n")
                log.flush()
        open(path, "w").write(src)
        log.write(f"== {spec} seed {seed}: {cnt} in {time.time() - t0:.0f}s\n")
    shutil.rmtree(work, ignore_errors=True)


main()
