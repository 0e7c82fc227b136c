#!/usr/bin/env python3
"""Driver of the solver-based checks.

  vf.py check PROP quick|thorough     run the check of one property
  vf.py replay FILE                   replay a recorded violation natively
  vf.py setup                         build the engine
  vf.py list                          list harness entries
"""
import sys, os, re, json, hashlib, subprocess, time, shutil, shlex, glob, resource
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
NCPU = os.cpu_count() or 4
SRCS = ["ArenaWriter", "Errata", "MemArena", "RBTree", "TextView", "bw_format", "bw_ip_format", "string_view_util", "swoc_file", "swoc_ip"]
SAN = "signed-integer-overflow,shift-exponent,integer-divide-by-zero,return,unreachable,vla-bound,bounds"
BCF = ("-std=c++17 -O1 -ffp-contract=off -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -gline-tables-only -D_GLIBCXX_EXTERN_TEMPLATE=0 "
       "-D__NO_CTYPE -ftrivial-auto-var-init=pattern -fsanitize=" + SAN + " -fsanitize-trap=all -w")
NATF = "-std=c++17 -O1 -ffp-contract=off -g1 -ftrivial-auto-var-init=pattern -w"
ASANF = NATF + " -fno-omit-frame-pointer -fsanitize=address," + SAN + " -fno-sanitize-recover=all"
INC = f"-I{REPO}/code/include -I{VERIF}/rt -I{VERIF}/harness"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def file_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        try:
            with open(p, "rb") as f:
                h.update(f.read())
        except OSError:
            h.update(b"?")
    return h.hexdigest()


def repo_files():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "code")):
        for f in fs:
            out.append(os.path.join(d, f))
    return sorted(out)


def support_files():
    return sorted(glob.glob(VERIF + "/rt/*") + glob.glob(VERIF + "/harness/*.h"))


class BuildError(Exception):
    pass


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    eng = os.path.join(BUILD, "symex")
    srcs = sorted(glob.glob(VERIF + "/engine/*"))
    key = file_hash(srcs)
    stamp = os.path.join(BUILD, "symex.key")
    if os.path.exists(eng) and os.path.exists(stamp) and open(stamp).read() == key:
        return eng
    r = sh(f"make -B -C {VERIF}/engine OUT={BUILD} -j{NCPU} {BUILD}/symex")
    if r.returncode:
        raise BuildError("engine build failed\n" + r.stdout[-4000:])
    open(stamp, "w").write(key)
    return eng


def parse_harnesses():
    """//@ entry NAME props=A,B [shards=N] [time=S] [tier=q|t|qt] : bounds text   (bounds: text | text for thorough)
       //@ flags: ...        extra flags for everything in this harness build
       //@ srcs: A B         library sources to link (default all)"""
    hs = {}
    for f in sorted(glob.glob(VERIF + "/harness/*.cc")):
        h = {"file": f, "flags": "", "srcs": SRCS, "entries": []}
        for line in open(f):
            m = re.match(r"//@\s*entry\s+(\S+)\s+(.*?):\s*(.*)$", line)
            if m:
                e = {"name": m.group(1), "props": [], "shards": 1, "time": 0, "tier": "qt", "bounds": m.group(3).strip(), "opts": ""}
                for kv in m.group(2).split():
                    k, v = kv.split("=", 1)
                    if k == "props":
                        e["props"] = v.split(",")
                    elif k in ("shards", "time"):
                        e[k] = int(v)
                    elif k == "opts":
                        e[k] = v.replace(",", " ")
                    else:
                        e[k] = v
                h["entries"].append(e)
                continue
            m = re.match(r"//@\s*(flags|srcs)\s*:\s*(.*)$", line)
            if m:
                h[m.group(1)] = m.group(2).split() if m.group(1) == "srcs" else m.group(2).replace("@RT@", VERIF + "/rt").replace("@H@", VERIF + "/harness").replace("@REPO@", REPO)
        hs[os.path.basename(f)[:-3]] = h
    return hs


def compile_one(kind, src, flags, key, cpp=True):
    """kind: bc | nat | asan. Returns the object path (cached by content key)."""
    k = hashlib.sha256((kind + src + flags + key).encode()).hexdigest()[:24]
    ext = "bc" if kind == "bc" else "o"
    out = os.path.join(BUILD, "obj", f"{os.path.basename(src)}.{k}.{ext}")
    if os.path.exists(out):
        os.utime(out)
        return out
    cc = "clang++-18" if cpp else "clang-18"
    tmp = out + f".tmp{os.getpid()}.{ext}"
    r = sh(f"{cc} {flags} {'-emit-llvm' if kind == 'bc' else ''} -c {src} -o {tmp}")
    if r.returncode:
        raise BuildError(f"compilation of {src} failed ({kind})\n" + r.stdout[-6000:])
    os.rename(tmp, out)
    return out


def build_harness(name, h, thorough, kinds=("bc", "nat")):
    os.makedirs(BUILD + "/obj", exist_ok=True)
    os.makedirs(BUILD + "/bin", exist_ok=True)
    rk = file_hash(repo_files() + support_files())
    sk = file_hash(support_files())
    hk = file_hash([h["file"]]) + rk
    T = " -DTHOROUGH=1" if thorough else ""
    jobs = []
    with ThreadPoolExecutor(NCPU) as ex:
        res = {}
        for kind in kinds:
            base = {"bc": BCF, "nat": NATF, "asan": ASANF}[kind] + " " + INC + " " + h["flags"]
            js = [ex.submit(compile_one, kind, h["file"], base + T, hk)]
            for s in h["srcs"]:
                js.append(ex.submit(compile_one, kind, f"{REPO}/code/src/{s}.cc", base, rk))
            if kind == "bc":
                js.append(ex.submit(compile_one, kind, f"{VERIF}/rt/rt.cc", BCF.replace("-fsanitize=" + SAN, "") + " -fno-builtin", sk))
                js.append(ex.submit(compile_one, kind, f"{VERIF}/rt/rt_c.c", "-O1 -fno-builtin -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -w", sk, False))
            elif kind == "nat":
                js.append(ex.submit(compile_one, kind, f"{VERIF}/rt/native.cc", NATF + f" -DVF_MALLOC -I{VERIF}/rt", sk))
            else:
                js.append(ex.submit(compile_one, kind, f"{VERIF}/rt/native.cc", NATF + f" -I{VERIF}/rt", sk))
            res[kind] = js
        out = {}
        for kind in kinds:
            objs = [j.result() for j in res[kind]]
            k = hashlib.sha256("".join(objs).encode()).hexdigest()[:20]
            dst = os.path.join(BUILD, "bin", f"{name}.{k}.{kind}")
            if not os.path.exists(dst):
                tmp = dst + f".tmp{os.getpid()}"
                if kind == "bc":
                    ents = ",".join(e["name"] for e in h["entries"])
                    r = sh(f"llvm-link-18 {' '.join(objs)} -o {tmp}.l && opt-18 -passes='internalize,globaldce' "
                           f"-internalize-public-api-list={ents} {tmp}.l -o {tmp} && rm -f {tmp}.l")
                elif kind == "nat":
                    r = sh(f"clang++-18 -rdynamic -o {tmp} {' '.join(objs)} -ldl")
                else:
                    r = sh(f"clang++-18 -rdynamic -fsanitize=address,undefined -o {tmp} {' '.join(objs)} -ldl")
                if r.returncode:
                    raise BuildError(f"linking {name} ({kind}) failed\n" + r.stdout[-6000:])
                os.rename(tmp, dst)
            out[kind] = dst
    return out


def prune_cache(limit=1500 << 20):
    fs = []
    for d in ("obj", "bin"):
        for p in glob.glob(f"{BUILD}/{d}/*"):
            try:
                s = os.stat(p)
                fs.append((s.st_mtime, s.st_size, p))
            except OSError:
                pass
    tot = sum(f[1] for f in fs)
    for m, s, p in sorted(fs):
        if tot <= limit:
            break
        try:
            os.unlink(p)
        except OSError:
            pass
        tot -= s


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (int(5.5 * (1 << 30)),) * 2)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (1 << 29, 1 << 29))
    except Exception:
        pass


def run_engine(eng, bc, e, k, n, t, outdir, seed, extra=""):
    out = f"{outdir}/{e['name']}.{k}.json"
    d = f"{outdir}/{e['name']}"
    os.makedirs(d, exist_ok=True)
    cmd = [eng, bc, "--entry", e["name"], "--split", f"{k}/{n}", "--time", str(t), "--out", out, "--dir", d, "--seed", str(seed),
           "--z3-every", "300", "--samples", str(max(2, 24 // n))] + e["opts"].split() + extra.split()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=t + 30, preexec_fn=limits)
        rc, err = p.returncode, p.stderr
        open(out[:-4] + "err", "w").write(err)
    except subprocess.TimeoutExpired as x:
        rc, err = -99, "engine did not stop in time"
    if rc == 0 and os.path.exists(out):
        j = json.load(open(out))
        j["stderr"] = err[-3000:]
        return j
    return {"crash": rc, "stderr": err[-3000:], "entry": e["name"], "split": f"{k}/{n}"}


ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=4096:malloc_fill_byte=170:handle_abort=1:detect_stack_use_after_return=0",
            "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1"}


def native_replay(exe, entry, case, asan):
    env = dict(os.environ)
    if asan:
        env.update(ASAN_ENV)
    try:
        p = subprocess.run([exe, "replay", entry, case], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=90, env=env, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


BENIGN = (0, 2, 78, 79, 81)


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) entry=(\S+) match=\"(.*?)\" (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append({"entry": m.group(2), "match": m.group(3), "what": m.group(4)})
    return out


def check(prop, tier):
    t0 = time.time()
    thorough = tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    eng = build_engine()
    hs = parse_harnesses()
    todo = []
    for name, h in hs.items():
        es = [e for e in h["entries"] if prop in e["props"] and ("t" if thorough else "q") in e["tier"]]
        if es:
            todo.append((name, h, es))
    if not todo:
        print(f"no harness for {prop}")
        return 2
    outdir = os.path.join(BUILD, "run", f"{prop}.{os.getpid()}")
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    bins = {}
    for name, h, es in todo:
        bins[name] = build_harness(name, h, thorough)
    tb = time.time() - t0
    jobs = []
    budget = float(os.environ.get("VF_TIME", 0)) or (660 if thorough else 150)
    for name, h, es in todo:
        for e in es:
            n = e["shards"]
            for k in range(n):
                jobs.append((name, e, k, n))
    # a job may use the remaining wall time shared fairly: total cpu budget = NCPU * budget
    deadline = time.time() + budget
    tot = len(jobs)
    results = []

    first = os.environ.get("VF_FIRST")  # for mutation runs: stop at the first violation

    def one(j):
        name, e, k, n = j
        if first and any(r.get("violations") for r in results):
            return {"entry": e["name"], "harness": name, "ent": e, "incomplete": 1}
        left = deadline - time.time()
        cap = e["time"] * (5 if thorough else 1) if e["time"] else budget
        t = max(2.0, min(cap, left))
        r = run_engine(eng, bins[name]["bc"], e, k, n, t, outdir + "/" + name, seed)
        r["harness"] = name
        r["ent"] = e
        if first:
            results.append(r)
        return r

    for name, h, es in todo:
        os.makedirs(outdir + "/" + name, exist_ok=True)
    with ThreadPoolExecutor(NCPU) as ex:
        results = list(ex.map(one, jobs))
    te = time.time() - t0 - tb
    # candidate violations -> native confirmation
    kf = known_findings(prop)
    kf_hit = set()
    confirmed, unconfirmed = [], []
    seen = set()
    for r in results:
        for v in r.get("violations", []):
            key = (r["entry"], v["kind"], v["msg"], v["loc"])
            if key in seen:
                continue
            seen.add(key)
            name = r["harness"]
            hit = [i for i, f in enumerate(kf) if f["entry"] == r["entry"] and f["match"] in f"{v['kind']}|{v['msg']}|{v['loc']}"]
            if hit:
                kf_hit.update(hit)
                continue
            if len(confirmed) >= 3:
                continue
            if "asan" not in bins[name]:
                bins[name].update(build_harness(name, hs[name], thorough, ("asan",)))
            rc, o = native_replay(bins[name]["asan"], r["entry"], v["file"], True)
            how = "asan+ubsan build"
            if rc in BENIGN:
                rc, o = native_replay(bins[name]["nat"], r["entry"], v["file"], False)
                how = "native build"
            d = dict(v, entry=r["entry"], harness=name, native_rc=rc, native_out=o[-2500:], how=how)
            (confirmed if rc not in BENIGN else unconfirmed).append(d)
    # trace validation: sampled complete paths are replayed natively and the observations compared
    validated = mism = 0
    mismatches, samples = [], []
    vjobs = []
    for name, h, es in todo:
        for e in es:
            cases = sorted(glob.glob(f"{outdir}/{name}/{e['name']}/sample*.txt"))[: (120 if thorough else 40)]
            if cases:
                vjobs.append((name, e, cases))

    def val(j):
        name, e, cases = j
        return j, sh([bins[name]["nat"], "validate", e["name"]] + cases)

    with ThreadPoolExecutor(NCPU) as ex:
        for (name, e, cases), p in ex.map(val, vjobs):
            for line in p.stdout.splitlines():
                m = re.match(r"(\S+\.txt) (\d+)$", line)
                if m:
                    if m.group(2) == "0":
                        validated += 1
                    else:
                        mism += 1
                        mismatches.append({"case": os.path.basename(m.group(1)), "entry": e["name"], "rc": int(m.group(2)), "out": p.stdout[-800:]})
            if len(samples) < 12:
                c = open(cases[0]).read().split("\n")
                samples.append({"entry": e["name"], "inputs": [" ".join(x.split()[1:]) for x in c if x.startswith("V ")][:40],
                                "observations": [x.split()[1] for x in c if x.startswith("O ")][:40]})
    # a natively failing sample is itself a concrete failure of the real code
    S = lambda k: sum(r.get(k, 0) or 0 for r in results)
    crashed = [r for r in results if "crash" in r]
    reasons, reach, funcs = {}, {}, set()
    for r in results:
        for k, v in r.get("incomplete_reasons", {}).items():
            reasons[k] = reasons.get(k, 0) + v
        for k, v in r.get("reach", {}).items():
            reach[r["entry"] + ":" + k] = reach.get(r["entry"] + ":" + k, 0) + v
        funcs.update(r.get("functions", []))
    for c in crashed:
        reasons["engine crash in " + c["entry"]] = 1
    per_entry = {}
    for r in results:
        d = per_entry.setdefault(r["ent"]["name"], {"paths": 0, "queries": 0, "unsat": 0, "checks_symbolic": 0, "checks_concrete": 0, "incomplete": 0, "wall_s": 0, "bounds": r["ent"]["bounds"]})
        for k in ("paths", "queries", "unsat", "checks_symbolic", "checks_concrete", "incomplete"):
            d[k] += r.get(k, 0) or 0
        d["wall_s"] = round(max(d["wall_s"], r.get("wall_s", 0)), 2)
    exhaustive = not reasons and not crashed and not S("incomplete")
    declared = set()
    for name, h, es in todo:
        txt = open(h["file"]).read()
        if all(prop in e['props'] for e in hs[name]['entries']):
            declared.update(re.findall(r'REACH\("([^"]+)"\)', txt))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": S("paths") + S("killed") + S("errors") + S("incomplete"), "transitions": S("instructions"),
            "traces_validated_against_impl": validated, "samples": samples,
            "exhaustive": exhaustive,
            "explanation": "states = symbolic paths explored (each stands for all inputs satisfying its path condition); transitions = LLVM instructions executed symbolically; traces_validated = sampled complete paths replayed on the natively compiled library with identical observations",
            "paths_completed": S("paths"), "paths_outside_bounds": S("killed"), "paths_incomplete": S("incomplete"), "incomplete_reasons": reasons,
            "forks": S("forks"), "assertions_decided_by_solver": S("checks_symbolic"), "assertions_concrete": S("checks_concrete"),
            "symbolic_address_resolutions": S("memory_resolutions"),
            "queries": S("queries"), "sat": S("sat"), "unsat": S("unsat"), "unknown": S("unknown"), "solver_s": round(S("solver_s"), 2),
            "z3_cross_checks": S("z3_checks"), "z3_disagreements": S("z3_disagree"), "z3_s": round(S("z3_s"), 2),
            "functions_encoded": sorted(funcs), "entries": per_entry, "reach": reach,
            "trace_mismatches": mismatches[:5], "build_s": round(tb, 1), "engine_s": round(te, 1),
            "unconfirmed_candidates": [{k: u[k] for k in ("entry", "kind", "msg", "loc", "native_rc", "native_out")} for u in unconfirmed],
        },
        "assumptions": ["inputs and operation sequences bounded as stated per entry", "single threaded execution", "memory allocation succeeds",
                        "LLVM -O1 IR of the current source (clang 18) represents the compiled code", "C/C++ runtime functions modelled by /verif/rt"],
        "wall_s": round(time.time() - t0, 2), "violations": len(confirmed),
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    rc = 0
    for f in sorted(kf_hit):
        print(f"KNOWN-FINDING: property={prop} {kf[f]['what']}")
    if confirmed:
        os.makedirs(VERIF + "/evidence/replay", exist_ok=True)
        for i, c in enumerate(confirmed):
            dst = f"{VERIF}/evidence/replay/{prop}_{i}.txt"
            with open(dst, "w") as f:
                f.write(f"H {c['harness']} {c['entry']} {'thorough' if thorough else 'quick'}\n")
                f.write(f"# {c['kind']}: {c['msg']} at {c['loc']}\n")
                f.write(open(c["file"]).read())
            c["replay"] = dst
            print(f"VIOLATION property={prop} replay={dst}")
            print(f"  {c['kind']}: {c['msg']} at {c['loc']} (confirmed natively: {c['how']}, exit {c['native_rc']})")
            print("\n".join("    " + x for x in c["native_out"].splitlines()[:6]))
        rc = 1
        ev["coverage"]["violation_details"] = [{k: c[k] for k in ("entry", "kind", "msg", "loc", "stack", "replay", "native_rc")} for c in confirmed]
    with open(f"{VERIF}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    if not confirmed:
        fatal = []
        if mism:
            fatal.append(f"{mism} sampled paths disagree with the native build: {mismatches[0]}")
        if S("z3_disagree"):
            fatal.append("the two solvers disagree")
        if S("paths") == 0:
            fatal.append("no path completed")
        for m in fatal:
            print(f"WARNING: {m}")
        for u in unconfirmed:
            print(f"UNCONFIRMED candidate (not reproduced natively, not reported): {u['entry']} {u['kind']}: {u['msg']} at {u['loc']} rc={u['native_rc']}")
        missing = [l for l in sorted(declared) if not any(k.endswith(":" + l) for k in reach)]
        if missing:
            print(f"note: labels not reached: {missing}")
        if not exhaustive:
            print(f"INCOMPLETE: {reasons}")
    print(f"{prop} {tier}: {'VIOLATED' if rc else 'held'} on {S('paths')} paths, {S('queries')} queries ({S('unsat')} unsat, {S('solver_s'):.1f}s), "
          f"{validated} traces validated, exhaustive={exhaustive}, {ev['wall_s']}s (build {tb:.1f}s)")
    if os.environ.get("VF_KEEP"):
        print("run directory", outdir)
    else:
        shutil.rmtree(outdir, ignore_errors=True)
    prune_cache()
    return rc


def replay(path):
    hs = parse_harnesses()
    head = open(path).readline().split()
    name, entry, tier = head[1], head[2], head[3]
    b = build_harness(name, hs[name], tier == "thorough", ("asan", "nat"))
    for k in ("asan", "nat"):
        rc, o = native_replay(b[k], entry, path, k == "asan")
        print(f"== {k}: exit {rc}\n{o}")


def main():
    a = sys.argv[1:]
    try:
        if a[0] == "setup":
            build_engine()
            return 0
        if a[0] == "check":
            return check(a[1], a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick"))
        if a[0] == "replay":
            replay(a[1])
            return 0
        if a[0] == "list":
            for n, h in parse_harnesses().items():
                for e in h["entries"]:
                    print(n, e["name"], ",".join(e["props"]), e["tier"], e["shards"], e["bounds"])
            return 0
    except BuildError as x:
        print("BUILD ERROR:", x)
        return 2


if __name__ == "__main__":
    sys.exit(main())
