"""Runs the check of one property: every harness unit of harness/<ID>/ is compiled by the toolchain built from
/repo's current tree and executed symbolically over the bitcode of the real runtime; see DESIGN.md."""
import json, os, re, shutil, subprocess, sys, time, glob, tempfile, threading, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

VERIF = build.VERIF
NCPU = os.cpu_count() or 4

class ToolError(Exception): pass

def known_findings(pid):
    """known-findings.txt: 'known: property=<id> unit=<unit> label=<label> | what fails' ; 'fixed:' lines suppress nothing."""
    out = []
    p = f"{VERIF}/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) unit=(\S+) label=(\S+) inputs=(\S+) \| (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append(dict(unit=m.group(2), label=m.group(3), inputs=m.group(4), text=m.group(5)))
    return out

def header(path):
    s = open(path, encoding="latin1").read()
    m = re.match(r"(?:\(\*:|/\*:)(.*?)(?::\*\)|:\*/)", s, re.S)
    return (json.loads(m.group(1)) if m else {}), s

def tv(x, tier, default=None):
    if isinstance(x, dict) and ("quick" in x or "thorough" in x):
        return x.get(tier, x.get("quick", default))
    return default if x is None else x

def units(pid, tier, only=None):
    """Expands harness files x variants into runnable units."""
    us = []
    for f in sorted(glob.glob(f"{VERIF}/harness/{pid}/*.sml") + glob.glob(f"{VERIF}/harness/{pid}/*.c")):
        base = os.path.basename(f)
        if base.startswith("_"): continue
        h, src = header(f)
        if h.get("tier") and h["tier"] != tier: continue
        vs = tv(h.get("variants"), tier, [{}])
        for i, v in enumerate(vs):
            p = dict(tv(h.get("params"), tier, {}) or {}); p.update(v)
            name = os.path.splitext(base)[0] + ("" if len(vs) == 1 else "_" + (v.get("id") or str(i)))
            if only and not any(o in name for o in only): continue
            us.append(dict(pid=pid, file=f, name=name, h=h, src=src, params=p, tier=tier))
    return us

def subst(src, params):
    for k, v in params.items(): src = src.replace(f"@{k}@", str(v))
    m = re.search(r"@[A-Z][A-Z0-9_]*@", src)
    if m: raise ToolError("unsubstituted parameter " + m.group(0))
    return src

def include(src, d):
    """(*INCLUDE file*) splices a shared harness library."""
    def f(m):
        for p in (f"{d}/{m.group(1)}", f"{VERIF}/harness/lib/{m.group(1)}"):
            if os.path.exists(p): return open(p, encoding="latin1").read()
        raise ToolError("no include " + m.group(1))
    return re.sub(r"\(\*INCLUDE ([\w./]+)\*\)", f, src)

def clean_native_env():
    e = dict(build.ENV); e["HOME"] = "/nonexistent"; return e

def native(B, d, bc, inputs, tag, timeout=20, exe=None):
    """Runs the native runtime on recorded inputs. Returns (status, stderr, report)."""
    w = tempfile.mkdtemp(prefix="n.", dir=d)
    try:
        open(f"{w}/in", "w").write("\n".join(map(str, inputs)) + "\n")
        env = clean_native_env(); env.update(SYMREPLAY=f"{w}/in", SYMREPORT=f"{w}/rep")
        for k in glob.glob(f"{d}/files/*"): shutil.copy(k, w)
        try:
            p = subprocess.run([exe or build.camlrunm(B), "-stdlib", f"{B}/lib", bc] if False else [exe or build.camlrunm(B), bc], cwd=w, env=env, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
            st, err = p.returncode, p.stderr.decode("latin1")
        except subprocess.TimeoutExpired:
            st, err = "timeout", ""
        rep = {}
        if os.path.exists(f"{w}/rep"):
            for l in open(f"{w}/rep"):
                k, _, v = l.strip().partition(" "); rep[k] = v
        return st, err, rep
    finally:
        shutil.rmtree(w, ignore_errors=True)

def read_case(path):
    kv, vals = {}, []
    L = open(path, encoding="latin1").read().split("\n")
    i = 0
    while i < len(L):
        k, _, v = L[i].partition(" "); kv[k] = v; i += 1
        if k == "inputs":
            vals = [int(x) for x in L[i:i + int(v)]]; break
    kv["values"] = vals
    return kv

def asan_runtime(B):
    out = f"{B}/src/runtime/camlrunm.asan"
    with build.Lock(f"{B}/lock-asan"):
        if not os.path.exists(out):
            S = f"{B}/src/runtime"
            mk = open(f"{S}/Makefile").read()
            cs = sorted(c for c in glob.glob(f"{S}/*.c") if os.path.basename(c) not in build.RTSKIP)
            o = ["-O1", "-g", "-fwrapv", "-fno-strict-aliasing", "-w", "-std=gnu89", "-Dunix", "-DTHREADED", f"-I{S}", "-fsanitize=address", "-Wl,--export-dynamic"]
            D = f"{B}/asan"; os.makedirs(D, exist_ok=True)
            def one(c):
                n = os.path.basename(c)
                ex = ["-Dminor_collection=real_minor_collection"] if n == "minor_gc.c" else (["-DREALMINOR"] if n == "symprims.c" else [])
                build.run(["gcc", "-c", *o, *ex, c, "-o", f"{D}/{n[:-2]}.o"])
                return f"{D}/{n[:-2]}.o"
            with cf.ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, cs))
            build.run(["gcc", "-fsanitize=address", "-Wl,--export-dynamic", "-Wl,--wrap=read,--wrap=write,--wrap=gettimeofday,--wrap=time", "-o", out + ".tmp", *objs, "-lm", "-ldl"])
            os.rename(out + ".tmp", out)
    return out

def confirm(B, d, bc, case, kind):
    """Does the real (native) runtime show the failure on these inputs?"""
    st, err, rep = native(B, d, bc, case["values"], "v")
    lab = case["label"]
    if st == 97: return "check failed natively: " + err.strip()[-200:]
    if st in (96, 98): return None
    if st == "timeout": return "native run does not terminate" if kind == "hang" else None
    if st < 0: return "native run killed by signal %d" % -st
    if st != 0: return "native run exits with status %d: %s" % (st, err.strip()[-200:])
    if rep.get("done") != "1": return "native run ends without finishing the harness"
    if kind == "crash":
        st, err, rep = native(B, d, bc, case["values"], "v", exe=asan_runtime(B), timeout=60)
        if "AddressSanitizer" in err: return "AddressSanitizer: " + " ".join(err.split("\n")[1:4])[:300]
    return None

def run_sml(B, u, work, jobs):
    h, name = u["h"], u["name"]
    d = f"{work}/{name}"; os.makedirs(f"{d}/files")
    src = subst(include(u["src"], os.path.dirname(u["file"])), u["params"])
    M = "U" + re.sub(r"\W", "_", name)
    for cmd in h.get("pre", []):
        prestep(B, d, cmd, os.path.dirname(u["file"]), u["params"])
    mode = h.get("mode", "-structure"); opts = h.get("opts", ["-conservative"])
    extra = []
    for mod in h.get("mods", []):          # auxiliary units of the harness
        for ext in (".sig", ".sml"):
            p = f"{os.path.dirname(u['file'])}/{mod}{ext}"
            if os.path.exists(p): open(f"{d}/{mod.lstrip('_')}{ext}", "w", encoding="latin1").write(subst(include(open(p, encoding="latin1").read(), os.path.dirname(u["file"])), u["params"]))
    for mod in h.get("mods", []) + h.get("genmods", []):
        mod = mod.lstrip("_")
        if os.path.exists(f"{d}/{mod}.sig"): build.mosmlcmp(B, d, f"{mod}.sig", ["Sym.ui", *[e + ".ui" for e in extra]], opts, mode)
        build.mosmlcmp(B, d, f"{mod}.sml", ["Sym.ui", *[e + ".ui" for e in extra]], opts, mode)
        extra.append(mod)
    open(f"{d}/{M}.sml", "w", encoding="latin1").write(src)
    ctx = ["Sym.ui"] + [e + ".ui" for e in extra] + [c + ".ui" for c in h.get("ctx", [])]
    build.mosmlcmp(B, d, f"{M}.sml", ctx, opts, mode)
    bc = f"{d}/{M}.bc"
    build.mosmllnk(B, d, bc, [f"{e}.uo" for e in extra] + [f"{M}.uo"])
    for f in h.get("files", []): shutil.copy(f"{os.path.dirname(u['file'])}/{f}", f"{d}/files/{f}")
    tmo = tv(h.get("timeout"), u["tier"], 120 if u["tier"] == "quick" else 600)
    out = f"{d}/out"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cmd = [build.engine(), "--out", out, "--timeout", str(tmo), "--jobs", str(jobs), "--stats", f"{d}/stats.json",
           "--samples", str(h.get("samples", 12)), "--seed", str(seed), "--maxsteps", str(h.get("maxsteps", 20000000)), "--maxviol", "12"]
    if h.get("args"): cmd += h["args"]
    cmd += [f"{B}/bc/rt.bc", "--", "camlrunm", f"{M}.bc"]
    t = time.time()
    p = subprocess.run(cmd, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=build.ENV, timeout=tmo + 120)
    if not os.path.exists(f"{d}/stats.json"):
        raise ToolError(f"{name}: executor produced no result: " + p.stdout.decode("latin1")[-500:])
    st = json.load(open(f"{d}/stats.json"))
    res = dict(unit=name, stats=st, violations=[], unconfirmed=[], problems=[], validated=0, samples=[], wall=time.time() - t)
    # reachability (vacuity) of every named check
    want = set(re.findall(r'Sym\.(?:check|reach) "([^"]+)"', src)) | set(re.findall(r'\(\*REACH ([^*]+)\*\)', src))
    for o in h.get("optional", []): want.discard(o)
    seen = set(st["labels"]) | set(st["reach"])
    for v in glob.glob(f"{out}/viol.*"):
        if v.endswith(".tmp"): continue
        c = read_case(v)
        how = confirm(B, d, bc, c, c["kind"])
        if how: res["violations"].append(dict(kind=c["kind"], label=c["label"], where=c["where"], inputs=c["values"], how=how, bc=bc))
        else: res["unconfirmed"].append(dict(kind=c["kind"], label=c["label"], where=c["where"], inputs=c["values"]))
    if st["incomplete"]:
        why = "incomplete: %d %s" % (st["incomplete"], "; ".join(st["incomplete_why"])[:600])
        # a "soft" unit goes beyond what every correct implementation can be expected to be decided on; what it leaves open is reported, not failed
        if h.get("soft") and all(re.match(r"solver unknown|deadline|unknown|$", w) for w in st["incomplete_why"]): res["extra"] = "UNDECIDED " + why
        else: res["problems"].append(why)
    if not res["violations"]:
        miss = [w for w in want if w not in seen]
        if miss and not st["incomplete"]: res["problems"].append("not reached: " + ", ".join(sorted(miss)))
    if not st["paths"] and not st["violations"] and not res.get("extra"): res["problems"].append("no path completed")
    for s in sorted(glob.glob(f"{out}/sample.*")):
        if s.endswith(".tmp"): continue
        c = read_case(s)
        ns, err, rep = native(B, d, bc, c["values"], "s")
        if ns == 0 and rep.get("done") == "1" and rep.get("obs") == c["obs"] and rep.get("nobs") == c["nobs"]:
            res["validated"] += 1
        else:
            res["problems"].append("native run of a sampled path disagrees (status %s, %s, expected obs %s/%s): %s" % (ns, rep, c["obs"], c["nobs"], err.strip()[-100:]))
        if len(res["samples"]) < 2: res["samples"].append(dict(unit=name, inputs=c["values"][:40], observations=int(c["nobs"]), result="all checks of the path proved"))
    return res

def prestep(B, d, cmd, hd, params):
    a = cmd.split()
    def put(f):
        open(f"{d}/{os.path.basename(f).lstrip('_')}", "w", encoding="latin1").write(subst(open(f"{hd}/{f}", encoding="latin1").read(), params))
        return os.path.basename(f).lstrip("_")
    if a[0] == "mosmllex": f = put(a[1]); build.run([build.camlrunm(B), build.lextool(B), f], cwd=d)
    elif a[0] == "mosmlyac": f = put(a[1]); build.run([f"{B}/src/mosmlyac/mosmlyac", *a[2:], f], cwd=d)
    else: raise ToolError("unknown step " + cmd)

def run_unit(B, u, work, jobs):
    if u["file"].endswith(".c"):
        import cbmc
        return cbmc.run_c(B, u, work, jobs)
    return run_sml(B, u, work, jobs)

def check(pid, tier, only=None, verbose=False):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    ev = f"{VERIF}/evidence/{pid}.json"; os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    rc = 0
    try:
        us = units(pid, tier, only)
        if not us: raise ToolError("no units for " + pid)
        with cf.ThreadPoolExecutor(2) as ex:
            fe = ex.submit(build.engine); ft = ex.submit(build.tree); fe.result(); B = ft.result()
        tb = time.time() - t0
        conc = min(len(us), 4 if len(us) < 6 else 6); jobs = max(2, NCPU // conc + 1) if conc > 1 else NCPU
        results, errors = [], []
        def one(u):
            try:
                r = run_unit(B, u, work, u["h"].get("jobs", jobs))
            except Exception as e:
                r = dict(unit=u["name"], stats=None, violations=[], unconfirmed=[], problems=["error: " + str(e)[-1500:]], validated=0, samples=[], wall=0)
            if verbose or r["problems"] or r["violations"] or r["unconfirmed"]:
                s = r["stats"] or {}
                print("unit %-24s %6.1fs paths=%s forks=%s checks=%s/%s q=%s solver=%.1fs insns=%s val=%s viol=%d unconf=%d %s" % (r["unit"], r["wall"], s.get("paths"), s.get("forks"), s.get("checks"), s.get("checks_symbolic"),
                      s.get("queries"), s.get("solver_s", 0), s.get("insns"), r["validated"], len(r["violations"]), len(r["unconfirmed"]), " | ".join(r["problems"])[:1500]), flush=True)
                if verbose and s.get("sites"): print("   sites", dict(sorted(s["sites"].items(), key=lambda x: -x[1])[:8]))
            return r
        with cf.ThreadPoolExecutor(conc) as ex: results = list(ex.map(one, us))
        known = known_findings(pid); shown = set()
        viol = []
        for r in results:
            for v in r["violations"]:
                k = next((k for k in known if k["unit"] == r["unit"] and k["label"] == v["label"].replace(" ", "_") and (k["inputs"] == "*" or k["inputs"] == ",".join(map(str, v["inputs"])))), None)
                if k:
                    if k["text"] not in shown: shown.add(k["text"]); print(f"KNOWN-FINDING: property={pid} {k['text']}")
                else: viol.append((r["unit"], v))
        rd = f"{VERIF}/evidence/replay-{pid}"; shutil.rmtree(rd, ignore_errors=True)
        for n, (un, v) in enumerate(viol[:10]):
            os.makedirs(rd, exist_ok=True)
            p = f"{rd}/{un}.{n}.txt"
            with open(p, "w") as f:
                f.write(f"property {pid}\nunit {un}\nkind {v['kind']}\nlabel {v['label']}\nwhere {v['where']}\nconfirmed {v['how']}\ninputs {' '.join(map(str, v['inputs']))}\n"
                        f"# replay: {VERIF}/check {pid} --replay {p}\n")
            print(f"VIOLATION property={pid} replay={p}"); print(f"  {un}: {v['kind']} {v['label']}: {v['how']}; inputs {v['inputs'][:24]}")
        bad = [p for r in results for p in r["problems"]] + [f"{r['unit']}: unconfirmed {x['kind']} {x['label']} {x['where'][:200]} {x['inputs'][:20]}" for r in results for x in r["unconfirmed"]]
        rc = 1 if viol else (2 if bad else 0)
        if rc == 2:
            for b in bad[:12]: print("NO-ANSWER " + b)
        write_evidence(ev, pid, tier, seed, us, results, viol, known, bad, time.time() - t0, tb)
        ok = [r for r in results if r["stats"]]
        print("%s %s: %s; units=%d paths=%d checks=%d queries=%d solver=%.1fs wall=%.1fs (build %.1fs)" % (pid, tier, {0: "held", 1: "VIOLATED", 2: "no answer"}[rc], len(us),
              sum(r["stats"]["paths"] for r in ok), sum(r["stats"]["checks"] for r in ok), sum(r["stats"]["queries"] for r in ok), sum(r["stats"]["solver_s"] for r in ok), time.time() - t0, tb))
    finally:
        if os.environ.get("VERIF_KEEP"): print("work", work)
        else: shutil.rmtree(work, ignore_errors=True)
    return rc

def write_evidence(ev, pid, tier, seed, us, results, viol, known, bad, wall, tb):
    R = [r for r in results if r["stats"]]
    S = lambda k: sum(r["stats"].get(k, 0) for r in R)
    fn = sorted(set(f for r in R for f in r["stats"].get("functions", [])))
    samples = [s for r in R for s in r["samples"][:1]][:12]
    cov = dict(states=S("paths"), transitions=S("insns"), traces_validated_against_impl=sum(r["validated"] for r in R), samples=samples or ["none"],
               forks=S("forks"), path_prefixes_pruned=S("killed"), assertions_decided=S("checks"), assertions_needing_solver=S("checks_symbolic"),
               queries=dict(total=S("queries"), sat=S("sat"), unsat=S("unsat"), unknown=S("unknown"), finite_domain_branches=S("domain")), solver_seconds=round(S("solver_s"), 2),
               build_seconds=round(tb, 1), functions_encoded=fn,
               units=[dict(unit=r["unit"], what=next((u["h"].get("title", "") for u in us if u["name"] == r["unit"]), ""), bounds=next((u["h"].get("bounds", "") for u in us if u["name"] == r["unit"]), ""),
                           params=next((u["params"] for u in us if u["name"] == r["unit"]), {}), paths=r["stats"]["paths"], checks=r["stats"]["checks"], queries=r["stats"]["queries"],
                           solver_s=round(r["stats"]["solver_s"], 2), wall_s=round(r["wall"], 2), validated=r["validated"], labels=r["stats"]["labels"], reached=r["stats"]["reach"],
                           **({"extra": r["extra"]} if r.get("extra") else {})) for r in R],
               meaning="states = completed symbolic paths (each stands for every input satisfying its path condition); transitions = LLVM instructions executed symbolically; traces validated = sampled paths whose concrete inputs were re-run on the natively compiled runtime with identical observations")
    e = dict(property=pid, tier=tier, seed=seed, level=level_of(pid), coverage=cov, violations=len(viol), wall_s=round(wall, 2),
             assumptions=["C library replaced by the model in engine/stubs.c; floating point only on concrete values unless a unit says otherwise",
                          "bounds per unit as listed; nothing is claimed beyond them"] + ([f"NO ANSWER: {b}"[:300] for b in bad[:5]]))
    tmp = ev + ".tmp"
    json.dump(e, open(tmp, "w"), indent=1); os.rename(tmp, ev)

def level_of(pid):
    try:
        for c in json.load(open(f"{VERIF}/MANIFEST.json"))["checks"]:
            if c["property"] == pid: return c["level"]
    except Exception: pass
    return "model_checking"

def replay(pid, path):
    kv = {}
    for l in open(path):
        k, _, v = l.strip().partition(" "); kv[k] = v
    B = build.tree(); work = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        for tier in ("quick", "thorough"):
            for u in units(pid, tier):
                if u["name"] == kv["unit"]:
                    u["h"]["timeout"] = 1
                    r = None
                    try: run_unit(B, u, work, 1)
                    except Exception as e: print(e)
                    d = f"{work}/{u['name']}"; bc = glob.glob(f"{d}/U*.bc")[0]
                    how = confirm(B, d, bc, dict(label=kv["label"], values=[int(x) for x in kv["inputs"].split()]), kv["kind"])
                    print("reproduced: " + how if how else "not reproduced"); return 1 if how else 0
    finally: shutil.rmtree(work, ignore_errors=True)
    print("unit not found"); return 2
