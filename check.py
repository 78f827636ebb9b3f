#!/usr/bin/env -S python3-vt
"""check.py <property>: decides one property on /repo's current working tree.

1. proof: contracts/<id>.py holds contracts on the real functions; vcgen/ extracts those functions from /repo with
   clang on this run, generates every obligation and discharges it with SMT solvers.
2. replay / bounded stand-in: harness/<id>.cpp drives the real code (compiled from /repo on this run, ASan); it looks
   for a concrete failing input and stands in, with its stated bound, for functions outside the verifier's reach.

exit 0 quiet, exit 1 with VIOLATION line(s).
"""
import sys, os, json, time, glob, subprocess, tempfile, shutil, importlib, hashlib, threading, traceback, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [V + "/vcgen", V + "/contracts"]
SEED = os.environ.get("VERIF_SEED", "1"); TIER = os.environ.get("VERIF_TIER", "quick")
T0 = time.time()
TRUSTED = ["clang 18 front end (typed AST of the code as compiled)", "vcgen/ (this repository's verification-condition generator)",
           "z3 5.3.2, z3 4.8.12, cvc5 1.1.2 (SMT back ends)"]
ASSUME = ["datum/double arithmetic treated as exact real arithmetic (no rounding, no NaN/infinity unless stated)",
          "integer additions and multiplications do not overflow their type (unsigned subtraction and sign conversions are modelled exactly)",
          "distinct tensors do not share memory (no aliasing between parameters)",
          "OpenMP pragmas ignored: loops verified sequentially; reference build configuration (no BLAS, no OpenCL)",
          "logging and stream output have no effect on program state; FATAL terminates the process"]

INCS = ["include", "include/cn24", "include/cn24/util", "include/cn24/net", "include/cn24/math", "include/cn24/factory", "include/private"]
CXX_ASAN = ["g++", "-std=c++11", "-O1", "-w", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
       "-DBUILD_POSIX", "-DBUILD_LINUX", "-DBUILD_PNG", "-DBUILD_JPG", '-DGIT_SHA1="verif"'] + ["-I%s/%s" % (REPO, p) for p in INCS]

# ------------------------------------------------------------------ harness
def build_and_run(prop, tmp, out):
    """compiles the library and the harness from the current tree and runs it"""
    try:
        src = V + "/harness/%s.cpp" % prop
        if not os.path.exists(src): out["status"] = "none"; return
        srcs = sorted(glob.glob(REPO + "/src/*/*.cpp"))
        tsan = "openmp-tsan" in open(src).readline()
        CXX, SAN = CXX_ASAN, ["-fsanitize=address"]
        if tsan: SAN = ["-fsanitize=thread"]; CXX = [x for x in CXX if x != "-fsanitize=address"] + SAN + ["-fopenmp", "-DBUILD_OPENMP"]
        objs = []
        def comp(s):
            o = os.path.join(tmp, s.replace("/", "_") + ".o")
            extra = ["-I" + V + "/harness", "-fno-access-control"] if s == src else []
            cache = os.environ.get("VERIF_OBJCACHE")
            if cache and s != src:
                h = hashlib.sha1((open(s).read() + str(CXX) + HDR).encode()).hexdigest()
                c = os.path.join(cache, h + ".o")
                if os.path.exists(c): return c, None
                o = c
            r = subprocess.run(CXX + extra + ["-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return o, (r.stdout if r.returncode else None)
        HDR = "".join(open(f).read() for f in sorted(glob.glob(REPO + "/include/**/*.h", recursive=True))) if os.environ.get("VERIF_OBJCACHE") else ""
        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(comp, [src] + srcs))
        bad = [e for _, e in res if e]
        if bad:
            out["status"] = "nobuild"; out["log"] = bad[0][-3000:]; return
        exe = os.path.join(tmp, "h_" + prop)
        r = subprocess.run(["g++"] + SAN + ["-o", exe] + [o for o, _ in res] + ["-lpng", "-ljpeg", "-lz", "-pthread", "-ldl"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            out["status"] = "nobuild"; out["log"] = r.stdout[-3000:]; return
        out["build_s"] = round(time.time() - T0, 1)
        out["exe"] = exe
        run_harness(exe, tmp, out, 1, 500 if TIER == "quick" else 800)
        if tsan and "unexpected memory mapping" in out.get("stderr", ""): out["status"] = "nobuild"; out["fails"] = []; out["log"] = out["stderr"]; out.pop("exe")
    except Exception as e:
        out["status"] = "error"; out["log"] = traceback.format_exc()

def run_harness(exe, tmp, out, scale, limit):
    scr = os.path.join(tmp, "scratch%d" % scale); os.makedirs(scr, exist_ok=True)
    env = dict(os.environ, VERIF_SEED=SEED, VERIF_TIER=TIER, VH_SCRATCH=scr, VH_SCALE=str(scale),
               ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0",
               OMP_NUM_THREADS="1")
    t = time.time()
    try:
        r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=scr, timeout=limit, errors="replace")
        txt = r.stdout if isinstance(r.stdout, str) else r.stdout.decode(errors="replace")
        err = r.stderr; rc = r.returncode
    except subprocess.TimeoutExpired as e:
        txt = (e.stdout or b"").decode(errors="replace") if not isinstance(e.stdout, str) else e.stdout
        err = ""; rc = "timeout"
    out["run_s"] = round(time.time() - t, 1); out["rc"] = rc
    out["fails"] = []; out["known"] = []; out["stats"] = {}
    for l in txt.splitlines():
        if l.startswith("@@FAIL@@"): out["fails"].append(l[9:].strip())
        elif l.startswith("@@KNOWN:"):
            k, _, m = l[8:].partition("@@"); out["known"].append((k, m.strip()))
        elif l.startswith("@@STATS@@"):
            try: out["stats"] = json.loads(l[10:])
            except Exception: pass
    out["stderr"] = err[-6000:] if err else ""
    if out["fails"]: out["status"] = "fail"
    elif rc == 0 and out["stats"]: out["status"] = "pass"
    elif rc == "timeout": out["status"] = "timeout"
    else:
        out["status"] = "fail"; out["fails"] = ["harness died without a verdict (exit %s)" % rc]

# ------------------------------------------------------------------ proof
def prove(prop, tmp, out, deadline):
    import z3, cast, contract, solve
    try: mod = importlib.import_module(prop)
    except ModuleNotFoundError: out["status"] = "none"; return
    base = {}
    bp = V + "/contracts/baseline.json"
    if os.path.exists(bp): base = json.load(open(bp))
    out.update(functions=[], obligations=0, discharged=0, failed=[], unreached=[], solver_s=0.0, by={}, assumed=set(), inlined=set(),
               callee_contracts=set(), covers=0, status="ok", trivial=0)
    try: prog = cast.Program(mod.SOURCES)
    except Exception as e:
        out["unreached"].append(("all functions", "extraction: %s" % e)); out["fingerprints"] = {}
        return
    fps = {}
    jobs = []
    for fn in mod.FNS():
        lab = fn.label()
        try:
            e = contract.verify(prog, fn)
            jobs.append((fn, lab, e))
            fps[lab] = contract.fingerprint(prog, fn, e)
        except cast.ExtractionError as ex:
            out["unreached"].append((lab, "outside the verifier's reach: %s" % ex))
        except Exception as ex:
            out["unreached"].append((lab, "outside the verifier's reach: %s: %s" % (type(ex).__name__, str(ex)[:300])))
            if os.environ.get("VC_DEBUG"): traceback.print_exc()
    allo = []
    for name, hyps, goal in (mod.LEMMAS() if hasattr(mod, "LEMMAS") else []):
        allo.append((None, "lemma " + name, contract.Obl("lemma " + name, hyps, goal, "lemma"), []))
    for fn, lab, e in jobs:
        for o in e.obls: allo.append((fn, lab, o, e.axioms))
    wd = os.path.join(tmp, "smt"); os.makedirs(wd, exist_ok=True)
    res = solve.discharge_all([(o, ax) for _, _, o, ax in allo], wd, deadline=deadline)
    cov = solve.cover_all([(h, e.axioms, nm) for fn, lab, e in jobs for nm, h in e.covers], wd)
    out["covers"] = len(cov)
    live = {nm for (nm, s) in cov if s != "unsat"}    # a point counts as reachable if one of the paths to it is
    vac = sorted({nm for (nm, s) in cov if s == "unsat"} - live)
    per = {}
    for (fn, lab, o, ax), r in zip(allo, res):
        if r.solver == "simplifier" and o.kind == "safety": out["trivial"] += 1; continue
        p = per.setdefault(lab, {"function": lab, "obligations": 0, "discharged": 0, "solver_s": 0.0, "kinds": {}})
        out["obligations"] += 1; p["obligations"] += 1; p["solver_s"] = round(p["solver_s"] + r.time, 3)
        p["kinds"][o.kind] = p["kinds"].get(o.kind, 0) + 1
        out["solver_s"] += r.time
        if r.status == "discharged":
            out["discharged"] += 1; p["discharged"] += 1
            out["by"][r.solver] = out["by"].get(r.solver, 0) + 1
        else: out["failed"].append((lab, o.name, r.status, r.path, r.log))
    for nm in vac: out["failed"].append((nm.split(":")[0], "vacuity: " + nm, "vacuous", None, []))
    for fn, lab, e in jobs:
        out["assumed"] |= set(e.assumed) | set(getattr(fn, "assumptions", ()))
        out["inlined"] |= {x.replace("Conv::", "") for x in e.used_inline}
        out["callee_contracts"] |= {x.replace("Conv::", "") for x in e.used_contract}
        if lab not in per or per[lab]["obligations"] == 0: out["unreached"].append((lab, "no obligations generated"))
    if hasattr(mod, "UNREACHED"): out["unreached"] += mod.UNREACHED()
    out["functions"] = list(per.values())
    out["fingerprints"] = fps
    out["baseline"] = base

def main():
    prop = sys.argv[1]
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    rc = 0
    try: rc = decide(prop, tmp)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)

def known_list():
    p = V + "/known-findings.txt"; ks = {}
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property="):
                f = l[len("known: property="):].split(None, 2)
                ks[(f[0], f[1])] = f[2].strip() if len(f) > 2 else ""
    return ks

def decide(prop, tmp):
    pr, hr = {}, {}
    th = threading.Thread(target=build_and_run, args=(prop, tmp, hr)); th.start()
    budget = 420 if TIER == "quick" else 600
    try: prove(prop, tmp, pr, T0 + budget)
    except Exception as e:
        pr.setdefault("unreached", []).append(("all", "generator error: %s" % e)); pr["status"] = "error"
        if os.environ.get("VC_DEBUG"): traceback.print_exc()
    th.join()
    known = known_list()
    viol = []; lines = []
    rp = V + "/evidence/replay"; os.makedirs(rp, exist_ok=True)
    replay = "%s/%s.txt" % (rp, prop)
    if os.path.exists(replay): os.remove(replay)
    failed = pr.get("failed", [])
    fps, base = pr.get("fingerprints", {}), pr.get("baseline", {}).get(prop, {})
    changed = [f for f in failed if fps.get(f[0]) is None or fps.get(f[0]) != base.get(f[0])]
    unchanged_failed = [f for f in failed if f not in changed]
    for k, m in hr.get("known", []):
        if (prop, k) in known: lines.append("KNOWN-FINDING: property=%s %s %s" % (prop, k, known[(prop, k)]))
        else: hr.setdefault("fails", []).append("%s: %s" % (k, m)); hr["status"] = "fail"
    fails = hr.get("fails", [])
    if changed and not fails and hr.get("exe"):
        # a failed obligation on changed code: search harder for a failing input before reporting without one
        h2 = dict(hr); run_harness(hr["exe"], tmp, h2, 4, max(30, min(200, 780 - (time.time() - T0))))
        hr["escalated"] = {"rc": h2.get("rc"), "stats": h2.get("stats")}
        if h2.get("fails"): fails = h2["fails"]; hr["fails"] = fails
    if hr.get("status") == "nobuild": pass
    if fails or changed:
        with open(replay, "w") as f:
            f.write("property %s\n" % prop)
            if fails:
                f.write("failing input(s), found by driving the real code:\n" + "\n".join("  " + x for x in fails[:10]) + "\n")
                f.write("replay: VERIF_SEED=%s VERIF_TIER=%s python3-vt %s/check.py %s\n" % (SEED, TIER, V, prop))
                if hr.get("stderr"): f.write("stderr tail:\n" + hr["stderr"][-3000:] + "\n")
            if failed:
                f.write("obligations not discharged:\n")
                for lab, nm, stt, path, log in failed:
                    f.write("  %s [%s] %s\n" % (nm, stt, "; ".join(log)))
                for lab, nm, stt, path, log in failed[:2]:
                    if path and os.path.exists(path): f.write("\n; ---- %s\n%s\n" % (nm, open(path).read()[:20000]))
        viol.append("VIOLATION property=%s replay=%s%s" % (prop, replay, "" if fails else " no-failing-input-found"))
    # ---------------- evidence
    proved = pr.get("obligations", 0) > 0 and not failed and not pr.get("unreached")
    man = {}
    try: man = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}.get(prop, {})
    except Exception: pass
    declared = man.get("level", "other")
    level = declared
    if declared == "proof" and pr.get("obligations", 0) == 0: level = "other"
    st = hr.get("stats", {})
    cov = {"obligations": pr.get("obligations", 0), "discharged": pr.get("discharged", 0),
           "checker_cmd": "python3-vt check.py %s  (vcgen from /repo's current AST, SMT files discharged by z3-new/cvc5/z3)" % prop,
           "trusted_base": TRUSTED + ["callee contract used at call sites: " + c for c in sorted(pr.get("callee_contracts", []))],
           "functions_under_contract": pr.get("functions", []), "inlined_real_bodies": sorted(pr.get("inlined", [])),
           "discharged_by": pr.get("by", {}), "solver_s": round(pr.get("solver_s", 0), 2), "reachability_checks": pr.get("covers", 0),
           "syntactically_true_safety_obligations_not_counted": pr.get("trivial", 0),
           "undischarged": [{"obligation": f[1], "status": f[2]} for f in failed],
           "outside_reach_decided_by_bounded_check": [{"function": a, "why": b} for a, b in pr.get("unreached", [])],
           "fully_proved": proved,
           "bounded_check": {"status": hr.get("status"),
                             "build_s": hr.get("build_s"), "run_s": hr.get("run_s"), "log": hr.get("log", "")[-800:], "label": "bounded, never counted as proved"},
           "evaluations": st.get("evaluations", 0), "distinct_nontrivial": st.get("distinct", 0),
           "rule": "a case is one generated input (dimensions, parameters, data) driven through the real code; distinct cases are counted by the hash of their description; trivial cases (empty input) are not counted",
           "samples": st.get("samples", []),
           "explanation": man.get("level_note", "contract-based deductive verification with bounded stand-in")}
    ev = {"property": prop, "tier": TIER, "seed": int(SEED), "level": level, "coverage": cov,
          "assumptions": ASSUME + sorted(pr.get("assumed", [])), "wall_s": round(time.time() - T0, 2), "violations": len(viol)}
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(V + "/evidence/%s.json" % prop, "w") as f: json.dump(ev, f, indent=1)
    if os.environ.get("VC_BASELINE"):
        out = V + "/contracts/baseline.json"
        b = json.load(open(out)) if os.path.exists(out) else {}
        b[prop] = {k: v for k, v in fps.items()}
        json.dump(b, open(out, "w"), indent=0, sort_keys=True)
    for l in lines: print(l)
    print("property=%s obligations=%d discharged=%d unreached=%d bounded=%s evaluations=%d wall=%.1fs" %
          (prop, pr.get("obligations", 0), pr.get("discharged", 0), len(pr.get("unreached", [])), hr.get("status"), st.get("evaluations", 0), time.time() - T0))
    if os.environ.get("VC_DEBUG") or os.environ.get("VC_VERBOSE"):
        for f in pr.get("failed", []): print("  undischarged:", f[1], f[2], f[4])
        for a, b in pr.get("unreached", []): print("  unreached:", a, b)
        for x in fails: print("  fail:", x)
        if hr.get("log"): print(hr["log"])
    for v in viol: print(v)
    return 1 if viol else 0

if __name__ == "__main__": main()
