#!/usr/bin/env -S python3-vt
"""Mutation analysis of one property's machinery (development tool, not a check).

mutate.py <property> [max mutants] [seed]: small changes to the functions under contract (operators, constants,
variables, deleted statements), each compiled and run through the property's harness; survivors go through the proof
of the functions they touch.  Prints the survivors: caught by the proof only, or by nothing (equivalent, or a gap)."""
import sys, os, re, random, subprocess, tempfile, shutil, glob, json, resource, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/vcgen", V + "/contracts", V]
os.environ.setdefault("VERIF_OBJCACHE", V + "/.cache")
import check, cast, contract, importlib
REPO = cast.REPO

def walk(n, par=None):
    yield n, par
    for c in n.get("inner", ()):
        if c: yield from walk(c, n)

def off(r, src=None):
    b, e = r.get("begin", {}), r.get("end", {})
    if "offset" not in b or "offset" not in e: return None      # macro
    return b["offset"], e["offset"] + e.get("tokLen", 1)

SWAP = {"<": ["<=", "!="], "<=": ["<"], ">": [">="], ">=": [">"], "==": ["!="], "!=": ["=="], "+": ["-"], "-": ["+"], "*": ["+"], "/": ["*"], "&&": ["||"], "||": ["&&"], "%": ["/"]}
def mutants(node, src):
    out = []; vars = {}
    for n, par in walk(node):
        if n.get("kind") == "DeclRefExpr" and n.get("referencedDecl", {}).get("kind") in ("VarDecl", "ParmVarDecl"):
            vars.setdefault(n.get("type", {}).get("qualType"), set()).add(n["referencedDecl"].get("name"))
        elif n.get("kind") == "MemberExpr" and n.get("inner") and n["inner"][0].get("kind") == "CXXThisExpr":
            vars.setdefault(n.get("type", {}).get("qualType"), set()).add(n.get("name"))
    for n, par in walk(node):
        o = off(n.get("range", {}))
        if o is None: continue
        k = n.get("kind")
        inner = [c for c in n.get("inner", ()) if c]
        if k == "BinaryOperator" and n["opcode"] in SWAP and len(inner) == 2:
            a, b = off(inner[0].get("range", {})), off(inner[1].get("range", {}))
            if a and b and src[a[1]:b[0]].strip() == n["opcode"]:
                for s in SWAP[n["opcode"]]: out.append((a[1], b[0], src[a[1]:b[0]].replace(n["opcode"], s)))
        elif k == "CompoundAssignOperator" and len(inner) == 2:
            a, b = off(inner[0].get("range", {})), off(inner[1].get("range", {}))
            if a and b:
                t = src[a[1]:b[0]]
                if "+=" in t: out += [(a[1], b[0], t.replace("+=", "-=")), (a[1], b[0], t.replace("+=", "="))]
                if "*=" in t: out.append((a[1], b[0], t.replace("*=", "=")))
        elif k == "IntegerLiteral" and src[o[0]:o[1]].isdigit():
            v = int(src[o[0]:o[1]]); out.append((o[0], o[1], str(v + 1)))
            if v > 0: out.append((o[0], o[1], str(v - 1)))
        elif k == "UnaryOperator" and n["opcode"] == "!" and inner:
            out.append((o[0], o[0] + 1, " "))
        elif k == "UnaryOperator" and n["opcode"] in ("++", "--"):
            t = src[o[0]:o[1]]; out.append((o[0], o[1], t.replace("++", "--") if "++" in t else t.replace("--", "++")))
        elif k == "IfStmt" and inner:
            c = off(inner[0].get("range", {}))
            if c: out += [(c[0], c[1], "(true || (" + src[c[0]:c[1]] + "))"), (c[0], c[1], "(false && (" + src[c[0]:c[1]] + "))")]
        elif k in ("DeclRefExpr", "MemberExpr"):
            q = n.get("type", {}).get("qualType"); nm = src[o[0]:o[1]]
            for alt in sorted(vars.get(q, ())):
                if alt and alt != nm and re.fullmatch(r"\w+", nm): out.append((o[0], o[1], alt))
        if par is not None and par.get("kind") in ("CompoundStmt",) and k in ("CallExpr", "CXXMemberCallExpr", "BinaryOperator", "CompoundAssignOperator", "ExprWithCleanups", "CXXOperatorCallExpr", "UnaryOperator"):
            t = src[o[0]:o[1]]
            if "LOG" not in t and "cout" not in t: out.append((o[0], o[1], "(void)0"))
        if par is not None and par.get("kind") == "IfStmt" and k in ("ReturnStmt", "BreakStmt", "ContinueStmt"): out.append((o[0], o[1], "(void)0"))
    return out

def prove_only(prop, path, names):
    """subprocess mode: which obligations of the named functions fail on VERIF_REPO"""
    import solve, tempfile
    mod = importlib.import_module(prop); prog = cast.Program(mod.SOURCES); bad = []; total = 0
    for fn in mod.FNS():
        if fn.label() not in names: continue
        try: e = contract.verify(prog, fn)
        except Exception as ex: bad.append("unreached: " + str(ex)[:120]); continue
        wd = tempfile.mkdtemp()
        import time
        res = solve.discharge_all([(o, e.axioms) for o in e.obls], wd, deadline=time.time() + 60)
        bad += [o.name for o, r in zip(e.obls, res) if r.status != "discharged"]; total += len(e.obls)
        shutil.rmtree(wd)
    print("@@" + json.dumps([total, bad]))

def main():
    prop = sys.argv[1]
    if prop == "--prove": return prove_only(sys.argv[2], None, json.loads(sys.argv[3]))
    mx = int(sys.argv[2]) if len(sys.argv) > 2 else 60; seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    noproof = os.environ.get("NOPROOF")
    mod = importlib.import_module(prop); prog = cast.Program(mod.SOURCES)
    targets = {}
    for fn in mod.FNS():
        try: nodes = [fn.node(prog)]
        except Exception: continue
        try: e = contract.verify(prog, fn); nodes += [x for q in e.used_inline for x in prog.byqual.get(q, [])]
        except Exception: pass
        for nd in nodes:
            if (nd.get("mangledName") or nd["id"]) not in targets: targets[nd.get("mangledName") or nd["id"]] = (nd, set())
            targets[nd.get("mangledName") or nd["id"]][1].add(fn.label())
    allm = []
    for nd, labs in targets.values():
        path = nd["_tu"].path; src = open(path, encoding="latin-1").read(); l = nd.get("loc", {})
        if not l.get("offset") or not src[l["offset"]:].startswith(nd.get("name", "?")): continue    # in a header
        seen = set()
        for m in mutants(cast.body(nd), src):
            if m not in seen: seen.add(m); allm.append((path, m, sorted(labs), nd["_tu"].qual[nd["id"]]))
    rng = random.Random(seed); rng.shuffle(allm); total = len(allm); allm = allm[:mx]
    tmp = tempfile.mkdtemp(prefix="mutate_")
    base = {}; out = {}
    check.TIER = "quick"
    check.build_and_run(prop, tmp, out)
    assert out.get("status") == "pass", out
    hsrc = "%s/%s.o" % (tmp, (V + "/harness/%s.cpp" % prop).replace("/", "_"))
    import hashlib
    HDR = "".join(open(f).read() for f in sorted(glob.glob(REPO + "/include/**/*.h", recursive=True)))
    objs = {}
    for s in sorted(glob.glob(REPO + "/src/*/*.cpp")):
        objs[s] = os.path.join(os.environ["VERIF_OBJCACHE"], hashlib.sha1((open(s).read() + str(check.CXX_ASAN) + HDR).encode()).hexdigest() + ".o")
    def one(k):
        path, (a, b, new), labs, q = allm[k]
        d = os.path.join(tmp, "m%d" % k); os.makedirs(d)
        src = open(path, encoding="latin-1").read(); ms = src[:a] + new + src[b:]
        line = src.count("\n", 0, a) + 1
        desc = "%s:%d %s  [%s] -> [%s]   | %s" % (os.path.relpath(path, REPO), line, q.replace("Conv::", ""), src[a:b], new, src.split("\n")[line - 1].strip()[:90])
        f = os.path.join(d, os.path.basename(path)); open(f, "w", encoding="latin-1").write(ms)
        try:
            r = subprocess.run(["g++" if x == "-O1" else x for x in check.CXX_ASAN if x != "-O1"] + ["-O0", "-I" + os.path.dirname(path), "-c", f, "-o", d + "/m.o"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode: return ("nocompile", desc)
            exe = d + "/h"
            r = subprocess.run(["g++", "-fsanitize=address", "-o", exe, hsrc, d + "/m.o"] + [o for s, o in objs.items() if s != path] + ["-lpng", "-ljpeg", "-lz", "-pthread", "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode: return ("nocompile", desc)
            scr = d + "/s"; os.makedirs(scr)
            env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", VH_SCRATCH=scr, VH_SCALE="1", OMP_NUM_THREADS="1",
                       ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:exitcode=99:detect_stack_use_after_return=0:hard_rss_limit_mb=3000")
            try: r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=scr, timeout=40)
            except subprocess.TimeoutExpired: return ("timeout", desc)
            if r.returncode or b"@@FAIL@@" in r.stdout: return ("killed", desc)
            if noproof: return ("survived", desc)
            rel = os.path.relpath(path, REPO)
            os.makedirs(d + "/r"); 
            subprocess.run(["cp", "-r", REPO + "/src", REPO + "/include", d + "/r/"])
            open(os.path.join(d, "r", rel), "w", encoding="latin-1").write(ms)
            try: r = subprocess.run(["python3-vt", __file__, "--prove", prop, json.dumps(labs)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=dict(os.environ, VERIF_REPO=d + "/r"), text=True, timeout=200)
            except subprocess.TimeoutExpired: return ("proof", desc + "  {timeout}")
            x = [l for l in r.stdout.splitlines() if l.startswith("@@")]
            if not x: return ("proof", desc + "  {prover error}")
            tot, bad = json.loads(x[-1][2:])
            if bad: return ("proof", desc + "  {%s}" % bad[0][:90])
            return ("uncaught", desc)
        finally: shutil.rmtree(d, ignore_errors=True)
    with cf.ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "8"))) as ex: res = list(ex.map(one, range(len(allm))))
    shutil.rmtree(tmp, ignore_errors=True)
    cnt = {}
    for s, _ in res: cnt[s] = cnt.get(s, 0) + 1
    print("== %s mutants %d of %d: %s" % (prop, len(allm), total, cnt))
    for s, d in sorted(res):
        if s in ("proof", "uncaught", "survived", "timeout"): print("  %-8s %s" % (s, d))

if __name__ == "__main__": main()
