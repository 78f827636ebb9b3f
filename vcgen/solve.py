"""Discharges obligations with external SMT solvers (z3 5.3.2 `z3-new`, z3 4.8.12 `z3`, cvc5 1.1.2)."""
import os, subprocess, tempfile, time, concurrent.futures as cf, re, shutil
import z3

STAGES = [("z3-new", 6), ("cvc5", 8), ("z3", 8), ("z3-new-mbqi0", 10), ("z3-new", 40), ("cvc5-enum", 40)]

def cmd(solver, t, path):
    if solver == "z3-new": return ["z3-new", "-T:%d" % t, path]
    if solver == "z3-new-mbqi0": return ["z3-new", "-T:%d" % t, "smt.mbqi=false", "smt.auto_config=false", path]
    if solver == "z3": return ["z3", "-T:%d" % t, path]
    if solver == "cvc5": return ["cvc5", "--tlimit=%d" % (t * 1000), path]
    if solver == "cvc5-enum": return ["cvc5", "--full-saturate-quant", "--tlimit=%d" % (t * 1000), path]

def smt2(hyps, goal, label):
    s = z3.Solver()
    for h in hyps: s.add(h)
    s.add(z3.Not(goal))
    txt = s.to_smt2()
    txt = txt.replace("(set-info :status unknown)\n", "")
    return "; obligation: %s\n(set-logic ALL)\n" % label.replace("\n", " ") + txt

def run(solver, t, path):
    t0 = time.time()
    try:
        r = subprocess.run(cmd(solver, t, path), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t + 5)
        out = r.stdout
    except subprocess.TimeoutExpired:
        out = "timeout"
    first = ""
    for l in out.splitlines():
        if l.strip() in ("sat", "unsat", "unknown", "timeout"): first = l.strip(); break
    return first or "error:" + out[:200], time.time() - t0

class Result:
    __slots__ = ("name", "kind", "status", "solver", "time", "path", "log")
    def __init__(self, name, kind):
        self.name, self.kind = name, kind
        self.status, self.solver, self.time, self.path, self.log = "?", "", 0.0, None, []

def discharge_one(ob, txt, d, idx, stages):
    r = Result(ob.name, ob.kind)
    path = os.path.join(d, "o%04d.smt2" % idx)
    with open(path, "w") as f: f.write(txt)
    r.path = path
    sat = None
    for solver, t in stages:
        st, dt = run(solver, t, path)
        r.time += dt
        r.log.append("%s(%ds): %s %.2fs" % (solver, t, st, dt))
        if st == "unsat":
            r.status, r.solver = "discharged", solver
            return r
        if st == "sat" and sat is None:
            sat = solver
            break
    r.status = "refuted" if sat else "unknown"
    r.solver = sat or ""
    return r

def discharge_all(items, workdir, jobs=8, stages=None, deadline=None):
    """items: list of (Obl, axioms); returns list of Result in order"""
    stages = stages or STAGES
    res = [None] * len(items)
    todo = []; cache = {}
    for i, (ob, axioms) in enumerate(items):
        if z3.is_true(ob.goal):
            r = Result(ob.name, ob.kind); r.status, r.solver = "discharged", "simplifier"
            res[i] = r; continue
        ax = relevant(axioms, list(ob.hyps) + [ob.goal])
        txt = smt2(ax + list(ob.hyps), ob.goal, ob.name)
        key = txt.split("\n", 1)[1]
        if key in cache: cache[key].append(i); continue
        cache[key] = [i]
        todo.append((i, txt, key))
    def work(x):
        i, txt, key = x
        return key, discharge_one(items[i][0], txt, workdir, i, stages[:2])
    left = []
    with cf.ThreadPoolExecutor(jobs) as ex:
        for (i, txt, key), (k2, r) in zip(todo, ex.map(work, todo)):
            for j in cache[key]: res[j] = r
            if r.status == "unknown": left.append((i, txt, key, r))
        if not left or (deadline is not None and time.time() > deadline): return res
        # second attempt: skolemised goal split into cases (all of them have to be discharged)
        jobs2 = []
        for i, txt, key, r in left:
            ob, axioms = items[i]
            parts = split_goal(ob.goal); nl = nonlinear([ob.goal] + list(ob.hyps))
            if len(parts) < 2 and nl: parts = [([], ob.goal)]
            elif len(parts) < 2 or len(parts) > 40: continue
            for k, (hy, g) in enumerate(parts):
                hs = list(ob.hyps) + hy; fs = relevant(axioms, hs + [g]) + hs
                alt = None
                if nl:
                    cache = {}; a = [abstract(f, cache) for f in fs + [g]]; alt = smt2(a[:-1] + [MULCOMM], a[-1], ob.name + " (case %d, products abstracted)" % k)
                jobs2.append((i, k, smt2(fs, g, ob.name + " (case %d)" % k), alt))
        def work2(x):
            i, k, txt, alt = x
            if alt is not None:
                r = discharge_one(Obj(items[i][0].name, "case"), alt, workdir, i * 100 + k + 5000000, SPLIT_STAGES[:2])
                if r.status == "discharged": return i, r
            return i, discharge_one(Obj(items[i][0].name, "case"), txt, workdir, i * 100 + k + 100000, SPLIT_STAGES)
        per = {}
        for i, r in ex.map(work2, jobs2): per.setdefault(i, []).append(r)
        rest = []
        for i, txt, key, r in left:
            rs = per.get(i)
            if rs:
                r.time += sum(x.time for x in rs)
                bad = [k for k, x in enumerate(rs) if x.status != "discharged"]
                r.log.append("split into %d cases: %s" % (len(rs), "all discharged" if not bad else "cases %s open" % bad))
                if not bad: r.status, r.solver = "discharged", rs[0].solver; continue
            rest.append((i, txt, key, r))
        def work3(x):
            i, txt, key, r = x
            if deadline is not None and time.time() > deadline: return
            r2 = discharge_one(items[i][0], txt, workdir, i, stages[2:])
            r.time += r2.time; r.log += r2.log; r.status, r.solver = r2.status, r2.solver
        list(ex.map(work3, rest))
    return res

RMUL = z3.Function("real_product", z3.RealSort(), z3.RealSort(), z3.RealSort()); RDIV = z3.Function("real_quotient", z3.RealSort(), z3.RealSort(), z3.RealSort())
_x, _y = z3.Reals("x y"); MULCOMM = z3.ForAll([_x, _y], RMUL(_x, _y) == RMUL(_y, _x), patterns=[RMUL(_x, _y)])

def is_num(c): return z3.is_rational_value(c) or z3.is_app_of(c, z3.Z3_OP_UMINUS) and is_num(c.arg(0)) or z3.is_app_of(c, z3.Z3_OP_DIV) and all(is_num(x) for x in c.children())

def is_nl(e):
    if z3.is_app_of(e, z3.Z3_OP_MUL) and z3.is_real(e): return sum(not is_num(c) for c in e.children()) > 1
    return z3.is_app_of(e, z3.Z3_OP_DIV) and z3.is_real(e) and not is_num(e.arg(1))

def nonlinear(fs):
    todo = list(fs); seen = set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_quantifier(e): todo.append(e.body())
        elif z3.is_app(e):
            if is_nl(e): return True
            todo.extend(e.children())
    return False

def abstract(e, cache):
    """real products and quotients as uninterpreted functions: what holds for every such function holds for the real ones"""
    r = cache.get(e.get_id())
    if r is not None: return r[0]
    if z3.is_quantifier(e):
        vs = []
        for k in range(e.num_vars()):
            _sk[0] += 1; vs.append(z3.Const("ab!%d" % _sk[0], e.var_sort(k)))
        rv = list(reversed(vs)); f = lambda t: abstract(z3.substitute_vars(t, *rv), cache)
        pats = []
        for k in range(e.num_patterns()):
            ts = [f(t) for t in e.pattern(k).children()]; pats.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
        q = (z3.ForAll if e.is_forall() else z3.Exists)
        n = q(vs, f(e.body()), patterns=pats) if pats else q(vs, f(e.body()))
    elif z3.is_app(e) and e.num_args():
        ch = [abstract(c, cache) for c in e.children()]
        if is_nl(e):
            if z3.is_app_of(e, z3.Z3_OP_DIV): n = RDIV(ch[0], ch[1])
            else:
                num = [c for c in ch if is_num(c)]; rest = [c for c in ch if not is_num(c)]; neg = False
                for j, c in enumerate(rest):
                    while z3.is_app_of(c, z3.Z3_OP_UMINUS): c = c.arg(0); neg = not neg
                    rest[j] = c
                n = rest[0]
                for c in rest[1:]: n = RMUL(n, c)
                if neg: n = -n
                for c in num: n = c * n
        else: n = e.decl()(*ch) if not z3.is_app_of(e, z3.Z3_OP_MUL) and not z3.is_and(e) and not z3.is_or(e) and not z3.is_add(e) else z3.And(ch) if z3.is_and(e) else z3.Or(ch) if z3.is_or(e) else z3.Sum(ch) if z3.is_add(e) else z3.Product(ch)
    else: n = e
    cache[e.get_id()] = (n, e)
    return n

SPLIT_STAGES = [("z3-new", 6), ("cvc5", 8), ("z3", 4)]
class Obj:
    def __init__(self, name, kind): self.name, self.kind = name, kind

_sk = [0]
def split_goal(g, hyps=(), depth=0):
    """[(extra hypotheses, goal)]: a goal is valid iff all of its cases are (skolemisation, conjuncts, branches, store hits)"""
    if depth > 12: return [(list(hyps), g)]
    if z3.is_quantifier(g) and g.is_forall():
        vs = []
        for k in range(g.num_vars()):
            _sk[0] += 1; vs.append(z3.Const("sk!%d" % _sk[0], g.var_sort(k)))
        return split_goal(z3.substitute_vars(g.body(), *reversed(vs)), hyps, depth + 1)
    if z3.is_and(g): return [p for c in g.children() for p in split_goal(c, hyps, depth + 1)]
    if z3.is_implies(g): return split_goal(g.arg(1), tuple(hyps) + (g.arg(0),), depth + 1)
    if z3.is_app_of(g, z3.Z3_OP_ITE):
        c, t, f = g.children()
        return split_goal(t, tuple(hyps) + (c,), depth + 1) + split_goal(f, tuple(hyps) + (z3.Not(c),), depth + 1)
    if z3.is_or(g):
        cs = g.children()
        imp = [c for c in cs if z3.is_not(c)]
        pos = [c for c in cs if not z3.is_not(c)]
        if imp and len(pos) == 1: return split_goal(pos[0], tuple(hyps) + tuple(c.arg(0) for c in imp), depth + 1)
    cond = store_case(g, hyps)
    if cond is not None and depth < 10:
        return split_case(g, hyps, cond, depth)
    return [(list(hyps), g)]

def split_case(g, hyps, cond, depth):
    out = []
    for c in (cond, z3.Not(cond)):
        out += split_goal(g, tuple(hyps) + (c,), depth + 1) if False else rest_split(g, tuple(hyps) + (c,), depth + 1)
    return out

def rest_split(g, hyps, depth):
    cond = store_case(g, hyps)
    if cond is None or depth > 9: return [(list(hyps), g)]
    return split_case(g, hyps, cond, depth)

def store_case(g, hyps):
    """an undecided 'does this select hit this store' condition of the goal"""
    known = set()
    for h in hyps:
        known.add(h.get_id())
        if z3.is_not(h): known.add(h.arg(0).get_id())
    todo = [g]; seen = set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen or z3.is_quantifier(e): continue
        seen.add(e.get_id())
        if z3.is_app_of(e, z3.Z3_OP_SELECT):
            a, j = e.children()
            while z3.is_app_of(a, z3.Z3_OP_STORE):
                k = a.arg(1)
                if not k.eq(j):
                    c = (j == k); _keep.append(c)
                    if c.get_id() not in known: return c
                a = a.arg(0)
        todo.extend(e.children())
    return None
_keep = []

def cover_all(items, workdir, jobs=8):
    with cf.ThreadPoolExecutor(jobs) as ex:
        prep = []
        for k, (h, ax, nm) in enumerate(items):
            s = z3.Solver()
            for x in relevant(ax, h) + list(h): s.add(x)
            path = os.path.join(workdir, "c%04d.smt2" % k)
            with open(path, "w") as f: f.write("(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)\n", ""))
            prep.append((nm, path))
        return list(ex.map(lambda p: (p[0], run("z3-new", 2, p[1])[0]), prep))

def consts_of(f, cache={}):
    i = f.get_id()
    out = set(); todo = [f]; seen = set()
    while todo:
        e = todo.pop()
        j = e.get_id()
        if j in seen: continue
        seen.add(j)
        if z3.is_quantifier(e): todo.append(e.body())
        elif z3.is_app(e):
            if e.num_args() == 0:
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(e.decl().name())
            else:
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add("fn:" + e.decl().name())
                todo.extend(e.children())
    return out

def relevant(axioms, fs):
    """keeps axioms whose free constants all occur (transitively) near the obligation; dropping hypotheses is sound"""
    need = set()
    for f in fs: need |= consts_of(f)
    ac = [(a, {c for c in consts_of(a)}) for a in axioms]
    used = [False] * len(ac)
    ch = True
    while ch:
        ch = False
        for k, (a, cs) in enumerate(ac):
            if used[k]: continue
            plain = {c for c in cs if not c.startswith("fn:")}
            if plain and not (plain & need): continue
            if not plain and cs and not (cs & need): continue
            used[k] = True; ch = True
            need |= cs
    return [a for k, (a, _) in enumerate(ac) if used[k]]
