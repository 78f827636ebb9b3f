"""Parallel loops: iterations of a loop under an OpenMP directive do not conflict.

The function's own contract supplies the precondition; every access an iteration makes (executed symbolically from the
loop head, inner loops cut at their counter invariants) is recorded with its path condition, and for every write w and
access a of the same array an obligation says: iterations with different counters never address the same cell.  Scalars
declared outside the loop may not be assigned in it."""
from lib import *
import re, os, glob
import cast

def is_private(e, L, b):
    """arrays created by the iteration itself"""
    ids = L.subtree
    return b[0] in ("larr", "new") and (b[2] in ids or (len(b[1]) > 0 and any(i in ids for i in b[1])))

def norm_buf(b): return re.sub(r"\[[^\]]*\]", "[*]", keyname(("b", b)) + str(b))

def fresh_consts(fs, mark):
    todo = list(fs); seen = set(); out = {}
    while todo:
        x = todo.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): todo.append(x.body()); continue
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                m = re.search(r"!(\d+)$", x.decl().name())
                if m and int(m.group(1)) > mark: out[i] = x
            else: todo.extend(x.children())
    return list(out.values())

def products(fs):
    """integer products in the formulas"""
    todo = list(fs); seen = set(); out = {}
    while todo:
        x = todo.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): continue
        if z3.is_app(x):
            if z3.is_mul(x) and is_int(x) and x.num_args() == 2 and not any(z3.is_int_value(c) for c in x.children()): out[i] = x
            todo.extend(x.children())
    return list(out.values())

def note_cells(e, st, kind, b, pred): e.note(st, kind, b, pred)

def par_copymap(e, st, n, oid, av):
    """Tensor::CopyMap as C03 has it: reads one map of the source, writes one map of the target"""
    src, ss, sm, dst, ds, dm = av[:6]
    a, b = [TensorView(e, st, (x.target if isinstance(x, PtrV) else x.oid)) for x in (src, dst)]
    for t in (a, b): reg_shape(e, t.shape)
    k = PAR_K
    e.note(st, "r", a.buf, z3.And(0 <= k, k < a.N, a.shape.us(k) == ss, a.shape.um(k) == sm))
    e.note(st, "w", b.buf, z3.And(0 <= k, k < b.N, b.shape.us(k) == ds, b.shape.um(k) == dm))
    par, e.par = e.par, None
    try: return h_copymap(e, st, n, oid, av)
    finally: e.par = par

def par_copysample(e, st, n, oid, av):
    src, ss, dst, ds = av[:4]
    a, b = [TensorView(e, st, (x.target if isinstance(x, PtrV) else x.oid)) for x in (src, dst)]
    for t in (a, b): reg_shape(e, t.shape)
    k = PAR_K
    e.note(st, "r", a.buf, z3.And(0 <= k, k < a.N, a.shape.us(k) == ss))
    e.note(st, "w", b.buf, z3.And(0 <= k, k < b.N, b.shape.us(k) == ds))
    par, e.par = e.par, None
    try: return h_copysample(e, st, n, oid, av)
    finally: e.par = par

COVERED = set()
def parallel_loops(prog):
    """loops under an OpenMP directive: AST node id -> (clauses, file, offset)"""
    if not hasattr(prog, "omp"):
        prog.omp = {}
        for tu in prog.tus:
            src = open(tu.path, encoding="latin-1").read()
            if not re.search(r"#\s*pragma\s+omp", src): continue
            off = cast.omp_loops(tu.path)
            def go(n):
                o = n.get("range", {}).get("begin", {}).get("offset")
                if n.get("kind") == "ForStmt" and o in off and src[o:o + 3] == "for": prog.omp[n["id"]] = (off[o][1], tu.path, o)
                for c in n.get("inner", ()):
                    if c: go(c)
            for i, n in tu.byid.items():
                if n.get("kind") in cast.FUNCK and cast.has_body(n):
                    l = n.get("loc", {}).get("offset")
                    if l is not None and src[l:l + len(n.get("name", "?"))] == n.get("name", "?"): go(n)
    return prog.omp

def uncovered():
    """parallel loops of the library no contract above covers"""
    out = []
    for path in sorted(glob.glob(cast.REPO + "/src/*/*.cpp") + glob.glob(cast.REPO + "/include/**/*.h", recursive=True)):
        src = re.sub(r"//[^\n]*", "", open(path, encoding="latin-1").read())
        if not re.search(r"#\s*pragma\s+omp", src): continue
        if path.endswith(".h"): out.append((path, "OpenMP directive in a header")); continue
        try: off = cast.omp_loops(path)
        except Exception as ex: out.append((path, str(ex))); continue
        for o, (fn, cl) in off.items():
            if (path, o) not in COVERED: out.append(("%s: %s" % (os.path.relpath(path, cast.REPO), fn), "parallel loop without a contract"))
    return out

class Par(Fn):
    """the parallel loops of a function that has a contract elsewhere"""
    def __init__(self, base, handlers=None, keep_inv=False, keep_hints=False):
        self.base, self.extra, self.keep_inv, self.keep_hints = base, handlers or {}, keep_inv, keep_hints
        self.nparams = base.nparams; self.qual = base.qual; self.want_ranges = base.want_ranges; self.poly = base.poly
        self.assumptions = tuple(getattr(base, "assumptions", ())) + ("the loop's own counter invariants; facts about array contents are not used",)
    def node(self, prog): self.prog = prog; return self.base.node(prog)
    def label(self): return self.base.label() + " (parallel loop)" + ("" if not hasattr(self.base, "within") else " within" if self.base.within else " across")
    def handlers(self): return dict(self.base.handlers(), **self.extra)
    def pre(self, e, st):
        self.base.e = e; self.base.pre(e, st); self.base_cells = e.cells; e.cells = {}; e.nosafety = True
        om = parallel_loops(self.prog); own = set()
        def go(n):
            if n.get("id") in om: own.add(n["id"])
            for c in n.get("inner", ()):
                if c: go(c)
        go(self.base.node(self.prog)); self.want = own
        for i, (clauses, path, off) in om.items(): e.omp[i] = clauses
    def hints(self, e, L, st):
        c, e.cells = e.cells, self.base_cells
        try: return self.base.hints(e, L, st) if self.keep_hints else []
        finally: e.cells = c
    def loop_inv(self, e, L, st):
        if not self.keep_inv: return []
        c, e.cells = e.cells, self.base_cells
        try: return self.base.loop_inv(e, L, st)
        finally: e.cells = c
    def post(self, e, st, ret, kind):
        if getattr(e, "par_done", False): return
        e.par_done = True
        e.obls[:] = [o for o in e.obls if o.kind.startswith("invariant")]
        done = {L.node["id"] for L in e.parloops}; om = parallel_loops(self.prog)
        if not done: raise ExtractionError("no parallel loop in %s" % self.qual)
        for i in done: COVERED.add(om[i][1:])
        for i in self.want:
            if i not in done: raise ExtractionError("a parallel loop of %s was not reached" % self.qual)
        for L in e.parloops: self.pairs(e, L)
    def pairs(self, e, L):
        L.subtree = set()
        def go(n):
            if n.get("id"): L.subtree.add(n["id"])
            for c in n.get("inner", ()):
                if c: go(c)
        go(L.node)
        cl = L.clauses
        priv = set(sum([[v.strip() for v in m.split(",")] for m in re.findall(r"(?:^|[ ,)])(?:first)?private\s*\(([^)]*)\)", cl)], []))
        rest = re.sub(r"((first)?private|schedule|default|num_threads|shared)\s*\([^)]*\)|,|nowait", "", cl).strip()
        if rest: raise ExtractionError("OpenMP clause %s" % rest)
        cnts = {c[0] for c in L.counters}
        if len(L.counters) != 1: raise ExtractionError("parallel loop without a single counter")
        for key in list(L.scal) + L.unknown:
            if key in cnts or key[0] == "b": continue
            if key[0] == "v" and key[1] != L.id[0]: continue
            if key[0] in ("f",) and isinstance(key[1], tuple) and key[1][0] in ("loc", "tmp") and (key[1][2] in L.subtree or any(i in L.subtree for i in key[1][1])): continue
            if key[0] == "g" and str(key[1]).startswith("$"): continue
            nm = e.vname.get(key, keyname(key))
            ok = key[0] == "v" and nm in priv
            e.obls.append(Obl("%s: %s: post: '%s' belongs to one iteration (it is declared outside the parallel loop and assigned in it)" % (e.fname, L.ordinal, nm), [], z3.BoolVal(ok), "postcondition"))
        # arrays
        groups = {}
        for kind, b, pred, pc in L.acc:
            if is_private(e, L, b): continue
            groups.setdefault(norm_buf(b), []).append((kind, b, pred, pc))
        c = L.cnt; npre = len(L.bodypc)
        for g, acc in sorted(groups.items()):
            uniq = {}
            for kind, b, pred, pc in acc:
                h = (kind, pred.get_id(), tuple(p.get_id() for p in pc)); uniq.setdefault(h, (kind, b, pred, pc)); e._pin += [pred] + pc
            acc = list(uniq.values()); ws = [a for a in acc if a[0] == "w"]
            if not ws: continue
            cnt = 0; seen = set()
            for w in ws:
                for a in acc:
                    key = tuple(sorted((id(w), id(a)))) if a[0] == "w" else (id(w), id(a))
                    if key in seen: continue
                    seen.add(key)
                    self.pair(e, L, w, a, c)
                    cnt += 1
        e.covers.append(("%s: loop %s parallel body reachable" % (e.fname, L.ordinal), list(L.bodypc)))
    def pair(self, e, L, w, a, c):
        H = [p for p in w[3] if not useless(p, L.mark)]; H2 = [p for p in a[3] if not useless(p, L.mark)]
        ax = e.axioms
        fs = fresh_consts(H + H2 + [w[2], a[2], c] + ax, L.mark)
        sub = [(x, z3.Const(x.decl().name() + "'", x.sort())) for x in fs]
        r = lambda f: z3.substitute(f, *sub) if sub else f
        c2 = r(c); A2 = [r(f) for f in ax]
        hy = H + [r(f) for f in H2] + [f for f, f0 in zip(A2, ax) if not f.eq(f0)]
        wp, ap = w[2], r(a[2]); step = self.hints_for(e, [wp, ap] , c, c2, sub)
        e.obls.append(Obl("%s: %s: post: iterations do not conflict on %s (write/%s)" % (e.fname, L.ordinal, keyname(("b", w[1])), "write" if a[0] == "w" else "read"),
                          hy + step + [c != c2, wp, ap], FALSE, "postcondition"))
    def hints_for(self, e, fs, c, c2, sub):
        """instances of monotonicity of products (proved as a lemma): x < y and a >= 0 imply a*x + a <= a*y"""
        out = []; ps = products(fs)
        for p in ps:
            for q in ps:
                if p.get_id() == q.get_id(): continue
                x = [t for t in p.children()]; y = [t for t in q.children()]
                for i in (0, 1):
                    for j in (0, 1):
                        if x[i].eq(y[j]): out.append(mono_le(x[i], x[1 - i], y[1 - j], p, q))
        return out

def mono_le(a, x, y, p, q): return z3.Implies(z3.And(a >= 0, x < y), p + a <= q)

def useless(p, mark):
    """facts about array contents during the loop are not used to separate addresses"""
    return z3.is_quantifier(p) and fresh_consts([p], mark)

def par_lemmas():
    a, x, y = z3.Ints("a x y")
    return [("monotonicity of products: x < y and a >= 0 imply a*x + a <= a*y", [a >= 0, x < y, mono(x + 1, y, a)], a * x + a <= a * y)]
