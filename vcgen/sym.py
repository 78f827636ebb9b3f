"""Symbolic verification-condition generator over the clang AST of the real code.

Semantics used (and trusted, see DESIGN.md):
  * integers: mathematical integers with the source type's range known for inputs; unsigned subtraction and
    signed->unsigned conversion wrap exactly; other arithmetic is treated as mathematical (no overflow).
  * datum/double: mathematical reals; transcendental library functions are uninterpreted.
  * memory: named objects and one array per allocation; distinct allocations do not overlap; every array access
    generates an in-bounds obligation.
  * loops: cut at their invariants (init + preservation obligations), everything modified is forgotten.
  * calls: callee contract if one is registered, otherwise the callee's real body is executed inline.
"""
import z3
from cast import *

class Abort(Exception):
    pass

_ctr = [0]
def fresh(name, sort):
    _ctr[0] += 1
    return z3.Const("%s!%d" % (name, _ctr[0]), sort)

PAR_K = z3.Int("par_k")
I = z3.IntSort(); R = z3.RealSort(); B = z3.BoolSort()
def is_int(v): return isinstance(v, z3.ExprRef) and v.sort() == I
def is_real(v): return isinstance(v, z3.ExprRef) and v.sort() == R
def is_bool(v): return isinstance(v, z3.ExprRef) and v.sort() == B
def IV(n): return z3.IntVal(n)
TRUE = z3.BoolVal(True); FALSE = z3.BoolVal(False)

class PtrV:
    """pointer: kind 'buf' (array element), 'obj' (struct object), 'key' (scalar variable), 'null'."""
    __slots__ = ("kind", "target", "off", "null")
    def __init__(self, kind, target, off=None, null=FALSE):
        self.kind, self.target, self.off, self.null = kind, target, off, null
    def __repr__(self): return "Ptr(%s,%s,%s,%s)" % (self.kind, self.target, self.off, self.null)
NULLP = PtrV("null", None, IV(0), TRUE)

class StructV:   # struct value/lvalue by identity
    __slots__ = ("oid", "ty")
    def __init__(self, oid, ty): self.oid, self.ty = oid, ty
    def __repr__(self): return "Obj(%s)" % (self.oid,)

class Opaque:
    def __init__(self, what=""): self.what = what
OPAQUE = Opaque("opaque")

class LKey:
    __slots__ = ("key", "ty")
    def __init__(self, key, ty): self.key, self.ty = key, ty
class LElem:
    __slots__ = ("buf", "idx", "ty")
    def __init__(self, buf, idx, ty): self.buf, self.idx, self.ty = buf, idx, ty

class State:
    def __init__(self):
        self.store = {}
        self.pc = []
        self.base = None
    def fork(self):
        s = State(); s.store = dict(self.store); s.pc = list(self.pc)
        return s
    def assume(self, f):
        if z3.is_true(f): return
        self.pc.append(f)

# ---- tensor layout symbols (contract of Tensor::Offset)
off_f = z3.Function("off", I, I, I, I, I, I, I, I)   # w h M  x y m s
ux_f = z3.Function("ux", I, I, I, I, I); uy_f = z3.Function("uy", I, I, I, I, I)
um_f = z3.Function("um", I, I, I, I, I); us_f = z3.Function("us", I, I, I, I, I)

class Shape:
    def __init__(self, w, h, M, S, N): self.w, self.h, self.M, self.S, self.N = w, h, M, S, N
    def off(self, x, y, m, s): return off_f(self.w, self.h, self.M, x, y, m, s)
    def ux(self, i): return ux_f(self.w, self.h, self.M, i)
    def uy(self, i): return uy_f(self.w, self.h, self.M, i)
    def um(self, i): return um_f(self.w, self.h, self.M, i)
    def us(self, i): return us_f(self.w, self.h, self.M, i)
    def inr(self, x, y, m, s):
        return z3.And(0 <= x, x < self.w, 0 <= y, y < self.h, 0 <= m, m < self.M, 0 <= s, s < self.S)
    def axioms(self, poly=False):
        x, y, m, s, i = z3.Ints("x y m s i")
        o = self.off(x, y, m, s)
        ax = [z3.ForAll([x, y, m, s], z3.Implies(self.inr(x, y, m, s), z3.And(0 <= o, o < self.N,
                  self.ux(o) == x, self.uy(o) == y, self.um(o) == m, self.us(o) == s)), patterns=[o])]
        body = z3.Implies(z3.And(0 <= i, i < self.N), z3.And(self.inr(self.ux(i), self.uy(i), self.um(i), self.us(i)),
                          self.off(self.ux(i), self.uy(i), self.um(i), self.us(i)) == i))
        ax.append(z3.ForAll([i], body, patterns=[self.ux(i), self.uy(i), self.um(i), self.us(i)]))
        if poly:
            ax.append(z3.ForAll([x, y, m, s], o == s * (self.M * self.h * self.w) + m * (self.h * self.w) + y * self.w + x, patterns=[o]))
        return ax
    def key(self): return tuple(str(t) for t in (self.w, self.h, self.M, self.S, self.N))

class Obl:
    __slots__ = ("name", "hyps", "goal", "kind", "line")
    def __init__(self, name, hyps, goal, kind, line=None):
        self.name, self.hyps, self.goal, self.kind, self.line = name, hyps, goal, kind, line

class LoopCtx:
    """what a contract's loop invariant callback sees at a loop head"""
    pass

LOWEST = z3.Real("datum_lowest"); DMAX = z3.Real("datum_max")
UF = {n: z3.Function("fn_" + n, R, R) for n in ("exp", "tanh", "sqrt", "log")}
POW = z3.Function("fn_pow", R, R, R)
BYTE = z3.Function("byte_of_datum", R, I, I)

class Engine:
    def __init__(self, prog, contract=None):
        self.prog = prog
        self.obls = []
        self.axioms = []
        self.init = {}
        self.blen = {}       # buffer id -> length term
        self.bty = {}        # buffer id -> element type
        self.shapes = {}
        self.handlers = {}   # qualified function name -> fn(engine, st, node, thisobj, args) -> value
        self.callpath = ()
        self.fname = ""
        self.C = contract
        self.nosafety = False
        self.collect = None  # dict while collecting loop modifications
        self.loopstack = []
        self.loopmods = {}
        self.qf = z3.Solver(); self.qf.set("timeout", 150)
        self.poly = False
        self.used_inline = set(); self.used_contract = set(); self.assumed = set()
        self.entry = None
        self.obl_seen = set()
        self.loopcount = 0
        self.frame_keys = None
        self.covers = []
        self.soa = {}; self.soavec = {}; self.heap = {}; self.ptrvec = {}; self.ptrbuf = {}   # objects whose fields live in arrays: oid -> (field -> array, index); vectors of such; classes allocated on a heap; vectors / arrays of pointers to them (as numbers, null = -1)
        self.rowbuf = {}   # arrays of pointers into one other array: the array pointed into (elements are offsets)
        self.load_hook = {}; self.store_hook = {}   # ghost code run when an element of the array is read / written
        self.families = {}; self.fam_seen = set()   # vectors of objects: callback giving the facts about the object at a symbolic index
        self.stmt_id = None
        self.omp = {}; self.par = None; self.parloops = []   # loops to be shown free of conflicts between iterations: loop node id -> clauses; the one being executed
        self._hv = {}       # forgotten values while collecting what a loop modifies
        self._pin = []      # keeps z3 terms whose ids are remembered alive

    # ------------------------------------------------------------ helpers
    def err(self, msg, n=None):
        loc = ""
        if n is not None:
            r = n.get("range", {}).get("begin", {})
            loc = " (%s @%s)" % (n.get("kind"), r.get("line") or r.get("offset"))
        raise ExtractionError("%s: %s%s" % (self.fname, msg, loc))

    def obl(self, st, goal, name, kind, n=None):
        if self.collect is not None: return
        if self.nosafety and kind == "safety": return
        g = z3.simplify(goal)
        if z3.is_true(g):
            # still count: discharged syntactically
            self.obls.append(Obl(name, [], g, kind))
            return
        self.obls.append(Obl(name, list(st.pc), goal, kind))

    def valid_qf(self, st, f):
        """cheap quantifier-free entailment used only to simplify wrap-around terms (never to discharge obligations)"""
        f = z3.simplify(f)
        if z3.is_true(f): return True
        if z3.is_false(f): return False
        self.qf.push()
        try:
            for p in self.axioms + st.pc:
                if not has_quant(p): self.qf.add(p)
            self.qf.add(z3.Not(f))
            return self.qf.check() == z3.unsat
        finally:
            self.qf.pop()

    # ------------------------------------------------------------ store
    def sort_of(self, ty):
        if ty.k == "int": return I
        if ty.k == "real": return R
        if ty.k == "bool": return B
        return None

    def rec(self, name):
        q = norm_rec(name)
        if q in self.prog.records: return q
        if "Conv::" + q in self.prog.records: return "Conv::" + q
        return q

    def lazy(self, key, ty):
        """initial (function entry) value of a location never written so far"""
        if key in self.init: return self.init[key]
        nm = keyname(key)
        if ty.k == "int" or (ty.k == "struct" and self.is_enum(ty)):
            v = z3.Int(nm)
            if ty.k == "int":
                if ty.sg: self.axioms.append(z3.And(v >= -(1 << (ty.w - 1)), v < (1 << (ty.w - 1))))
                else: self.axioms.append(z3.And(v >= 0, v < (1 << ty.w)))
            else: self.axioms.append(v >= 0)
        elif ty.k == "real":
            v = z3.Real(nm)
        elif ty.k == "bool":
            v = z3.Bool(nm)
        elif ty.k == "ptr":
            if ty.el.k in ("int", "real"):
                b = ("pbuf", key)
                self.newbuf(b, ty.el, z3.Int(nm + ".len"))
                self.axioms.append(z3.Int(nm + ".len") >= 0)
                v = PtrV("buf", b, IV(0), z3.Bool(nm + ".null"))
            elif ty.el.k in ("struct", "vector"):
                v = PtrV("obj", ("deref", key), IV(0), z3.Bool(nm + ".null"))
            elif ty.el.k == "ptr":
                v = PtrV("obj", ("deref", key), IV(0), z3.Bool(nm + ".null"))
            else:
                v = PtrV("obj", ("deref", key), IV(0), z3.Bool(nm + ".null"))
        else:
            v = Opaque(nm)
        self.init[key] = v
        return v

    def is_enum(self, ty):
        return ty.k == "struct" and self.enumtype(ty)

    def newbuf(self, b, ty, length):
        s = self.sort_of(ty)
        if s is None: s = I
        self.bty[b] = ty
        self.blen[b] = length
        key = ("b", b)
        if key not in self.init:
            self.init[key] = z3.Array(keyname(key), I, s)
        return b

    def rd(self, st, key, ty=None):
        if key in st.store: return st.store[key]
        if key in self.init: return self.init[key]
        return self.lazy(key, ty)

    def wr(self, st, key, v):
        st.store[key] = v
        if self.collect is not None: self.collect["keys"].add(key)

    def note(self, st, kind, b, pred):
        """an access made by an iteration of a parallel loop; pred: which cells (a formula over PAR_K)"""
        if self.par is not None and self.collect is None: self.par.acc.append((kind, b, pred, list(st.pc)))

    def arr(self, st, b):
        return self.rd(st, ("b", b))

    def wr_arr(self, st, b, idx, v):
        a = self.arr(st, b)
        self.note(st, "w", b, PAR_K == idx)
        if self.collect is not None: self.collect["writes"].setdefault(b, []).append(idx)
        if self.bty[b].k == "real": v = self.to_real(v)
        if self.collect is not None: self.collect.setdefault("vals", {}).setdefault(b, []).append((idx, v, list(st.pc)))
        self.wr(st, ("b", b), z3.Store(a, idx, v))

    def set_arr(self, st, b, a):
        self.note(st, "w", b, TRUE)
        if self.collect is not None: self.collect["writes"].setdefault(b, []).append(None)
        self.wr(st, ("b", b), a)

    # ------------------------------------------------------------ objects
    def field(self, st, oid, name, ty):
        if ty.k == "ref": ty = ty.el
        if ty.k in ("struct", "vector") and not self.is_enum(ty) and ty.k != "enum":
            if ty.k == "struct" and self.enumtype(ty): return LKey(("f", oid, name), T("int", 32, True))
            return StructV(("fld", oid, name), ty)
        if ty.k == "array":
            b = ("arrf", oid, name)
            if ("b", b) not in self.init:
                self.newbuf(b, ty.el, IV(int(ty.name)))
            return PtrV("buf", b, IV(0), FALSE)
        s = self.soa.get(oid)
        if s is not None and name in s[0]: return LElem(s[0][name], s[1], ty)
        return LKey(("f", oid, name), ty)

    # objects of a class on the heap: object number a, its fields at index a of the class's arrays
    def heap_class(self, st, cls, fields):
        al = ("alive", cls); self.newbuf(al, T("int", 32, True), IV(2 ** 62)); bufs = {}
        for f, ty in fields.items(): bufs[f] = self.newbuf(("heapfield", cls, f), ty, IV(2 ** 62))
        n0 = z3.Int("first_new_%s" % cls.split("::")[-1]); st.assume(n0 >= 0); self.init[("g", "$next", cls)] = n0; self.heap[cls] = (bufs, al, n0)
    def heapptr(self, cls, a):
        a = z3.simplify(a); oid = ("H", cls, str(a))
        if oid not in self.soa: self.soa[oid] = (self.heap[cls][0], a); self._pin.append(a)
        return PtrV("obj", oid, IV(0), FALSE)
    def heap_next(self, st, cls): return self.rd(st, ("g", "$next", cls), T("int", 64, True))
    def alive(self, st, oid): return self.arr(st, self.heap[oid[1]][1])[self.soa[oid][1]] == 1

    def enumtype(self, ty):
        q = ty.name or ""
        if not hasattr(self, "_enumset"):
            self._enumset = set()
            for t in self.prog.tus:
                for i, qn in t.qual.items():
                    if t.byid[i].get("kind") == "EnumDecl": self._enumset.add(qn)
        return q in self._enumset or ("Conv::" + q) in self._enumset

    def tensor(self, st, oid):
        return TensorView(self, st, oid)

    # ------------------------------------------------------------ numeric conversion
    def to_real(self, v):
        if is_int(v): return z3.ToReal(v)
        if is_bool(v): return z3.If(v, z3.RealVal(1), z3.RealVal(0))
        return v

    def to_int(self, v):
        if is_real(v):
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if is_bool(v): return z3.If(v, IV(1), IV(0))
        return v

    def to_bool(self, v, n=None):
        if isinstance(v, PtrV): return z3.Not(v.null)
        if is_bool(v): return v
        if is_int(v): return v != 0
        if is_real(v): return v != 0
        self.err("cannot convert to bool: %r" % (v,), n)

    def conv_int(self, st, v, src, dst):
        v = self.to_int(v)
        if dst.sg or src is None: 
            return v
        # to unsigned: exact wrap for possibly negative values
        if src.k == "int" and not src.sg and dst.w >= src.w: return v
        if src.k == "int" and src.sg:
            if z3.is_int_value(v):
                return IV(v.as_long() % (1 << dst.w))
            if self.valid_qf(st, v >= 0): return v
            return z3.If(v >= 0, v, v + (1 << dst.w))
        if src.k == "int" and dst.w < src.w:
            if z3.is_int_value(v): return IV(v.as_long() % (1 << dst.w))
            if dst.w <= 16:
                if self.valid_qf(st, z3.And(v >= 0, v < (1 << dst.w))): return v
                return v % (1 << dst.w)
            self.assumed.add("narrowing integer conversions keep their value (dimensions below 2^31)")
        return v

    # ------------------------------------------------------------ lvalues / expressions
    def inner(self, n):
        return [c for c in n.get("inner", ()) if c and "Comment" not in c.get("kind", "")]

    def ty(self, n): return ctype(n)

    def load(self, st, lv, n=None):
        if isinstance(lv, LKey): return self.rd(st, lv.key, lv.ty)
        if isinstance(lv, LElem):
            if lv.buf[0] == "repr":
                self.obl(st, z3.And(0 <= lv.idx, lv.idx < 4), "%s: byte of a value" % self.fname, "safety", n)
                v = BYTE(self.rd(st, lv.buf[1]), lv.idx); st.assume(z3.And(0 <= v, v < 256)); return v
            self.bounds(st, lv, n, "read")
            self.note(st, "r", lv.buf, PAR_K == lv.idx)
            if lv.buf in self.load_hook: self.load_hook[lv.buf](self, st, lv.idx, n)
            v = z3.Select(self.arr(st, lv.buf), lv.idx)
            if lv.buf in self.rowbuf: return PtrV("buf", self.rowbuf[lv.buf], v, FALSE)
            if lv.buf in self.ptrbuf: p = self.heapptr(self.ptrbuf[lv.buf], v); return PtrV("obj", p.target, IV(0), z3.simplify(v < 0))
            return v
        return lv

    def bounds(self, st, lv, n, what):
        if lv.buf[0] in ("heapfield", "alive"): return    # checked where the pointer is followed
        self.obl(st, z3.And(0 <= lv.idx, lv.idx < self.blen[lv.buf]),
                 "%s: %s of %s in bounds" % (self.fname, what, keyname(("b", lv.buf))), "safety", n)

    def store(self, st, lv, v, n=None):
        if isinstance(lv, LKey):
            t = lv.ty
            if t.k == "real": v = self.to_real(v)
            elif t.k == "bool" and not is_bool(v): v = self.to_bool(v, n)
            elif t.k == "int": v = self.to_int(v)
            self.wr(st, lv.key, v)
        elif isinstance(lv, LElem):
            self.bounds(st, lv, n, "write")
            if lv.buf in self.ptrbuf: v = IV(-1) if v.kind == "null" else z3.simplify(z3.If(v.null, IV(-1), self.soa[v.target][1]))
            elif self.bty[lv.buf].k not in ("int", "bool", "real") and isinstance(v, PtrV) and v.kind == "buf":
                if self.rowbuf.setdefault(lv.buf, v.target) != v.target: self.err("pointers into several arrays", n)
                self.obl(st, z3.Not(v.null), "%s: stored pointer not null" % self.fname, "safety", n); v = v.off
            if self.bty[lv.buf].k == "int": v = self.to_int(v)
            elif self.bty[lv.buf].k == "bool": v = self.to_bool(v, n)
            elif self.bty[lv.buf].k == "real": v = self.to_real(v)
            self.wr_arr(st, lv.buf, lv.idx, v)
            if lv.buf in self.store_hook: self.store_hook[lv.buf](self, st, lv.idx, v, n)
        else:
            self.err("store to %r" % (lv,), n)

    def deref(self, st, p, ty, n=None):
        if not isinstance(p, PtrV): self.err("deref of non pointer %r" % (p,), n)
        if p.kind == "null":
            self.obl(st, FALSE, "%s: null pointer dereference" % self.fname, "safety", n)
            raise Abort()
        self.obl(st, z3.Not(p.null), "%s: pointer %s not null" % (self.fname, keyname(p.target)), "safety", n)
        if p.kind == "buf": return LElem(p.target, p.off, ty)
        if p.kind == "key": return LKey(p.target, ty)
        if p.kind == "obj":
            if isinstance(p.target, tuple) and p.target[0] == "H": self.obl(st, self.alive(st, p.target), "%s: use of a freed object" % self.fname, "safety", n)
            if ty is not None and ty.k in ("ptr", "int", "real", "bool"):
                return LKey(("f", p.target, "$deref"), ty)
            return StructV(p.target, ty)
        self.err("deref", n)

    def is_stream(self, n):
        q = n.get("type", {}).get("qualType", "") + n.get("type", {}).get("desugaredQualType", "")
        return "basic_ostream" in q or "std::ostream" in q or "ostream_type" in q

    def ev(self, n, st):
        k = n["kind"]
        m = getattr(self, "ev_" + k, None)
        if m is None: self.err("unsupported expression " + k, n)
        return m(n, st)

    def rv(self, n, st):
        v = self.ev(n, st)
        if isinstance(v, (LKey, LElem)): v = self.load(st, v, n)
        return v

    def ev_ParenExpr(self, n, st): return self.ev(self.inner(n)[0], st)
    def ev_ExprWithCleanups(self, n, st): return self.ev(self.inner(n)[0], st)
    def ev_MaterializeTemporaryExpr(self, n, st): return self.ev(self.inner(n)[0], st)
    def ev_CXXBindTemporaryExpr(self, n, st): return self.ev(self.inner(n)[0], st)
    def ev_ConstantExpr(self, n, st): return self.ev(self.inner(n)[0], st)
    def ev_SubstNonTypeTemplateParmExpr(self, n, st): return self.ev(self.inner(n)[-1], st)
    def ev_CXXDefaultInitExpr(self, n, st): return self.ev(self.inner(n)[0], st)
    def ev_IntegerLiteral(self, n, st): return IV(int(n["value"]))
    def ev_CharacterLiteral(self, n, st): return IV(int(n["value"]))
    def ev_StringLiteral(self, n, st): return Opaque("str:" + n.get("value", ""))
    def ev_FloatingLiteral(self, n, st):
        v = n["value"]
        return literal(v, n.get("type", {}).get("qualType") == "float")
    def ev_CXXBoolLiteralExpr(self, n, st): return z3.BoolVal(bool(n["value"]))
    def ev_CXXNullPtrLiteralExpr(self, n, st): return NULLP
    def ev_GNUNullExpr(self, n, st): return NULLP
    def ev_ImplicitValueInitExpr(self, n, st):
        t = self.ty(n)
        return {"int": IV(0), "real": z3.RealVal(0), "bool": FALSE}.get(t.k, OPAQUE)
    def ev_CXXScalarValueInitExpr(self, n, st): return self.ev_ImplicitValueInitExpr(n, st)
    def ev_CXXThisExpr(self, n, st): return PtrV("obj", self.thisobj, IV(0), FALSE)

    def ev_UnaryExprOrTypeTraitExpr(self, n, st):
        at = n.get("argType")
        if at: t = parse_type(at.get("desugaredQualType") or at["qualType"])
        else: t = self.ty(self.inner(n)[0])
        return IV(self.sizeof(t, n))

    def sizeof(self, t, n=None):
        if t.k == "int": return t.w // 8
        if t.k == "real": return {"float": 4, "datum": 4, "Conv::datum": 4, "double": 8, "long double": 16}[t.name]
        if t.k == "ptr": return 8
        if t.k == "bool": return 1
        self.err("sizeof %r" % t, n)

    def varkey(self, d, st):
        """key of a variable by decl node id in the current frame"""
        return ("v", self.callpath, d)

    def ev_DeclRefExpr(self, n, st):
        r = n["referencedDecl"]; rid = r["id"]; rk = r["kind"]
        t = parse_type(r.get("type", {}).get("desugaredQualType") or r.get("type", {}).get("qualType", ""))
        if rk in ("VarDecl", "ParmVarDecl"):
            if (self.callpath, rid) in self.bind:
                return self.bind[(self.callpath, rid)]
            # global
            tu = self.tu
            g = tu.byid.get(rid)
            if g is not None and g.get("kind") == "VarDecl":
                init = [c for c in self.inner(g)]
                q = g.get("type", {}).get("qualType", "")
                if init and "const" in q and ctype(g).k in ("int", "real", "bool"):
                    return self.rv(init[0], st)
            if t.k == "ref": t = t.el
            name = r.get("name")
            if t.k in ("struct", "vector"): return StructV(("glob", name), t)
            return LKey(("g", name), t)
        if rk == "EnumConstantDecl":
            return IV(self.enumval(rid, r.get("name")))
        if rk in FUNCK: return ("func", rid, r)
        self.err("declref to " + rk, n)

    def enumval(self, rid, name):
        for i, nd in self.tu.byid.items():
            if nd.get("kind") == "EnumDecl":
                val = -1
                for c in nd.get("inner", ()):
                    if c and c.get("kind") == "EnumConstantDecl":
                        ini = [x for x in c.get("inner", ()) if x and "Comment" not in x.get("kind", "")]
                        if ini and "value" in ini[0]: val = int(ini[0]["value"])
                        elif ini and ini[0].get("inner"):
                            y = ini[0]
                            while "value" not in y and y.get("inner"): y = y["inner"][0]
                            val = int(y["value"]) if "value" in y else val + 1
                        else: val += 1
                        if c["id"] == rid: return val
        raise ExtractionError("enum constant " + name)

    def ev_MemberExpr(self, n, st):
        base = self.inner(n)[0]
        rm = n.get("referencedMemberDecl")
        nd = self.tu.byid.get(rm)
        if nd is not None and nd.get("kind") in FUNCK: return ("method", n, base)
        bv = self.ev(base, st)
        if isinstance(bv, (LKey, LElem)): bv = self.load(st, bv, n)
        if n.get("isArrow"):
            if not isinstance(bv, PtrV):
                self.err("arrow on %r" % (bv,), n)
            o = self.deref(st, bv, None, n)
            oid = o.oid if isinstance(o, StructV) else o
        else:
            if isinstance(bv, PtrV) and bv.kind == "obj": oid = bv.target
            elif isinstance(bv, StructV): oid = bv.oid
            else: self.err("member of %r" % (bv,), n)
        if nd is not None and nd.get("kind") == "VarDecl":
            t = ctype(nd)
            return LKey(("g", n["name"]), t)
        t = self.ty(n) if nd is None else ctype(nd)
        return self.field(st, oid, n["name"], t)

    def ev_ArraySubscriptExpr(self, n, st):
        a, b = self.inner(n)
        p = self.rv(a, st); i = self.rv(b, st)
        if isinstance(i, PtrV): p, i = i, p
        if not isinstance(p, PtrV): self.err("subscript of %r" % (p,), n)
        q = self.padd(p, i, n)
        return self.deref(st, q, self.ty(n), n)

    def padd(self, p, i, n=None):
        if p.kind != "buf":
            if p.kind == "obj": 
                ii = z3.simplify(p.off + i); o = ("idx", p.target, str(ii)); fam = self.families.get(p.target)
                if fam is not None and o not in self.fam_seen:
                    self.fam_seen.add(o); self._pin.append(ii); ax = State(); ax.pc = self.axioms
                    fam(self, ax, ii, o)
                return PtrV("obj", o, IV(0), p.null)
            self.err("pointer arithmetic on %r" % (p,), n)
        off = i if (z3.is_int_value(p.off) and p.off.as_long() == 0) else \
            (p.off if (z3.is_int_value(i) and i.as_long() == 0) else p.off + i)
        return PtrV("buf", p.target, off, p.null)

    def ev_ImplicitCastExpr(self, n, st): return self.cast(n, st)
    def ev_CStyleCastExpr(self, n, st): return self.cast(n, st)
    def ev_CXXStaticCastExpr(self, n, st): return self.cast(n, st)
    def ev_CXXFunctionalCastExpr(self, n, st): return self.cast(n, st)
    def ev_CXXConstCastExpr(self, n, st): return self.cast(n, st)
    def ev_CXXReinterpretCastExpr(self, n, st): return self.cast(n, st)
    def ev_CXXDynamicCastExpr(self, n, st): return self.cast(n, st)

    def cast(self, n, st):
        ck = n.get("castKind"); sub = self.inner(n)[0]
        if ck == "LValueToRValue":
            v = self.ev(sub, st)
            if isinstance(v, (LKey, LElem)): return self.load(st, v, n)
            return v
        if ck == "Dynamic" and "dynamic_cast" in self.handlers: return self.handlers["dynamic_cast"](self, st, n, self.rv(sub, st), self.ty(n))
        if ck in ("NoOp", "FunctionToPointerDecay", "UncheckedDerivedToBase", "DerivedToBase", "BaseToDerived", "ConstructorConversion",
                  "UserDefinedConversion", "BuiltinFnToFnPtr", "Dynamic"):
            return self.ev(sub, st)
        if ck == "ArrayToPointerDecay":
            v = self.ev(sub, st)
            return v
        if ck == "ToVoid":
            self.ev(sub, st); return OPAQUE
        if ck in ("NullToPointer",):
            return NULLP
        v = self.rv(sub, st)
        src, dst = self.ty(sub), self.ty(n)
        if ck == "IntegralCast":
            if isinstance(v, Opaque): self.err("opaque integral cast", n)
            return self.conv_int(st, v, src if src.k == "int" else (T("int", 32, True) if src.k != "bool" else T("int", 1, False)), dst)
        if ck == "IntegralToFloating": return self.to_real(v)
        if ck == "FloatingToIntegral":
            r = self.to_int(v)
            if not dst.sg and not self.valid_qf(st, v >= 0):
                self.assumed.add("float to unsigned conversions have non-negative operands")
            return r
        if ck == "FloatingCast": return v
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"): return self.to_bool(v, n)
        if ck == "BitCast":
            if isinstance(v, PtrV):
                if v.kind == "key" and dst.k == "ptr" and dst.el.k == "int" and dst.el.w == 8 and src.k == "ptr" and src.el.k == "real" and self.sizeof(src.el, n) == 4: return PtrV("buf", ("repr", v.target), IV(0), v.null)
                if v.kind == "buf" and dst.k == "ptr" and dst.el.k in ("int", "real"):
                    bt = self.bty[v.target]
                    if bt.k == "real" and dst.el.k == "int" and dst.el.w == 32:
                        b = ("bits", v.target)
                        return ("bitsptr", v)
                    if dst.el.k == "int" and dst.el.w == 8 and not (bt.k == "int" and bt.w == 8): return ("bytes", v)
                return v
            return v
        if ck == "PointerToIntegral" or ck == "IntegralToPointer":
            return v
        self.err("cast kind %s" % ck, n)

    def guard_ev(self, n, st, cond):
        """evaluate n under an extra guard (short-circuit operand); its effects happen only when the guard holds"""
        s2 = st.fork(); s2.pc.append(cond)
        before = dict(s2.store); npc = len(s2.pc)
        v = self.rv(n, s2)
        extra = s2.pc[npc:]
        if extra: st.pc.append(z3.Implies(cond, z3.And(extra)))
        for k2, v2 in s2.store.items():
            if k2 in before and before[k2] is v2: continue
            if k2[0] == "v" and k2[1] != self.callpath:
                st.store[k2] = v2
                continue
            if isinstance(v2, int): st.store[k2] = v2; continue
            old = before.get(k2, self.init.get(k2))
            if old is None:
                st.store[k2] = v2; continue
            st.store[k2] = self.ite(cond, v2, old, n)
        return v

    def ev_BinaryOperator(self, n, st):
        op = n["opcode"]; a, b = self.inner(n)
        if op == "=":
            bv = self.rv(b, st)
            lv = self.ev(a, st)
            if isinstance(lv, StructV):
                self.copy_struct(st, bv, lv, n); return lv
            self.store(st, lv, bv, n)
            return lv
        if op == ",":
            self.ev(a, st); return self.ev(b, st)
        if op in ("&&", "||"):
            x = self.to_bool(self.rv(a, st), n)
            y = self.to_bool(self.guard_ev(b, st, x if op == "&&" else z3.Not(x)), n)
            return z3.And(x, y) if op == "&&" else z3.Or(x, y)
        x = self.rv(a, st); y = self.rv(b, st)
        return self.binop(st, op, x, y, self.ty(n), n, self.ty(a))

    def binop(self, st, op, x, y, t, n, ta=None):
        if isinstance(x, PtrV) or isinstance(y, PtrV): return self.ptrop(st, op, x, y, n)
        if isinstance(x, Opaque) or isinstance(y, Opaque): 
            self.err("opaque operand of %s" % op, n)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if is_bool(x) and is_bool(y):
                return x == y if op == "==" else x != y
            if is_real(x) or is_real(y): x, y = self.to_real(x), self.to_real(y)
            else: x, y = self.to_int(x), self.to_int(y)
            return {"==": lambda: x == y, "!=": lambda: x != y, "<": lambda: x < y, ">": lambda: x > y,
                    "<=": lambda: x <= y, ">=": lambda: x >= y}[op]()
        if t.k == "real":
            x, y = self.to_real(x), self.to_real(y)
            if op == "+": return x + y
            if op == "-": return x - y
            if op == "*": return x * y
            if op == "/": return x / y
        if t.k in ("int", "bool"):
            x, y = self.to_int(x), self.to_int(y)
            if op == "+": 
                return x + y
            if op == "*": return x * y
            if op == "-":
                if t.sg: return x - y
                if self.valid_qf(st, x >= y): return x - y
                return z3.If(x >= y, x - y, x - y + (1 << t.w))
            if op in ("/", "%"):
                self.obl(st, y != 0, "%s: division by zero" % self.fname, "safety", n)
                if op == "/" and z3.is_int_value(y) and y.as_long() == 1: return x
                if op == "/" and z3.is_int_value(y):
                    s = strip_mul(x, y.as_long())
                    if s is not None: return s
                if t.sg and not (self.valid_qf(st, x >= 0) and self.valid_qf(st, y > 0)):
                    ax = z3.If(x >= 0, x, -x); ay = z3.If(y >= 0, y, -y)
                    q = z3.If((x >= 0) == (y >= 0), ax / ay, -(ax / ay))
                    return q if op == "/" else x - q * y
                return x / y if op == "/" else x % y
            if op in ("<<", ">>", "&", "|", "^"):
                sx, sy = z3.simplify(x), z3.simplify(y)
                x = sx if z3.is_int_value(sx) else x; y = sy if z3.is_int_value(sy) else y
            if op == "<<" and z3.is_int_value(y): 
                r = x * (1 << y.as_long())
                return IV(x.as_long() << y.as_long()) if z3.is_int_value(x) else r
            if op == ">>" and z3.is_int_value(y): return x / (1 << y.as_long())
            if op == "&" and z3.is_int_value(y):
                m = y.as_long()
                if m & (m + 1) == 0: return x % (m + 1)
                if z3.is_int_value(x): return IV(x.as_long() & m)
                if m > 0 and m & (m - 1) == 0: return x / m % 2 * m
            if z3.is_int_value(x) and z3.is_int_value(y):
                a, b = x.as_long(), y.as_long()
                return IV({"&": a & b, "|": a | b, "^": a ^ b, "<<": a << b if b < 64 else 0, ">>": a >> b}[op])
            if op in ("&", "|", "^") and t.k == "bool" or op in ("&", "|"):
                # boolean result &= ...
                bx, by = self.as01(x), self.as01(y)
                if bx is not None and by is not None:
                    return z3.If(z3.And(bx, by) if op == "&" else z3.Or(bx, by), IV(1), IV(0))
            if op in ("<<", ">>", "&", "|", "^") and self.collect is not None: return fresh("bits", I)   # only looking for what a loop changes
        self.err("operator %s on %r" % (op, t), n)

    def as01(self, x):
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            c = x.children()
            if z3.is_int_value(c[1]) and z3.is_int_value(c[2]) and c[1].as_long() == 1 and c[2].as_long() == 0: return c[0]
        if z3.is_int_value(x) and x.as_long() in (0, 1): return z3.BoolVal(x.as_long() == 1)
        return None

    def ptrop(self, st, op, x, y, n):
        for p, q in ((x, y), (y, x)):     # (void*) -1
            if isinstance(p, PtrV) and p.kind in ("buf", "obj") and z3.is_expr(q) and is_int(q) and z3.is_int_value(z3.simplify(q)) and z3.simplify(q).as_long() in (-1, 2 ** 64 - 1) and op in ("==", "!="): return z3.BoolVal(op == "!=")
        if op in ("==", "!="):
            if isinstance(x, PtrV) and isinstance(y, PtrV):
                if x.kind == "null" or y.kind == "null":
                    e = y.null if x.kind == "null" else x.null
                elif x.target == y.target and x.kind == y.kind: e = x.off == y.off
                else: e = FALSE if z3.is_false(x.null) or z3.is_false(y.null) else z3.And(x.null, y.null)
                return e if op == "==" else z3.Not(e)
        if op == "+":
            return self.padd(x, y, n) if isinstance(x, PtrV) else self.padd(y, x, n)
        if op == "-":
            if isinstance(y, PtrV):
                if x.target == y.target: return x.off - y.off
            else: return self.padd(x, -y, n)
        if op in ("<", ">", "<=", ">=") and isinstance(x, PtrV) and isinstance(y, PtrV) and x.target == y.target:
            return {"<": x.off < y.off, ">": x.off > y.off, "<=": x.off <= y.off, ">=": x.off >= y.off}[op]
        self.err("pointer operator %s %r %r" % (op, x, y), n)

    def ev_CompoundAssignOperator(self, n, st):
        op = n["opcode"][:-1]; a, b = self.inner(n)
        y = self.rv(b, st)
        lv = self.ev(a, st)
        x = self.load(st, lv, n)
        ct = parse_type(n.get("computeResultType", {}).get("desugaredQualType") or n.get("computeResultType", {}).get("qualType", "") or "int")
        if isinstance(x, PtrV): v = self.ptrop(st, op, x, y, n)
        else:
            if ct.k == "real": x2 = self.to_real(x)
            else: x2 = self.to_int(x)
            v = self.binop(st, op, x2, y, ct, n)
            tl = self.ty(a)
            if tl.k == "int" and ct.k == "int": v = self.conv_int(st, v, ct, tl)
            elif tl.k == "int" and ct.k == "real": v = self.to_int(v)
            elif tl.k == "bool": v = self.to_bool(v)
        self.store(st, lv, v, n)
        return lv

    def ev_UnaryOperator(self, n, st):
        op = n["opcode"]; sub = self.inner(n)[0]
        if op in ("++", "--"):
            lv = self.ev(sub, st); x = self.load(st, lv, n)
            if isinstance(x, PtrV): v = self.padd(x, IV(1 if op == "++" else -1), n)
            elif op == "++": v = x + 1
            else: v = self.binop(st, "-", x, IV(1), self.ty(n), n)
            self.store(st, lv, v, n)
            return x if n.get("isPostfix") else lv
        if op == "*":
            p = self.rv(sub, st)
            if isinstance(p, tuple) and p[0] == "bitsptr":
                lv = self.deref(st, p[1], self.ty(n), n)
                self.bounds(st, lv, n, "read"); self.note(st, "r", lv.buf, PAR_K == lv.idx)
                return BITS(z3.Select(self.arr(st, lv.buf), lv.idx))
            return self.deref(st, p, self.ty(n), n)
        if op == "&":
            lv = self.ev(sub, st)
            if isinstance(lv, LElem): return PtrV("buf", lv.buf, lv.idx, FALSE)
            if isinstance(lv, LKey): return PtrV("key", lv.key, IV(0), FALSE)
            if isinstance(lv, StructV): return PtrV("obj", lv.oid, IV(0), FALSE)
            self.err("address of %r" % (lv,), n)
        v = self.rv(sub, st)
        if op == "-":
            if is_real(v): return -v
            t = self.ty(n); v = self.to_int(v)
            if t.sg: return -v
            return self.conv_int(st, -v, T("int", t.w, True), t)
        if op == "!": return z3.Not(self.to_bool(v, n))
        if op == "+": return v
        self.err("unary " + op, n)

    def ev_ConditionalOperator(self, n, st):
        c, a, b = self.inner(n)
        cv = simp(self.to_bool(self.rv(c, st), n))
        if z3.is_true(cv): return self.rv(a, st)
        if z3.is_false(cv): return self.rv(b, st)
        x = self.guard_ev(a, st, cv); y = self.guard_ev(b, st, z3.Not(cv))
        return self.ite(cv, x, y, n)

    def ite(self, c, x, y, n=None):
        if isinstance(x, PtrV) and isinstance(y, PtrV):
            if x.kind == "null" and y.kind == "null": return x
            if x.kind == "null": return PtrV(y.kind, y.target, y.off, z3.simplify(z3.Or(c, y.null)))
            if y.kind == "null": return PtrV(x.kind, x.target, x.off, z3.simplify(z3.Or(z3.Not(c), x.null)))
            if x.kind == y.kind and x.target == y.target:
                off = x.off if x.off.eq(y.off) else z3.If(c, x.off, y.off)
                nl = x.null if x.null.eq(y.null) else z3.If(c, x.null, y.null)
                return PtrV(x.kind, x.target, off, nl)
            raise Unmergeable("pointers %r %r" % (x, y))
        if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
            if x.eq(y): return x
            if z3.is_app_of(x, z3.Z3_OP_STORE) and z3.is_app_of(y, z3.Z3_OP_STORE) and x.arg(0).eq(y.arg(0)) and x.arg(1).eq(y.arg(1)):
                return z3.Store(x.arg(0), x.arg(1), z3.If(c, x.arg(2), y.arg(2)))
            if x.sort() != y.sort():
                if is_real(x) or is_real(y): x, y = self.to_real(x), self.to_real(y)
                else: x, y = self.to_int(x), self.to_int(y)
            return z3.If(c, x, y)
        if isinstance(x, StructV) and isinstance(y, StructV) and x.oid == y.oid: return x
        if isinstance(x, Opaque) and isinstance(y, Opaque): return x
        if x is y: return x
        raise Unmergeable("%r %r" % (x, y))

    def ev_CXXNewExpr(self, n, st):
        t = self.ty(n)   # pointer type
        el = t.el
        if n.get("isArray"):
            cnt = self.to_int(self.rv(self.inner(n)[0], st))
            b = ("new", self.callpath, n["id"], self.newid(st))
            if el.k == "struct" and self.rec(el.name) in self.prog.records: return PtrV("obj", b, IV(0), FALSE)   # array of default constructed objects
            self.newbuf(b, el, cnt)
            self.alloc_event(st, "new[]", b)
            return PtrV("buf", b, IV(0), FALSE)
        oid = ("new", self.callpath, n["id"], self.newid(st))
        cls = self.rec(el.name) if el.k == "struct" else None
        if cls in self.heap:
            a = z3.simplify(self.heap_next(st, cls)); self.wr(st, ("g", "$next", cls), z3.simplify(a + 1))
            oid = self.heapptr(cls, a).target; self.wr_arr(st, self.heap[cls][1], a, IV(1))
        for c in self.inner(n):
            if c["kind"] == "CXXConstructExpr":
                self.construct(c, st, oid, el)
        return PtrV("obj", oid, IV(0), FALSE)

    def newid(self, st):
        k = ("g", "$alloc"); v = st.store.get(k, 0); st.store[k] = v + 1
        return v

    def alloc_event(self, st, what, b):
        pass

    def ev_CXXDeleteExpr(self, n, st):
        p = self.rv(self.inner(n)[0], st)
        if isinstance(p, PtrV) and p.kind == "obj" and isinstance(p.target, tuple) and p.target[0] == "H":
            self.obl(st, self.alive(st, p.target), "%s: object is freed once" % self.fname, "safety", n)
            self.wr_arr(st, self.heap[p.target[1]][1], self.soa[p.target][1], IV(0))
        return OPAQUE

    def ev_CXXConstructExpr(self, n, st):
        t = self.ty(n)
        subs = self.inner(n)
        if t.k == "struct" and self.rec(t.name) in self.prog.records:
            oid = ("tmp", self.callpath, n["id"])
            self.construct(n, st, oid, t)
            return StructV(oid, t)
        if len(subs) == 1:
            v = self.ev(subs[0], st)
            return v
        if t.k == "vector":
            oid = ("tmp", self.callpath, n["id"])
            self.wr(st, ("f", oid, "$size"), IV(0))
            return StructV(oid, t)
        return Opaque("construct " + str(t))
    ev_CXXTemporaryObjectExpr = ev_CXXConstructExpr

    def ev_CXXThrowExpr(self, n, st): raise Abort()
    def ev_InitListExpr(self, n, st):
        return Opaque("initlist")
    def ev_LambdaExpr(self, n, st):
        return Opaque("lambda")
    def ev_CXXDefaultArgExpr(self, n, st):
        subs = self.inner(n)
        if subs: return self.ev(subs[0], st)
        self.err("default argument without expression", n)

    def construct(self, n, st, oid, t):
        q = self.rec(t.name)
        args = self.inner(n)
        cands = [c for c in self.prog.byqual.get(q + "::" + q.split("::")[-1], []) if c["kind"] == "CXXConstructorDecl"]
        ctor_t = n.get("ctorType", {}).get("qualType")
        c2 = [c for c in cands if c.get("type", {}).get("qualType") == ctor_t] or \
             [c for c in cands if len(params(c)) == len(args)]
        h = self.handlers.get(q + "::" + q.split("::")[-1])
        if h is not None:
            av = [self.rv(a, st) if a["kind"] != "CXXDefaultArgExpr" else None for a in args]
            r = h(self, st, n, oid, av)
            if r is not NotImplemented:
                self.used_contract.add(q + " constructor"); return
        # in-class initializers first
        if len(c2) == 0:
            self.default_fields(st, q, oid)
            if len(args) == 1:  # implicit copy
                src = self.rv(args[0], st)
                if isinstance(src, StructV): self.copy_struct(st, src, StructV(oid, t), n)
            return
        self.default_fields(st, q, oid)
        node = c2[0]
        self.inline(node, st, n, oid, args)

    def default_fields(self, st, q, oid):
        fields = self.prog.all_fields(q) or {}
        for f, (ft, init, tu) in fields.items():
            if ft.k in ("int", "real", "bool", "ptr"):
                if init is not None:
                    old = self.tu; self.tu = tu
                    try: v = self.rv(init, st)
                    finally: self.tu = old
                    self.store(st, self.field(st, oid, f, ft), v)
            elif ft.k == "struct" and self.rec(ft.name) in self.prog.records and not self.enumtype(ft):
                self.default_fields(st, self.rec(ft.name), ("fld", oid, f))
            elif ft.k == "vector":
                self.wr(st, ("f", ("fld", oid, f), "$size"), IV(0))
            elif self.enumtype(ft) and init is not None:
                v = self.rv(init, st)
                self.store(st, LKey(("f", oid, f), T("int", 32, True)), v)

    def copy_struct(self, st, src, dst, n):
        if not isinstance(src, StructV): return
        q = self.rec((dst.ty or src.ty).name) if (dst.ty or src.ty) is not None and (dst.ty or src.ty).k == "struct" else None
        fields = self.prog.all_fields(q) if q else None
        if fields is None:
            return
        for f, (ft, init, tu) in fields.items():
            a = self.field(st, src.oid, f, ft); b = self.field(st, dst.oid, f, ft)
            if isinstance(a, LKey) and isinstance(b, LKey): self.wr(st, b.key, self.rd(st, a.key, a.ty))
            elif isinstance(a, (LKey, LElem)): self.store(st, b, self.load(st, a, n), n)
            elif isinstance(a, StructV): self.copy_struct(st, a, b, n)

    # ------------------------------------------------------------ calls
    def ev_CallExpr(self, n, st):
        subs = self.inner(n); callee = subs[0]; args = subs[1:]
        f = callee
        while f["kind"] in ("ImplicitCastExpr", "ParenExpr"): f = self.inner(f)[0]
        if f["kind"] == "DeclRefExpr":
            r = f["referencedDecl"]
            return self.call(n, st, r["id"], r.get("name"), None, args)
        if f["kind"] == "MemberExpr":
            return self.ev_CXXMemberCallExpr(n, st)
        self.err("call through expression", n)

    def ev_CXXMemberCallExpr(self, n, st):
        subs = self.inner(n); callee = subs[0]; args = subs[1:]
        f = callee
        while f["kind"] in ("ImplicitCastExpr", "ParenExpr"): f = self.inner(f)[0]
        if f["kind"] != "MemberExpr": self.err("member call", n)
        base = self.inner(f)[0]
        rm = f.get("referencedMemberDecl")
        nd = self.tu.byid.get(rm)
        if nd is None:
            return self.std_method(n, st, f, base, args)
        bv = self.rv(base, st)
        if f.get("isArrow"):
            o = self.deref(st, bv, None, n)
            oid = o.oid
        elif isinstance(bv, StructV): oid = bv.oid
        elif isinstance(bv, PtrV) and bv.kind == "obj": oid = bv.target
        else: self.err("member call on %r" % (bv,), n)
        return self.call(n, st, rm, f["name"], oid, args)

    def ev_CXXOperatorCallExpr(self, n, st):
        if self.is_stream(n): return OPAQUE
        subs = self.inner(n); callee = subs[0]; args = subs[1:]
        f = callee
        while f["kind"] in ("ImplicitCastExpr", "ParenExpr"): f = self.inner(f)[0]
        r = f["referencedDecl"]
        nd = self.tu.byid.get(r["id"])
        nm = r.get("name")
        if nd is not None and nd["kind"] == "CXXMethodDecl":
            if nm == "operator=" and (nd.get("isImplicit") or nd.get("explicitlyDefaulted")): return self.struct_assign(n, st, args)
            bv = self.rv(args[0], st)
            oid = bv.oid if isinstance(bv, StructV) else bv.target
            return self.call(n, st, r["id"], nm, oid, args[1:])
        if nm == "operator[]":
            bt = self.ty(args[0])
            bv = self.rv(args[0], st)
            i = self.rv(args[1], st)
            return self.vec_at(st, bv, i, self.ty(n), n)
        h = self.handlers.get("std::" + nm)
        if h is None and nm == "operator=": return self.struct_assign(n, st, args)
        if h: return h(self, st, n, None, args)
        self.err("operator call %s" % nm, n)

    def struct_assign(self, n, st, args):
        src = self.rv(args[1], st); dst = self.ev(args[0], st)
        if isinstance(dst, (LKey, LElem)) and isinstance(src, z3.ExprRef): self.store(st, dst, src, n)
        if isinstance(dst, StructV): self.copy_struct(st, src, dst, n)
        return dst

    def vec_at(self, st, bv, i, t, n):
        if t.k == "ref": t = t.el
        if not isinstance(bv, StructV): self.err("subscript of %r" % (bv,), n)
        size = self.rd(st, ("f", bv.oid, "$size"), T("int", 64, False))
        self.obl(st, z3.And(0 <= i, i < size), "%s: vector index in range" % self.fname, "safety", n)
        if t.k in ("int", "real"):
            b = ("vec", bv.oid)
            if ("b", b) not in self.init: self.newbuf(b, t, size)
            self.blen[b] = size
            return LElem(b, i, t)
        ii = z3.simplify(i)
        idx = str(ii)
        fam = self.families.get(bv.oid)
        if bv.oid in self.ptrvec: return self.heapptr(self.ptrvec[bv.oid], self.arr(st, ("vec", bv.oid))[ii])
        if t.k == "ptr":
            key = ("f", bv.oid, "[%s]" % idx)
            if fam is not None and key not in self.fam_seen:
                self.fam_seen.add(key); self._pin.append(ii)
                fam(self, st, ii, ("deref", key))
            return LKey(key, t)
        o2 = ("fld", bv.oid, "[%s]" % idx)
        if bv.oid in self.soavec and o2 not in self.soa: self.soa[o2] = (self.soavec[bv.oid], ii); self._pin.append(ii)
        if fam is not None and o2 not in self.fam_seen:
            self.fam_seen.add(o2); self._pin.append(ii)
            fam(self, st, ii, o2)
        return StructV(o2, t)

    def std_method(self, n, st, f, base, args):
        nm = f["name"]
        h = self.handlers.get("method:" + nm)
        if h is None and (self.is_stream(base) or nm in ("str", "c_str")): return Opaque(nm)
        bt = self.ty(base)
        bv = self.rv(base, st)
        if h:
            r = h(self, st, n, bv, args)
            if r is not NotImplemented: return r
        if isinstance(bv, PtrV): bv = self.deref(st, bv, None, n)
        if isinstance(bv, StructV) and (bv.ty is None or bv.ty.k == "vector" or bt.k == "vector"):
            key = ("f", bv.oid, "$size")
            if nm == "size": return self.rd(st, key, T("int", 64, False))
            if nm == "empty": return self.rd(st, key, T("int", 64, False)) == 0
            if nm == "push_back":
                v = self.rv(args[0], st)
                sz = z3.simplify(self.rd(st, key, T("int", 64, False)))
                if isinstance(v, z3.ExprRef):     # numbers: one array
                    b = ("vec", bv.oid); et = T("real", name="float") if is_real(v) else T("bool") if is_bool(v) else T("int", 64, True)
                    if ("b", b) not in self.init: self.newbuf(b, et, sz)
                    self.wr_arr(st, b, sz, v); self.blen[b] = sz + 1
                    self.wr(st, key, z3.simplify(sz + 1)); return OPAQUE
                if isinstance(v, PtrV) and v.kind == "obj" and isinstance(v.target, tuple) and v.target[0] == "H":   # pointers to heap objects: their numbers
                    b = ("vec", bv.oid)
                    if ("b", b) not in self.init: self.newbuf(b, T("int", 64, True), sz)
                    self.ptrvec[bv.oid] = v.target[1]; self.wr_arr(st, b, sz, self.soa[v.target][1]); self.blen[b] = sz + 1
                    self.wr(st, key, z3.simplify(sz + 1)); return OPAQUE
                if bv.oid in self.soavec:
                    if not isinstance(v, StructV): self.err("push_back of %r" % (v,), n)
                    for f, (ft, _, _) in self.prog.all_fields(self.rec(v.ty.name)).items():
                        self.wr_arr(st, self.soavec[bv.oid][f], sz, self.load(st, self.field(st, v.oid, f, ft), n))
                    self.wr(st, key, z3.simplify(sz + 1)); return OPAQUE
                self.wr(st, ("f", bv.oid, "[%s]" % sz), v)
                self.wr(st, key, z3.simplify(sz + 1))
                return OPAQUE
            if nm in ("at",):
                return self.vec_at(st, bv, self.rv(args[0], st), self.ty(n), n)
            if nm == "clear":
                self.wr(st, key, IV(0)); return OPAQUE
        if isinstance(bv, Opaque) or (isinstance(bv, StructV)):
            return Opaque(nm)
        self.err("std method " + nm, n)

    IGNORED = {"exit", "__assert_fail", "operator<<", "endl"}

    def call(self, n, st, rid, name, oid, args):
        nd = self.tu.byid.get(rid)
        if nd is None: return self.builtin(n, st, name, args)
        if nd.get("kind") in ("ParmVarDecl", "VarDecl") and "callptr" in self.handlers:   # call through a function pointer
            return self.handlers["callptr"](self, st, n, oid, [self.rv(a, st) for a in args])
        q = self.tu.qual.get(rid)
        h = self.handlers.get(q)
        if h is not None:
            av = []
            for i, a in enumerate(args):
                a = self.defarg(nd, i, a)
                av.append(self.rv(a, st))
            r = h(self, st, n, oid, av)
            if r is not NotImplemented:
                self.used_contract.add(q)
                return r
        m = nd.get("mangledName")
        node = self.prog.funcs.get(m)
        if node is None: self.err("no body for " + str(q), n)
        self.used_inline.add(q)
        return self.inline(node, st, n, oid, args, nd)

    def defarg(self, nd, i, a):
        if a["kind"] == "CXXDefaultArgExpr" and not self.inner(a):
            # the default is on some (re)declaration of the parameter
            for d in [nd] + [x for x in self.tu.byid.values() if x.get("kind") in FUNCK and x.get("mangledName") == nd.get("mangledName")]:
                ps = params(d)
                if i < len(ps):
                    ini = [c for c in ps[i].get("inner", ()) if c and "Comment" not in c.get("kind", "")]
                    if ini: return ini[0]
            self.err("default argument", nd)
        return a

    def inline(self, node, st, n, oid, args, decl=None):
        if len(self.callpath) > 12: self.err("inlining too deep", n)
        sid = (self.callpath, n["id"])
        is_stmt = self.stmt_id == sid; self.stmt_id = None
        ps = params(node)
        newpath = self.callpath + (n["id"],)
        binds = {}
        pre = []
        for i, p in enumerate(ps):
            if i < len(args): a = self.defarg(decl or node, i, args[i])
            else: self.err("argument count", n)
            pt = ctype(p)
            v = self.ev(a, st)
            if pt.k == "ref":
                if isinstance(v, (LKey, LElem)) and "const" in p["type"]["qualType"]:
                    v = self.load(st, v, a)
                binds[(newpath, p["id"])] = v
            else:
                if isinstance(v, (LKey, LElem)): v = self.load(st, v, a)
                pre.append((p, pt, v))
        oldp, oldt, oldtu, oldret, oldfn = self.callpath, getattr(self, "thisobj", None), self.tu, self.rettype, self.fname
        self.callpath = newpath; self.thisobj = oid if oid is not None else oldt
        self.tu = node["_tu"]
        self.rettype = parse_type((node["type"].get("desugaredQualType") or node["type"]["qualType"]).split("(")[0])
        self.bind.update(binds)
        try:
            for p, pt, v in pre:
                if isinstance(v, StructV):
                    self.bind[(newpath, p["id"])] = v; continue
                key = ("v", newpath, p["id"])
                self.bind[(newpath, p["id"])] = LKey(key, pt)
                self.store(st, LKey(key, pt), v) if pt.k in ("int", "real", "bool", "ptr") else st.store.__setitem__(key, v)
            for c in node["inner"]:
                if c and c.get("kind") == "CXXCtorInitializer": self.ctor_init(c, st, oid)
            outs = self.exec(body(node), st.fork())
        finally:
            self.callpath, self.thisobj, self.tu, self.rettype, self.fname = oldp, oldt, oldtu, oldret, oldfn
        res = None
        fin = []
        for kind, s, v in outs:
            if kind in ("n", "r"): fin.append((s, v))
            elif kind == "x": pass
            else: self.err("stray break/continue", n)
        if not fin: raise Abort()
        s, v = fin[0]
        try:
            for s2, v2 in fin[1:]:
                s, v = self.merge_ret(s, v, s2, v2, len(st.pc), n)
        except Unmergeable:
            if not is_stmt: raise
            raise ForkStates(sid, [s for s, _ in fin])
        st.store = s.store; st.pc = s.pc
        return v if v is not None else OPAQUE

    def ctor_init(self, c, st, oid):
        ai = c.get("anyInit"); 
        sub = self.inner(c)
        if ai is None or not sub: return
        fid = ai.get("id"); fn = ai.get("name")
        t = parse_type(ai["type"].get("desugaredQualType") or ai["type"]["qualType"])
        e = sub[0]
        if e["kind"] == "CXXDefaultInitExpr": return     # done by default_fields
        if t.k in ("int", "real", "bool", "ptr"):
            self.store(st, LKey(("f", oid, fn), t), self.rv(e, st))
        elif t.k == "struct" and self.enumtype(t):
            self.store(st, LKey(("f", oid, fn), T("int", 32, True)), self.rv(e, st))
        elif t.k == "struct" and self.rec(t.name) in self.prog.records:
            x = e
            while x["kind"] in ("ExprWithCleanups", "MaterializeTemporaryExpr", "ImplicitCastExpr"): x = self.inner(x)[0]
            if x["kind"] == "CXXConstructExpr": self.construct(x, st, ("fld", oid, fn), t)
        elif t.k == "struct" and e["kind"] == "CXXConstructExpr" and self.C is not None and self.C.member_init is not None:
            self.C.member_init(self, st, oid, fn, [self.rv(a, st) for a in self.inner(e) if a["kind"] != "CXXDefaultArgExpr"])

    def merge_ret(self, s, v, s2, v2, npc, n):
        c = z3.And(s.pc[npc:]) if len(s.pc) > npc else TRUE
        m = self.merge(s, s2, npc)
        if v is None or v2 is None: return m, (v if v is not None else v2)
        return m, self.ite(c, v, v2, n)

    def merge(self, s, s2, npc):
        """merge two states that share pc[:npc]"""
        e1, e2 = s.pc[npc:], s2.pc[npc:]
        c1 = z3.And(e1) if e1 else TRUE
        c2 = z3.And(e2) if e2 else TRUE
        m = State()
        m.pc = s.pc[:npc]
        # selector: first guard if complementary
        if e1 and e2 and z3.simplify(z3.Not(e1[0])).eq(z3.simplify(e2[0])):
            sel = e1[0]
            r1, r2 = e1[1:], e2[1:]
            if r1: m.pc.append(z3.Implies(sel, z3.And(r1)))
            if r2: m.pc.append(z3.Implies(z3.Not(sel), z3.And(r2)))
        else:
            sel = c1
            d = z3.Or(c1, c2)
            m.pc.append(d)
        for k in set(s.store) | set(s2.store):
            a = s.store.get(k); b = s2.store.get(k)
            if a is b: m.store[k] = a; continue
            if k[0] == "v" and (a is None or b is None): continue   # out of scope local
            if a is None: a = self.init.get(k)
            if b is None: b = self.init.get(k)
            if a is None or b is None:
                if k[0] == "g" and k[1] == "$alloc": m.store[k] = max(s.store.get(k, 0), s2.store.get(k, 0)); continue
                # object created in one branch only
                m.store[k] = a if a is not None else b
                continue
            if isinstance(a, int): m.store[k] = max(a, b); continue
            m.store[k] = self.ite(sel, a, b)
        return m

    def builtin(self, n, st, name, args):
        if name == "exit" or name == "abort" or name == "__assert_fail": raise Abort()
        h = self.handlers.get("std::" + name)
        if h: return h(self, st, n, None, args)
        if name in ("lowest",): return LOWEST
        if name == "max" and not args: return DMAX
        if name == "min" and not args:
            v = z3.Real("datum_min_positive")
            self.axioms.append(v > 0)
            return v
        if name == "infinity": return z3.Real("datum_inf")
        if name in ("sysconf",): return fresh(name, I)
        av = [self.rv(a, st) for a in args]
        if name in ("fabs", "abs", "fabsf"):
            return z3.If(av[0] >= 0, av[0], -av[0])
        if name in ("max", "fmax", "min", "fmin"):
            x, y = av
            if is_real(x) or is_real(y): x, y = self.to_real(x), self.to_real(y)
            return z3.If(x >= y, x, y) if name in ("max", "fmax") else z3.If(x <= y, x, y)
        if name in ("exp", "expf", "tanh", "sqrt", "log", "tanhf", "sqrtf", "logf"):
            return UF[name.rstrip("f") if name not in ("exp",) else "exp"](self.to_real(av[0]))
        if name in ("pow", "powf"): return POW(self.to_real(av[0]), self.to_real(av[1]))
        if name in ("memcpy", "memmove"): return self.memcpy(st, av, n)
        if name == "memset": return self.memset(st, av, n)
        if name in ("move", "forward"): return self.ev(args[0], st)
        if name in ("floor",): return z3.ToReal(z3.ToInt(av[0]))
        if name in ("munmap",): return fresh(name, I)
        self.err("unknown external function " + str(name), n)

    def untyped(self, p):
        return p[1] if isinstance(p, tuple) and p[0] in ("bytes", "bitsptr") else p

    def memcpy(self, st, av, n):
        d, s, nb = self.untyped(av[0]), self.untyped(av[1]), av[2]
        if d.kind != "buf" or s.kind != "buf": self.err("memcpy of non buffers", n)
        sz = self.sizeof(self.bty[d.target], n)
        cnt = strip_mul(nb, sz)
        if cnt is None:
            if sz == 1: cnt = nb
            else: cnt = nb / sz
        self.copy_range(st, d, s, cnt, n)
        return d

    def copy_range(self, st, d, s, cnt, n):
        D, S = self.arr(st, d.target), self.arr(st, s.target)
        self.note(st, "r", s.target, z3.And(s.off <= PAR_K, PAR_K < s.off + cnt)); self.note(st, "w", d.target, z3.And(d.off <= PAR_K, PAR_K < d.off + cnt))
        self.obl(st, z3.Implies(cnt > 0, z3.And(z3.Not(d.null), z3.Not(s.null))), "%s: memcpy pointers not null" % self.fname, "safety", n)
        self.obl(st, z3.Implies(cnt > 0, z3.And(d.off >= 0, d.off + cnt <= self.blen[d.target])), "%s: memcpy target in bounds" % self.fname, "safety", n)
        self.obl(st, z3.Implies(cnt > 0, z3.And(s.off >= 0, s.off + cnt <= self.blen[s.target])), "%s: memcpy source in bounds" % self.fname, "safety", n)
        if d.target == s.target:
            self.obl(st, z3.Or(cnt == 0, s.off + cnt <= d.off, d.off + cnt <= s.off), "%s: memcpy ranges disjoint" % self.fname, "safety", n)
        Nw = fresh("cpy", D.sort())
        i = z3.Int("i")
        st.assume(z3.ForAll([i], z3.Select(Nw, i) == z3.If(z3.And(d.off <= i, i < d.off + cnt), z3.Select(S, i - d.off + s.off), z3.Select(D, i)),
                            patterns=[z3.Select(Nw, i)]))
        if self.collect is not None: self.collect["writes"].setdefault(d.target, []).append(("range", d.off, cnt))
        self.wr(st, ("b", d.target), Nw)

    def memset(self, st, av, n):
        self.err("memset", n)

    def fill_range(self, st, b, lo, hi, val):
        D = self.arr(st, b); Nw = fresh("fill", D.sort()); i = z3.Int("i")
        st.assume(z3.ForAll([i], z3.Select(Nw, i) == z3.If(z3.And(lo <= i, i < hi), val, z3.Select(D, i)), patterns=[z3.Select(Nw, i)]))
        if self.collect is not None: self.collect["writes"].setdefault(b, []).append(None)
        self.wr(st, ("b", b), Nw)

    # ------------------------------------------------------------ statements
    def exec(self, n, st):
        k = n["kind"]
        m = getattr(self, "ex_" + k, None)
        if m: return m(n, st)
        # expression statement
        c = n
        while c["kind"] in ("ExprWithCleanups", "ParenExpr"): c = self.inner(c)[0]
        self.stmt_id = (self.callpath, c.get("id"))
        try:
            self.ev(n, st)
        except Abort:
            return [("x", st, None)]
        except ForkStates as fs:
            if fs.sid != (self.callpath, c.get("id")): raise
            return [("n", s, None) for s in fs.states]
        return [("n", st, None)]

    def ex_NullStmt(self, n, st): return [("n", st, None)]

    def ex_CompoundStmt(self, n, st):
        cur = [st]; done = []
        for c in self.inner(n):
            nxt = []
            for s in cur:
                for kind, s2, v in self.exec(c, s):
                    if kind == "n": nxt.append(s2)
                    else: done.append((kind, s2, v))
            cur = nxt
            if len(cur) > 1: cur = self.try_merge(cur)
            if not cur: break
        return [("n", s, None) for s in cur] + done

    def try_merge(self, sts):
        # merge states pairwise on longest common pc prefix
        out = [sts[0]]
        for s in sts[1:]:
            a = out[-1]
            np = 0
            while np < len(a.pc) and np < len(s.pc) and a.pc[np] is s.pc[np]: np += 1
            try:
                out[-1] = self.merge(a, s, np)
            except Unmergeable:
                out.append(s)
        if len(out) > 12: self.err("too many paths")
        return out

    def ex_DeclStmt(self, n, st):
        try:
            for d in self.inner(n):
                if d["kind"] != "VarDecl": continue
                self.decl(d, st)
        except Abort:
            return [("x", st, None)]
        return [("n", st, None)]

    def decl(self, d, st):
        t = ctype(d)
        if d.get("storageClass") == "static" and "const" not in d.get("type", {}).get("qualType", ""): self.err("static local variable", d)
        key = ("v", self.callpath, d["id"])
        init = self.inner(d)
        self.vname[key] = d.get("name")
        if t.k == "ref":
            v = self.ev(init[0], st)
            if isinstance(v, (LKey, LElem, StructV, PtrV)):
                self.bind[(self.callpath, d["id"])] = v
                return
            # reference to temporary
            t = t.el
            self.bind[(self.callpath, d["id"])] = LKey(key, t); st.store[key] = v
            return
        if t.k == "array":
            b = ("larr", self.callpath, d["id"])
            self.newbuf(b, t.el, IV(int(t.name)))
            self.bind[(self.callpath, d["id"])] = PtrV("buf", b, IV(0), FALSE)
            return
        if t.k in ("struct", "vector") and not self.enumtype(t):
            oid = ("loc", self.callpath, d["id"])
            self.bind[(self.callpath, d["id"])] = StructV(oid, t)
            if self.collect is not None: self.collect["locals"].add(oid)
            if t.k == "vector": self.wr(st, ("f", oid, "$size"), IV(0)); return
            if init and self.rec(t.name) in self.prog.records:
                e = init[0]
                while e["kind"] in ("ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr"): e = self.inner(e)[0]
                if e["kind"] == "CXXConstructExpr": self.construct(e, st, oid, t)
                else:
                    v = self.rv(e, st)
                    if isinstance(v, StructV): self.copy_struct(st, v, StructV(oid, t), d)
            elif init:
                h = self.handlers.get("decl:" + (t.name or ""))
                if h: h(self, st, d, oid, init)
            return
        self.bind[(self.callpath, d["id"])] = LKey(key, t if not self.enumtype(t) else T("int", 32, True))
        if init:
            v = self.rv(init[0], st)
            if t.k in ("int", "real", "bool"): self.store(st, LKey(key, t), v)
            else: self.wr(st, key, v)
        else:
            s = self.sort_of(t)
            self.wr(st, key, fresh(d.get("name", "v"), s) if s is not None else OPAQUE)

    def ex_IfStmt(self, n, st):
        subs = self.inner(n)
        if n.get("hasInit") or n.get("hasVar"): self.err("if with declaration", n)
        if mentions_log(subs[0]): return [("n", st, None)]
        try:
            c = simp(self.to_bool(self.rv(subs[0], st), n))
        except Abort:
            return [("x", st, None)]
        outs = []
        if self.collect is None and not z3.is_false(c) and not z3.is_true(c):
            # prune branches the (quantifier-free part of the) path condition excludes
            if self.valid_qf(st, c): st.pc.append(c); c = TRUE
            elif self.valid_qf(st, z3.Not(c)): st.pc.append(z3.Not(c)); c = FALSE
        if not z3.is_false(c):
            s1 = st.fork() if not z3.is_true(c) else st
            if not z3.is_true(c): s1.pc.append(c)
            outs += self.exec(subs[1], s1)
        if not z3.is_true(c):
            s2 = st.fork()
            if not z3.is_false(c): s2.pc.append(z3.Not(c))
            if len(subs) > 2: outs += self.exec(subs[2], s2)
            else: outs.append(("n", s2, None))
        normals = [s for k, s, v in outs if k == "n"]
        rest = [o for o in outs if o[0] != "n"]
        if len(normals) > 1: normals = self.try_merge(normals)
        return [("n", s, None) for s in normals] + rest

    def ex_ReturnStmt(self, n, st):
        subs = self.inner(n)
        if not subs: return [("r", st, None)]
        try:
            v = self.ev(subs[0], st)
        except Abort:
            return [("x", st, None)]
        if self.rettype is not None and self.rettype.k != "ref" and isinstance(v, (LKey, LElem)): v = self.load(st, v, n)
        if self.rettype is not None and self.rettype.k == "real" and isinstance(v, z3.ExprRef): v = self.to_real(v)
        return [("r", st, v)]
    def ex_BreakStmt(self, n, st): return [("b", st, None)]
    def ex_ContinueStmt(self, n, st): return [("c", st, None)]
    def ex_ForStmt(self, n, st):
        init, cv, cond, inc, bod = (n["inner"] + [None] * 5)[:5]
        if init:
            outs = self.exec(init, st)
            if len(outs) != 1 or outs[0][0] != "n": self.err("for init", n)
            st = outs[0][1]
        return self.loop(n, st, cond or None, inc or None, bod)
    def ex_WhileStmt(self, n, st):
        subs = self.inner(n)
        return self.loop(n, st, subs[0], None, subs[1])
    def ex_DoStmt(self, n, st): self.err("do loop", n)

    def ex_SwitchStmt(self, n, st):
        subs = self.inner(n)
        if len(subs) != 2 or subs[1]["kind"] != "CompoundStmt": self.err("switch with declaration", n)
        try: c = self.to_int(self.rv(subs[0], st))
        except Abort: return [("x", st, None)]
        stmts = []; labels = []
        for x in self.inner(subs[1]):
            while x["kind"] in ("CaseStmt", "DefaultStmt"):
                ch = self.inner(x)
                if x["kind"] == "CaseStmt":
                    if len(ch) != 2: self.err("case range", x)
                    labels.append((self.to_int(self.rv(ch[0], st)), len(stmts)))
                else: labels.append((None, len(stmts)))
                x = ch[-1]
            stmts.append(x)
        vals = [v for v, _ in labels if v is not None]
        none = z3.And([c != v for v in vals]) if vals else TRUE
        arms = {}
        for v, p in labels: arms.setdefault(p, []).append(none if v is None else c == v)
        if all(v is not None for v, _ in labels): arms.setdefault(len(stmts), []).append(none)
        outs = []; norm = []
        for p in sorted(arms):
            g = z3.simplify(z3.Or(arms[p]) if len(arms[p]) > 1 else arms[p][0])
            if z3.is_false(g): continue
            if self.collect is None and self.valid_qf(st, z3.Not(g)): continue
            s = st.fork()
            if not z3.is_true(g): s.pc.append(g)
            for kind, s2, v in (self.ex_CompoundStmt({"kind": "CompoundStmt", "inner": stmts[p:]}, s) if p < len(stmts) else [("n", s, None)]):
                if kind in ("n", "b"): norm.append(s2)
                else: outs.append((kind, s2, v))
        if len(norm) > 1: norm = self.try_merge(norm)
        return [("n", s, None) for s in norm] + outs

    def ex_CXXForRangeStmt(self, n, st):
        """range-for over a vector, as the equivalent index loop"""
        ds = [c for c in n["inner"] if c and c.get("kind") == "DeclStmt"]
        rng, var = ds[0]["inner"][0], ds[-1]["inner"][0]; bod = n["inner"][-1]
        v = self.rv(self.inner(rng)[0], st)
        if not isinstance(v, StructV): self.err("range-for over %r" % (v,), n)
        rid = n["id"] + "#i"; key = ("v", self.callpath, rid); u64 = {"qualType": "unsigned long"}
        self.bind[(self.callpath, rid)] = LKey(key, T("int", 64, False)); self.vname[key] = "#i"; self.wr(st, key, IV(0))
        ref = {"kind": "DeclRefExpr", "id": rid + "r", "type": u64, "referencedDecl": {"id": rid, "kind": "VarDecl", "name": "#i", "type": u64}}
        cond = {"kind": "BinaryOperator", "id": rid + "c", "opcode": "<", "type": {"qualType": "bool"}, "inner": [ref, {"kind": "RangeSize", "id": rid + "s", "vec": v, "type": u64}]}
        inc = {"kind": "UnaryOperator", "id": rid + "p", "opcode": "++", "type": u64, "inner": [ref]}
        el = {"kind": "RangeElem", "id": rid + "e", "vec": v, "ref": ref, "type": var["type"], "vt": ctype(var)}
        body = {"kind": "CompoundStmt", "id": rid + "b", "inner": [{"kind": "DeclStmt", "id": rid + "d", "inner": [dict(var, inner=[el])]}] + ([bod] if bod else [])}
        return self.loop(n, st, cond, inc, body)
    def ev_RangeSize(self, n, st): return self.rd(st, ("f", n["vec"].oid, "$size"), T("int", 64, False))
    def ev_RangeElem(self, n, st):
        lv = self.vec_at(st, n["vec"], self.rv(n["ref"], st), n["vt"], n)
        return lv if n["vt"].k == "ref" or isinstance(lv, StructV) else self.load(st, lv, n)

    def ex_OMPParallelForDirective(self, n, st):
        self.err("omp", n)

    def loop(self, n, st, cond, inc, bod):
        saved_bind = dict(self.bind)
        lid = (self.callpath, n["id"])
        if self.C is not None: self.C.before_loop(self, st)
        # ---- 1. modified keys (collect mode)
        mods = self.loop_mods(lid, n, st, cond, inc, bod)
        # concrete unrolling for loops with constant trip count
        un = self.try_unroll(n, st, cond, inc, bod)
        if un is not None: return un
        entry = st.fork()
        L = LoopCtx()
        L.node, L.id, L.eng = n, lid, self
        L.entry = entry; L.depth = len(self.loopstack); L.outer = self.loopstack[-1] if self.loopstack else None
        L.inc, L.cond = inc, cond
        L.ordinal = self.loop_ordinal(lid)
        par = self.omp.get(n["id"]) if self.collect is None and self.par is None else None
        L.mark = _ctr[0]; L.nax = len(self.axioms)
        # ---- havoc
        hst = st.fork()
        L.scal = {}; L.unknown = []
        for key in mods["keys"]:
            if key[0] == "v" and key[1] == self.callpath and key not in entry.store: continue   # loop-local
            if key[0] == "v" and key not in entry.store: continue
            if key == ("g", "$alloc"): continue
            if key[0] == "f" and key[1] in mods["locals"]: continue
            old = entry.store.get(key, self.init.get(key))
            if old is None: L.unknown.append(key); continue
            nm = "%s@%s" % (self.vname.get(key, keyname(key)), L.ordinal)
            if isinstance(old, z3.ExprRef):
                nv = fresh(nm, old.sort())
                hst.store[key] = nv
                L.scal[key] = (old, nv)
            elif isinstance(old, PtrV):
                if old.kind == "buf":
                    o = fresh(nm + ".off", I)
                    hst.store[key] = PtrV("buf", old.target, o, old.null)
                    L.scal[key] = (old, hst.store[key])
                else:
                    tgt = mods["ptrs"].get(key)
                    self.err("loop modifies pointer %s" % keyname(key), n)
            elif isinstance(old, Opaque): L.unknown.append(key)
            elif isinstance(old, int): pass
            else: self.err("loop modifies %s" % keyname(key), n)
        L.head = hst
        if self.collect is not None:
            self.collect["inner"] |= {(nv.off if isinstance(nv, PtrV) else nv).get_id() for (_, nv) in L.scal.values()}
            self._pin.append(L)
            if cond is not None:
                hst.pc.append(z3.Not(self.to_bool(self.rv(cond, hst), n)))
            return [("n", hst, None)]
        self.counter_info(L, hst, cond, inc)
        # unsigned/signed type ranges of modified integer scalars stay
        # ---- write addresses, for visited sets
        if self.collect is None:
            L.writes = self.loop_writes(L, n, hst, cond, inc, bod)
        else:
            L.writes = {}
        self.loopstack.append(L)
        try:
            invs0 = self.invariants(L, entry, "init")
            if self.collect is None:
                for nm, f in invs0:
                    self.obl(entry, f, "%s: loop %s invariant '%s' holds initially" % (self.fname, L.ordinal, nm), "invariant-init", n)
            for nm, f in self.invariants(L, hst, "assume"): hst.assume(f)
            for f in self.hints(L, hst): hst.assume(f)
            npc = len(hst.pc)
            c = self.to_bool(self.rv(cond, hst), n) if cond is not None else TRUE
            bst = hst.fork(); bst.pc.append(c)
            if par is not None: self.par = L; L.acc = []; L.clauses = par; L.bodypc = list(bst.pc); self.parloops.append(L)
            if self.collect is None: self.covers.append(("%s: loop %s body reachable" % (self.fname, L.ordinal), list(bst.pc)))
            outs = self.exec(bod, bst) if bod is not None else [("n", bst, None)]
            after = []; rets = []
            ends = []
            for kind, s, v in outs:
                if kind in ("n", "c"): ends.append(s)
                elif kind == "b": after.append(s)
                else: rets.append((kind, s, v))
            if len(ends) > 1: ends = self.try_merge(ends)
            for s in ends:
                if inc is not None: self.ev(inc, s)
                for f in self.end_hints(L, s): s.assume(f)
                for nm, f in self.invariants(L, s, "preserve"):
                    self.obl(s, f, "%s: loop %s invariant '%s' preserved" % (self.fname, L.ordinal, nm), "invariant-preserved", n)
            ex = hst.fork(); ex.pc.append(z3.Not(c))
            after.append(ex)
        finally:
            self.loopstack.pop()
            if par is not None: self.par = None
        outs = [("n", s, None) for s in (self.try_merge(after) if len(after) > 1 else after)] + rets
        return outs

    def loop_ordinal(self, lid):
        """stable dotted ordinal: position among loops of its function body / parent loop"""
        if not hasattr(self, "_ord"): self._ord = {}; self._ordn = {}
        if lid not in self._ord:
            par = self.loopstack[-1].ordinal if self.loopstack else ""
            c = self._ordn.get(par, 0); self._ordn[par] = c + 1
            self._ord[lid] = (par + "." if par else "L") + str(c)
        return self._ord[lid]

    def loop_mods(self, lid, n, st, cond, inc, bod):
        """locations the loop may modify: fixpoint over bodies run from a state where everything found so far is forgotten"""
        if lid in self.loopmods and not (self.collect is not None and self.collect.get("deep")):
            m = self.loopmods[lid]
        else:
            old = self.collect; sb = dict(self.bind); so, sc = self._snap()
            known = set(); first = True
            deep = old is not None and old.get("deep")
            if lid in self.loopmods: known = set(self.loopmods[lid]["keys"]); first = False
            while True:
                self.collect = {"keys": set(), "writes": {}, "locals": set(), "ptrs": {}, "inner": set(), "deep": deep}
                self._ord, self._ordn = dict(so), dict(sc)
                try:
                    s = st.fork()
                    for key in known:
                        v = s.store.get(key, self.init.get(key))
                        c0 = None
                        hk = (lid, key, str(v.sort()) if isinstance(v, z3.ExprRef) else "p")
                        if hk not in self._hv: self._hv[hk] = fresh("hv", v.sort() if isinstance(v, z3.ExprRef) else I)
                        if isinstance(v, z3.ExprRef): s.store[key] = c0 = self._hv[hk]
                        elif isinstance(v, PtrV) and v.kind == "buf":
                            c0 = self._hv[hk]; s.store[key] = PtrV("buf", v.target, c0, v.null)
                        if c0 is not None:
                            self.collect["inner"].add(c0.get_id()); self._pin.append(c0)
                    if cond is not None: self.rv(cond, s)
                    outs = self.exec(bod, s) if bod is not None else [("n", s, None)]
                    for kind, s2, v in outs:
                        if kind in ("n", "c") and inc is not None: self.ev(inc, s2)
                    m = self.collect
                finally:
                    self.collect = old; self.bind = sb; self._ord, self._ordn = so, sc
                if m["keys"] <= known and not first: break
                known |= m["keys"]; first = False
            m["keys"] = known
            if not deep or lid not in self.loopmods: self.loopmods[lid] = m
        if self.collect is not None:
            self.collect["keys"] |= m["keys"]; self.collect["locals"] |= m["locals"]; self.collect["inner"] |= m["inner"]
            for b, w in m["writes"].items(): self.collect["writes"].setdefault(b, []).extend(w)
        return m

    def _snap(self):
        if not hasattr(self, "_ord"): self._ord = {}; self._ordn = {}
        return dict(self._ord), dict(self._ordn)

    def loop_writes(self, L, n, hst, cond, inc, bod):
        """write addresses of the body, expressed with the loop-head constants (for visited-set templates)"""
        old = self.collect; sb = dict(self.bind); so, sc = self._snap()
        self.collect = {"keys": set(), "writes": {}, "locals": set(), "ptrs": {}, "inner": set(), "deep": True}
        try:
            s = hst.fork()
            if cond is not None: s.pc.append(self.to_bool(self.rv(cond, s)))
            self.exec(bod, s)
            L.inner = self.collect["inner"]; L.wvals = self.collect.get("vals", {})
            return self.collect["writes"]
        finally:
            self.collect = old; self.bind = sb; self._ord, self._ordn = so, sc

    def try_unroll(self, n, st, cond, inc, bod):
        """complete unrolling when the loop condition is decided by constants at every iteration (<= 8)"""
        if cond is None or inc is None: return None
        if not const_cond(cond, self, st): return None
        cur = st; outs_all = []
        for it in range(9):
            c = z3.simplify(self.to_bool(self.rv(cond, cur), n))
            if z3.is_false(c): return [("n", cur, None)] + outs_all
            if not z3.is_true(c) or it == 8: return None
            outs = self.exec(bod, cur)
            ends = [s for k, s, v in outs if k in ("n", "c")]
            outs_all += [o for o in outs if o[0] in ("r", "x")]
            if any(k == "b" for k, s, v in outs): return None
            if len(ends) > 1: ends = self.try_merge(ends)
            if len(ends) != 1: return None
            cur = ends[0]
            self.ev(inc, cur)
        return None

    # ---- counters
    def counter_info(self, L, hst, cond, inc):
        L.counter = None; L.cnt = None; L.cnt0 = None; L.dir = 1; L.name = None; L.step = None
        for key, (old, nv) in L.scal.items():
            pass
        keys = set()
        def incs(e):
            if e is None: return
            k = e["kind"]
            if k == "UnaryOperator" and e["opcode"] in ("++", "--"):
                keys.add((self.lkey(self.inner(e)[0]), 1 if e["opcode"] == "++" else -1, None))
            elif k == "CompoundAssignOperator" and e["opcode"] in ("+=", "-="):
                keys.add((self.lkey(self.inner(e)[0]), 1 if e["opcode"] == "+=" else -1, self.inner(e)[1]["id"]))
                L.stepnode = self.inner(e)[1]
            elif k == "BinaryOperator" and e["opcode"] == ",":
                for c in self.inner(e): incs(c)
            elif k in ("ExprWithCleanups", "ParenExpr"): incs(self.inner(e)[0])
        incs(inc)
        if inc is None and cond is not None:
            # while loop: counter is a scalar in the condition that the body changes
            pass
        L.counters = []
        for key, d, stp in keys:
            if key in L.scal:
                old, nv = L.scal[key]
                o2 = old.off if isinstance(old, PtrV) else old
                n2 = nv.off if isinstance(nv, PtrV) else nv
                L.counters.append((key, o2, n2, d, stp))
        if len(L.counters) >= 1:
            key, o2, n2, d, stp = L.counters[0]
            L.counter, L.cnt0, L.cnt, L.dir, L.name = key, o2, n2, d, self.vname.get(key)

    def lkey(self, e):
        while e["kind"] in ("ImplicitCastExpr", "ParenExpr"): e = self.inner(e)[0]
        if e["kind"] == "DeclRefExpr":
            b = self.bind.get((self.callpath, e["referencedDecl"]["id"]))
            if isinstance(b, LKey): return b.key
        if e["kind"] == "MemberExpr":
            sub = self.inner(e)[0]
            if sub["kind"] == "CXXThisExpr": return ("f", self.thisobj, e["name"])
        return None

    def cval(self, st, key):
        v = self.rd(st, key)
        return v.off if isinstance(v, PtrV) else v

    def bound_invs(self, L, st):
        """syntactic counter bounds: entry <= c and c <= max(entry, bound) from every conjunct of the condition"""
        out = []
        for key, o2, n2, d, stp in L.counters:
            c = self.cval(st, key)
            if stp is None:
                out.append(("counter range", c >= o2 if d > 0 else c <= o2))
            elif L.counter == key:
                s2 = self.rv(L.stepnode, L.head)
                out.append(("counter range", z3.Implies(s2 >= 0, c >= o2) if d > 0 else z3.Implies(s2 >= 0, c <= o2)))
        # bounds from condition
        def conj(e):
            while e["kind"] in ("ParenExpr", "ExprWithCleanups"): e = self.inner(e)[0]
            if e["kind"] == "BinaryOperator" and e["opcode"] == "&&":
                a, b = self.inner(e); return conj(a) + conj(b)
            return [e]
        if L.cond is not None:
            for e in conj(L.cond):
                if e["kind"] != "BinaryOperator" or e["opcode"] not in ("<", "<=", ">", ">=", "!="): continue
                a, b = self.inner(e)
                op = e["opcode"]
                for x, y, op2 in ((a, b, op), (b, a, {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "!=": "!="}[op])):
                    k = self.lkey(x)
                    if k is None: continue
                    for key, o2, n2, d, stp in L.counters:
                        if key != k or stp is not None: continue
                        old = self.collect; self.collect = {"keys": set(), "writes": {}, "locals": set(), "ptrs": {}, "inner": set()}
                        try: bv = self.rv(y, L.head.fork())
                        finally: self.collect = old
                        if isinstance(bv, PtrV): bv = bv.off
                        if mentions(bv, [nv.off if isinstance(nv, PtrV) else nv for (_, nv) in L.scal.values()]): continue
                        c = self.cval(st, key)
                        if L.counter == key: L.bound = bv
                        if d > 0 and op2 in ("<", "!="): out.append(("counter bound", z3.Or(c <= bv, c == o2)))
                        elif d > 0 and op2 == "<=": out.append(("counter bound", z3.Or(c <= bv + 1, c == o2)))
                        elif d < 0 and op2 in (">", "!="): out.append(("counter bound", z3.Or(c >= bv, c == o2)))
                        elif d < 0 and op2 == ">=": out.append(("counter bound", z3.Or(c >= bv - 1, c == o2)))
        # lock-step counters
        if len(L.counters) > 1:
            k0, o0, n0, d0, s0 = L.counters[0]
            for key, o2, n2, d, stp in L.counters[1:]:
                if stp is None and s0 is None:
                    out.append(("lock-step", (self.cval(st, key) - o2) * d == (self.cval(st, k0) - o0) * d0))
        return out

    def invariants(self, L, st, phase):
        out = self.bound_invs(L, st)
        if self.collect is not None: return []
        for b in L.writes:
            spec = self.cells.get(b)
            if spec is None: continue
            out += spec.loop_inv(L, st)
        for b, w in L.writes.items():
            if b not in self.cells and b in self.keepframe: pass
        if self.C is not None:
            out += self.C.loop_inv(self, L, st) or []
        return out

    def hints(self, L, st):
        if self.C is None or self.collect is not None: return []
        return self.C.hints(self, L, st) or []
    def end_hints(self, L, st):
        if self.C is None or self.collect is not None: return []
        return self.C.end_hints(self, L, st) or []

    def accs(self, L, st, sort):
        """current values of the non-counter scalars of one sort the loop changes, by name order (contracts do not name locals)"""
        cs = {c[0] for c in L.counters}
        ks = [k for k, (o, nv) in L.scal.items() if k not in cs and isinstance(nv, z3.ExprRef) and nv.sort() == sort]
        ks.sort(key=lambda k: (self.vname.get(k) or keyname(k)))
        return [self.rd(st, k) for k in ks]

    # ------------------------------------------------------------ local access by name (for contracts)
    def local(self, st, name):
        """value of the innermost live local called `name` in the current frame"""
        best = None
        for key in st.store:
            if key[0] == "v" and self.vname.get(key) == name:
                best = st.store[key]
        if best is None: raise ExtractionError("%s: contract refers to local '%s' which does not exist" % (self.fname, name))
        return best

    # ------------------------------------------------------------ entry
    def begin(self, node, oid="this"):
        self.tu = node["_tu"]; self.callpath = (); self.thisobj = oid
        self.rettype = parse_type((node["type"].get("desugaredQualType") or node["type"]["qualType"]).split("(")[0])
        self.fname = self.tu.qual[node["id"]].replace("Conv::", "")
        self.bind = {}; self.vname = {}; self.cells = {}; self.keepframe = set()
        self.node = node
        st = State()
        self.param = {}
        for p in params(node):
            t = ctype(p); nm = p.get("name", "?")
            if t.k == "ref": t = t.el
            elif t.k in ("int", "real", "bool", "ptr"):
                key = ("v", (), p["id"])
                self.bind[((), p["id"])] = LKey(key, t)
                self.vname[key] = nm
                ik = ("p", nm)
                v = self.lazy(ik, t)
                self.init[key] = v
                st.store[key] = v
                self.param[nm] = v
                continue
            if t.k in ("struct", "vector") and not self.enumtype(t):
                o = StructV(("param", nm), t); self.bind[((), p["id"])] = o; self.param[nm] = o
            else:
                tt = t if not self.enumtype(t) else T("int", 32, True)
                key = ("p", nm); self.bind[((), p["id"])] = LKey(key, tt); self.param[nm] = self.lazy(key, tt)
        return st

    def run(self, node, st):
        if node["kind"] == "CXXConstructorDecl":
            q = self.tu.qual[node["id"]].rsplit("::", 1)[0]
            try:
                self.default_fields(st, q, self.thisobj)
                for c in node["inner"]:
                    if c and c.get("kind") == "CXXCtorInitializer": self.ctor_init(c, st, self.thisobj)
            except Abort: return []
        outs = self.exec(body(node), st)
        return [(k, s, v) for k, s, v in outs if k in ("n", "r")]

class Unmergeable(Exception):
    pass

class ForkStates(Exception):
    def __init__(self, sid, states): self.sid, self.states = sid, states

def simp(c):
    """simplification that keeps the shape of real products (the solver's normal form multiplies them out)"""
    q = z3.simplify(c)
    if z3.is_true(q) or z3.is_false(q): return q
    from solve import nonlinear
    return c if nonlinear([c]) else q

def literal(v, single):
    """the decimal the programmer wrote (shortest one that denotes the same machine number)"""
    import struct
    from fractions import Fraction
    x = float(v); t = repr(x)
    if single:
        f32 = lambda y: struct.unpack("f", struct.pack("f", y))[0]
        for p in range(1, 12):
            c = "%.*g" % (p, x)
            if f32(float(c)) == f32(x): t = c; break
    q = Fraction(t)
    return z3.RealVal("%d/%d" % (q.numerator, q.denominator)) if q.denominator != 1 else z3.RealVal(q.numerator)

BITS = z3.Function("float_bits", R, I)

def has_quant(f):
    todo = [f]; seen = set()
    while todo:
        e = todo.pop()
        if z3.is_quantifier(e): return True
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_app(e): todo.extend(e.children())
    return False

def mentions(e, consts):
    ids = {c.get_id() for c in consts if isinstance(c, z3.ExprRef)}
    if not isinstance(e, z3.ExprRef): return False
    todo = [e]; seen = set()
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in ids: return True
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x): todo.extend(x.children())
        elif z3.is_quantifier(x): todo.append(x.body())
    return False

def strip_mul(x, c):
    """x/c when x is syntactically c*y"""
    x = z3.simplify(x) if False else x
    if z3.is_int_value(x):
        return IV(x.as_long() // c) if x.as_long() % c == 0 else None
    if c == 1: return x
    if z3.is_app_of(x, z3.Z3_OP_MUL):
        ch = x.children()
        for i, y in enumerate(ch):
            s = strip_mul(y, c) if (z3.is_int_value(y) or z3.is_app_of(y, z3.Z3_OP_MUL)) else None
            if s is not None:
                rest = ch[:i] + ch[i + 1:]
                r = s
                for z in rest: r = z if (z3.is_int_value(r) and r.as_long() == 1) else r * z
                return r
    return None

def mentions_log(n):
    if n.get("kind") == "MemberExpr" and n.get("name") == "log_level": return True
    if n.get("kind") == "DeclRefExpr" and n.get("referencedDecl", {}).get("name") == "log_level": return True
    return any(mentions_log(c) for c in n.get("inner", ()) if c)

def const_cond(cond, eng, st):
    """condition decided now? (cheap pre-test for unrolling)"""
    old = eng.collect; eng.collect = {"keys": set(), "writes": {}, "locals": set(), "ptrs": {}, "inner": set()}
    try:
        c = z3.simplify(eng.to_bool(eng.rv(cond, st.fork())))
        return z3.is_true(c) or z3.is_false(c)
    except Exception:
        return False
    finally:
        eng.collect = old

def keyname(key):
    if isinstance(key, tuple):
        if key and key[0] == "v" : return "v%s" % (str(key[2])[-5:] if len(key) > 2 else "")
        if key and key[0] == "f": return "%s.%s" % (keyname(key[1]), key[2])
        if key and key[0] == "fld": return "%s.%s" % (keyname(key[1]), key[2])
        if key and key[0] == "deref": return "(*%s)" % keyname(key[1])
        if key and key[0] == "b": return "mem[%s]" % keyname(key[1])
        if key and key[0] == "pbuf": return keyname(key[1])
        if key and key[0] == "p": return key[1]
        if key and key[0] == "param": return key[1]
        return "_".join(keyname(k) if isinstance(k, tuple) else str(k) for k in key)
    return str(key)

class TensorView:
    """fields of a Conv::Tensor object in a state"""
    def __init__(self, eng, st, oid):
        self.e, self.st, self.oid = eng, st, oid
    def f(self, name, ty): return self.e.rd(self.st, ("f", self.oid, name), ty)
    @property
    def w(self): return self.f("width_", T("int", 64, False))
    @property
    def h(self): return self.f("height_", T("int", 64, False))
    @property
    def M(self): return self.f("maps_", T("int", 64, False))
    @property
    def S(self): return self.f("samples_", T("int", 64, False))
    @property
    def N(self): return self.f("elements_", T("int", 64, False))
    @property
    def ptr(self): return self.f("data_ptr_", T("ptr", el=T("real", name="float")))
    @property
    def buf(self): return self.ptr.target
    @property
    def a(self): return self.e.arr(self.st, self.buf)
    @property
    def shape(self): return Shape(self.w, self.h, self.M, self.S, self.N)
    def at(self, x, y, m, s): return z3.Select(self.a, self.shape.off(x, y, m, s))
