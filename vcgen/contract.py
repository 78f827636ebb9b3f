"""Contract layer: cell-wise array specifications, tensor well-formedness, callee contracts shared by all properties."""
import z3
from sym import *
from cast import *

def comps_of(sh, idx, flat):
    """address components of a write address; None if not an off() application of this shape"""
    if flat or sh is None: return [idx]
    if z3.is_app(idx) and idx.decl().eq(off_f):
        ch = idx.children()
        if ch[0].eq(sh.w) and ch[1].eq(sh.h) and ch[2].eq(sh.M): return ch[3:]
    return None

def contains_ids(e, ids):
    todo = [e]; seen = set()
    while todo:
        x = todo.pop(); i = x.get_id()
        if i in ids: return True
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x): todo.extend(x.children())
    return False

class Cells:
    """Specification of one array: after the function, cell i with D(i) satisfies R(i, state); every other cell is unchanged.

    The loop invariants are derived from it: in the loop's own write set the cells already visited satisfy R, the
    others still hold what the array held when the loop started."""
    def __init__(self, eng, buf, shape, D, R, name=None, flat=False, extra=None):
        self.e, self.b, self.sh, self.D, self.R, self.flat = eng, buf, shape, D, R, flat
        self.name = name or keyname(("b", buf))
        self.extra = extra

    def icomps(self, i):
        if self.flat or self.sh is None: return [i]
        return [self.sh.ux(i), self.sh.uy(i), self.sh.um(i), self.sh.us(i)]

    def visited(self, L, st, i):
        """formula: cell i has been written by iterations of L completed in state st"""
        alts = []; seen = set()
        heads = {}
        for key, (old, nv) in L.scal.items():
            n2 = nv.off if isinstance(nv, PtrV) else nv
            heads[n2.get_id()] = (key, n2, old.off if isinstance(old, PtrV) else old)
        inner = L.inner
        for w in L.writes[self.b]:
            if w is None: raise ExtractionError("array %s is overwritten as a whole in a loop" % self.name)
            rng = None
            if isinstance(w, tuple): 
                rng = w; idx = w[1]
            else: idx = w
            cs = comps_of(self.sh, idx, self.flat)
            if cs is None: raise ExtractionError("write address %s of %s not understood" % (idx, self.name))
            ic = self.icomps(i)
            conj = []
            for c, q in zip(cs, ic):
                if rng is not None and not self.flat and z3.is_int_value(c) and c.as_long() == 0: continue
                if contains_ids(c, inner): continue
                hs = [h for h in heads if contains_ids(c, {h})]
                if hs:
                    sub0 = [(heads[h][1], heads[h][2]) for h in hs]
                    subc = [(heads[h][1], self.e.cval(st, heads[h][0])) for h in hs]
                    lo = z3.substitute(c, *sub0); cu = z3.substitute(c, *subc)
                    if L.dir > 0: conj += [lo <= q, q < cu]
                    else: conj += [cu < q, q <= lo]
                else: conj.append(q == c)
            f = z3.And(conj) if conj else TRUE
            f = z3.simplify(f)
            if f.get_id() not in seen:
                seen.add(f.get_id()); alts.append(f); self.e._pin.append(f)
        return z3.Or(alts) if len(alts) > 1 else (alts[0] if alts else FALSE)

    def loop_inv(self, L, st):
        i = z3.Int("i")
        A = self.e.arr(st, self.b); A0 = self.e.arr(L.entry, self.b)
        body = z3.If(z3.And(self.D(i), self.visited(L, st, i)), self.R(i, st), z3.Select(A, i) == z3.Select(A0, i))
        pats = [z3.Select(A, i)] if z3.is_const(A) else []
        return [("cells of %s" % self.name, z3.ForAll([i], body, patterns=pats) if pats else z3.ForAll([i], body))]

    def post(self, st, A0=None):
        i = z3.Int("i")
        A = self.e.arr(st, self.b)
        if A0 is None: A0 = self.e.init[("b", self.b)]
        return z3.ForAll([i], z3.If(self.D(i), self.R(i, st), z3.Select(A, i) == z3.Select(A0, i)))

# ---------------------------------------------------------------- callee contracts
def h_offset(eng, st, n, oid, av):
    tv = TensorView(eng, st, oid)
    x, y, m, s = av
    sh = tv.shape
    reg_shape(eng, sh)
    eng.obl(st, sh.inr(x, y, m, s), "%s: Tensor::Offset arguments inside the tensor" % eng.fname, "precondition", n)
    return sh.off(x, y, m, s)

def reg_shape(eng, sh):
    k = sh.key()
    if k not in eng.shapes:
        eng.shapes[k] = sh
        for a in sh.axioms(): eng.axioms.append(a)
        if getattr(eng, "want_ranges", False):
            for a in range_axioms(sh): eng.axioms.append(a)

def range_axioms(sh):
    """derived from the polynomial layout (lemmas C01.L4/L5): samples and maps occupy contiguous ranges"""
    i = z3.Int("i"); V = vol3(sh)
    return [z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < sh.N), z3.And(sh.us(i) * V <= i, i < (sh.us(i) + 1) * V)), patterns=[sh.us(i)])]

def vol3(sh): return sh.w * sh.h * sh.M

def wf_tensor(eng, st, oid, nonempty=False, exact=True):
    """class invariant of Tensor: dimensions consistent with the buffer, pointer valid when elements exist"""
    tv = TensorView(eng, st, oid)
    p = tv.ptr
    sh = tv.shape
    reg_shape(eng, sh)
    eng.axioms.append(eng.blen[p.target] == sh.N if exact else eng.blen[p.target] >= sh.N)
    st.assume(z3.Implies(sh.N > 0, z3.Not(p.null)))
    if nonempty: st.assume(sh.N > 0)
    return tv

class Fn:
    """one function under contract"""
    qual = None; nparams = None; props = ()
    want_ranges = False
    engine = None
    poly = False
    def node(self, prog): return prog.find(self.qual, self.nparams)
    def label(self): return (self.qual or "").replace("Conv::", "")
    def pre(self, e, st): pass
    def post(self, e, st, ret, kind): pass
    def loop_inv(self, e, L, st): return []
    def hints(self, e, L, st): return []
    def before_loop(self, e, st): pass
    member_init = None     # (e, st, object, member, arguments): construction of a member of a library type
    def end_hints(self, e, L, st): return []
    def handlers(self): return {}
    expect_paths = True

    # helpers for contracts
    def field(self, e, st, oid, name, ty): return e.rd(st, ("f", oid, name), ty)
    def layer_tensor(self, e, st, member, which):
        """oid of this->member->which, e.g. input_->data"""
        f = e.rd(st, ("f", "this", member), T("ptr", el=T("struct", name="CombinedTensor")))
        st.assume(z3.Not(f.null))
        return ("fld", f.target, which)

U32 = T("int", 32, False); U64 = T("int", 64, False); I32 = T("int", 32, True); RL = T("real", name="float"); BL = T("bool")

def default_handlers(fn):
    h = {}
    if not fn.poly: h["Conv::Tensor::Offset"] = h_offset
    return h

def verify(prog, fn):
    """generate every obligation of one function; returns the engine"""
    node = fn.node(prog)
    e = (fn.engine or Engine)(prog, fn)
    e.want_ranges = fn.want_ranges
    e.handlers.update(default_handlers(fn))
    e.handlers.update(fn.handlers())
    st = e.begin(node)
    fn.e = e
    fn.pre(e, st)
    e.entry = st.fork()
    e.covers.append(("%s: precondition satisfiable" % fn.label(), list(st.pc)))
    outs = e.run(node, st)
    if fn.expect_paths and not outs: raise ExtractionError("%s has no returning path" % fn.label())
    for kind, s, v in outs:
        e.covers.append(("%s: a returning path is reachable" % fn.label(), list(s.pc)))
        fn.post(e, s, v, kind)
    return e

def post(e, st, goal, name):
    e.obl(st, goal, "%s: post: %s" % (e.fname, name), "postcondition")

def norm_ast(n, out, depth=0):
    """AST without locations, ids and comments: what the code says, not where it stands"""
    k = n.get("kind", "")
    if "Comment" in k: return
    rd = n.get("referencedDecl") or {}
    out.append("(%s|%s|%s|%s|%s|%s|%s" % (k, n.get("name", ""), n.get("opcode", ""), n.get("value", ""), n.get("castKind", ""),
               (n.get("type") or {}).get("qualType", ""), rd.get("name", "")))
    for c in n.get("inner", ()):
        if c: norm_ast(c, out, depth + 1)
        else: out.append("-")
    out.append(")")

def fingerprint(prog, fn, e):
    import hashlib
    out = []
    norm_ast(fn.node(prog), out)
    for q in sorted(e.used_inline):
        for n in prog.byqual.get(q, []): norm_ast(n, out)
    return hashlib.sha1("".join(out).encode()).hexdigest()
