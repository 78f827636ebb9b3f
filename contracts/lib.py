"""Shared vocabulary of the contracts."""
import z3
from contract import *
from sym import *

i_ = z3.Int("i")
TSRC = ["src/util/Tensor.cpp"]

def inN(sh): return lambda i: z3.And(0 <= i, i < sh.N)

def poly_off(sh, x, y, m, s): return s * (sh.M * sh.h * sh.w) + m * (sh.h * sh.w) + y * sh.w + x

def vol(sh): return sh.S * sh.M * sh.w * sh.h

def mono(a, b, c):
    """instance of lemma mul-mono"""
    return z3.Implies(z3.And(a <= b, c >= 0), a * c <= b * c)

def same_shape(*tvs):
    t0 = tvs[0]
    return z3.And([z3.And(t.w == t0.w, t.h == t0.h, t.M == t0.M, t.S == t0.S, t.N == t0.N) for t in tvs[1:]])

def unchanged(e, st, tv):
    """whole buffer of tv is as on entry"""
    A = e.arr(st, tv.buf); A0 = e.init[("b", tv.buf)]
    if A.eq(A0): return TRUE
    return z3.ForAll([i_], z3.Select(A, i_) == z3.Select(A0, i_))

def all_cells(A, body):
    """for every index i; with a trigger where the array is a plain constant"""
    return z3.ForAll([i_], body, patterns=[z3.Select(A, i_)]) if z3.is_const(A) else z3.ForAll([i_], body)

def A0(e, tv): return e.init[("b", tv.buf)]

def param_tensor(e, st, name, **kw):
    p = e.param[name]
    return wf_tensor(e, st, p.oid, **kw)

def tensor_dims_nonneg(sh): return z3.And(sh.w >= 0, sh.h >= 0, sh.M >= 0, sh.S >= 0)

def mul_lemmas():
    a, b, c, d = z3.Ints("a b c d")
    return [("mul-mono: a<=b, c>=0 => a*c<=b*c", [a <= b, c >= 0], a * c <= b * c)]

def layout_lemmas():
    """The bijection axioms used at every Tensor::Offset call are consequences of the polynomial Offset is proved to compute."""
    w, h, M, S, N = z3.Ints("w h M S N"); x, y, m, s, x2, y2, m2, s2 = z3.Ints("x y m s x2 y2 m2 s2"); i = z3.Int("i")
    R1 = h * w; R2 = M * h * w
    out = mul_lemmas()
    dim = [w >= 0, h >= 0, M >= 0, S >= 0]
    inr = [0 <= x, x < w, 0 <= y, y < h, 0 <= m, m < M, 0 <= s, s < S]
    r = y * w + x
    # row, map and sample blocks
    out.append(("layout-1: 0 <= y*w+x < h*w", dim + inr + [mono(y, h - 1, w)], z3.And(0 <= r, r < R1)))
    P, Q, V, t = z3.Ints("P Q V t")
    out.append(("layout-2: block arithmetic: 0<=t<P, 0<=m<M => 0 <= m*P+t < M*P", [0 <= t, t < P, 0 <= m, m < M, mono(m, M - 1, P), mono(0, m, P)], z3.And(0 <= m * P + t, m * P + t < M * P)))
    # uniqueness of quotient and remainder
    q1, q2, r1, r2 = z3.Ints("q1 q2 r1 r2")
    out.append(("layout-3: q1*P+r1 = q2*P+r2 with remainders in range => equal",
                [0 <= r1, r1 < P, 0 <= r2, r2 < P, q1 * P + r1 == q2 * P + r2, mono(q1 + 1, q2, P), mono(q2 + 1, q1, P)], z3.And(q1 == q2, r1 == r2)))
    out.append(("layout-4: every i with 0<=i<M*P splits as q*P+r with 0<=q<M, 0<=r<P",
                [P > 0, 0 <= i, i < M * P, q1 == i / P, r1 == i % P, q1 * P + r1 == i, 0 <= r1, r1 < P, mono(M, q1, P), mono(q1 + 1, 0, P)],
                z3.And(0 <= q1, q1 < M)))
    # the three nested splits compose to the layout polynomial
    out.append(("layout-5: nested blocks are the layout polynomial", [], ((s * M + m) * h + y) * w + x == s * (M * h * w) + m * (h * w) + y * w + x))
    out.append(("layout-6: nested extents are the element count", [], S * (M * (h * w)) == S * M * w * h))
    out.append(("layout-7: a sample's elements are contiguous", [0 <= t, t < V, i == s * V + t], z3.And(s * V <= i, i < (s + 1) * V)))
    return out

# ---- callee contracts of Tensor methods -------------------------------------------------
def h_clear(e, st, n, oid, av):
    """Tensor::Clear (proved in C02): every element of the tensor / of one sample gets the value"""
    tv = TensorView(e, st, oid)
    val = e.to_real(av[0]) if len(av) > 0 and av[0] is not None else z3.RealVal(0)
    smp = av[1] if len(av) > 1 and av[1] is not None else IV(-1)
    smp = z3.simplify(smp)
    sh = tv.shape; reg_shape(e, sh)
    b = tv.buf
    D = e.arr(st, b); Nw = fresh("clr", D.sort()); i = z3.Int("i")
    if z3.is_int_value(smp) and smp.as_long() == -1: sel = z3.And(0 <= i, i < sh.N)
    else:
        e.obl(st, z3.And(smp >= -1, smp < sh.S), "%s: Tensor::Clear sample in range" % e.fname, "precondition", n)
        sel = z3.And(0 <= i, i < sh.N, z3.Or(smp == -1, sh.us(i) == smp))
    st.assume(z3.ForAll([i], z3.Select(Nw, i) == z3.If(sel, val, z3.Select(D, i)), patterns=[z3.Select(Nw, i)]))
    e.set_arr(st, b, Nw)
    return OPAQUE

def h_resize(e, st, n, oid, av):
    """Tensor::Resize (proved in C01): dimensions become the arguments, storage holds exactly the elements"""
    if len(av) == 1:
        src = TensorView(e, st, av[0].oid); S, w, h, M = src.S, src.w, src.h, src.M
    else:
        one = IV(1)
        g = lambda k: av[k] if k < len(av) and av[k] is not None else one
        S, w, h, M = g(0), g(1), g(2), g(3)
    tv = TensorView(e, st, oid); p = tv.ptr
    N = fresh("vol", I)
    def named(v):
        """a constant equal to v (patterns must not contain conditional terms)"""
        if z3.is_const(v) or z3.is_int_value(v): return v
        c = fresh("dim", I); st.assume(c == v); return c
    S, w, h, M = [named(v) for v in (S, w, h, M)]
    sh = Shape(w, h, M, S, N)
    st.assume(z3.Implies(z3.And(w > 0, h > 0, M > 0, S > 0), N > 0))
    for f, v in (("width_", w), ("height_", h), ("maps_", M), ("samples_", S), ("elements_", N)):
        e.wr(st, ("f", oid, f), v)
    b = ("resized", oid, e.newid(st)) if e.collect is None else ("resized", oid, 0)
    e.newbuf(b, T("real", name="float"), N)
    e.wr(st, ("f", oid, "data_ptr_"), PtrV("buf", b, IV(0), z3.Not(N > 0)))
    reg_shape(e, sh)
    return OPAQUE

def h_new_combined(e, st, n, oid, av):
    one = IV(1)
    g = [a if a is not None else one for a in av] + [one] * (4 - len(av))
    for f in ("data", "delta"): h_resize(e, st, n, ("fld", oid, f), g)
    return OPAQUE

H_TENSOR = {"Conv::Tensor::Clear": h_clear, "Conv::Tensor::Resize": h_resize, "Conv::CombinedTensor::CombinedTensor": h_new_combined}

def block_axioms(e, sh):
    """consequences of the layout polynomial (lemmas layout-3, layout-8, layout-9), used where code copies whole maps"""
    i, m, s, x, y = z3.Ints("i m s x y")
    b = sh.off(IV(0), IV(0), m, s)
    e.axioms.append(z3.ForAll([i, m, s], z3.Implies(z3.And(0 <= m, m < sh.M, 0 <= s, s < sh.S, 0 <= i, i < sh.N),
        z3.And(b <= i, i < b + sh.h * sh.w) == z3.And(sh.um(i) == m, sh.us(i) == s)), patterns=[z3.MultiPattern(b, sh.um(i))]))
    o = sh.off(x, y, m, s)
    e.axioms.append(z3.ForAll([x, y, m, s], o == b + y * sh.w + x, patterns=[o]))
    e.axioms.append(z3.ForAll([m, s], z3.Implies(z3.And(0 <= m, m < sh.M, 0 <= s, s < sh.S), z3.And(0 <= b, b + sh.h * sh.w <= sh.N)), patterns=[b]))

def row_axioms(e, sh):
    """consequences of the layout polynomial (lemmas layout-3, layout-8, layout-9), used where code copies whole rows"""
    i, y, m, s, x = z3.Ints("i y m s x"); b = sh.off(IV(0), y, m, s); o = sh.off(x, y, m, s)
    rng = z3.And(0 <= y, y < sh.h, 0 <= m, m < sh.M, 0 <= s, s < sh.S)
    e.axioms.append(z3.ForAll([i, y, m, s], z3.Implies(z3.And(rng, 0 <= i, i < sh.N), z3.And(b <= i, i < b + sh.w) == z3.And(sh.uy(i) == y, sh.um(i) == m, sh.us(i) == s)), patterns=[z3.MultiPattern(b, sh.uy(i))]))
    e.axioms.append(z3.ForAll([x, y, m, s], o == b + x, patterns=[o]))
    e.axioms.append(z3.ForAll([y, m, s], z3.Implies(rng, z3.And(0 <= b, b + sh.w <= sh.N)), patterns=[b]))

def set_cells(e, st, tv, sel, val, first=None):
    """callee contract effect: cells i with sel(i) take val(i), all others keep their value"""
    A = e.arr(st, tv.buf); Nw = fresh("set", A.sort()); i = z3.Int("i")
    st.assume(z3.ForAll([i], Nw[i] == z3.If(sel(i), val(i), A[i]), patterns=[Nw[i]]))
    if first is None: e.set_arr(st, tv.buf, Nw)
    else:
        if e.collect is not None: e.collect["writes"].setdefault(tv.buf, []).append(("range", first, None))
        e.wr(st, ("b", tv.buf), Nw)

def h_copymap(e, st, n, oid, av):
    """Tensor::CopyMap (proved in C03)"""
    s = TensorView(e, st, av[0].oid); ss, sm = av[1], av[2]; t = TensorView(e, st, av[3].oid); ts, tm = av[4], av[5]
    e.obl(st, z3.And(sm < s.M, tm < t.M, sm >= 0, tm >= 0), "%s: CopyMap map indices in range" % e.fname, "precondition", n)
    sh, ssh = t.shape, s.shape; a = s.a
    for x in (sh, ssh): reg_shape(e, x)
    ok = z3.And(ss < s.S, ts < t.S, t.w >= s.w, t.h >= s.h)
    set_cells(e, st, t, lambda i: z3.And(ok, 0 <= i, i < sh.N, sh.um(i) == tm, sh.us(i) == ts),
              lambda i: z3.If(z3.And(sh.ux(i) < ssh.w, sh.uy(i) < ssh.h), a[ssh.off(sh.ux(i), sh.uy(i), sm, ss)], 0), sh.off(IV(0), IV(0), tm, ts))
    return ok

def h_copysample(e, st, n, oid, av):
    """Tensor::CopySample (proved in C03)"""
    s = TensorView(e, st, av[0].oid); ss = av[1]; t = TensorView(e, st, av[2].oid); ts = av[3]
    sh, ssh = t.shape, s.shape; a = s.a
    for x in (sh, ssh): reg_shape(e, x)
    ok = z3.And(ss < s.S, ts < t.S, t.w >= s.w, t.h >= s.h, s.M == t.M)
    set_cells(e, st, t, lambda i: z3.And(ok, 0 <= i, i < sh.N, sh.us(i) == ts),
              lambda i: z3.If(z3.And(sh.ux(i) < ssh.w, sh.uy(i) < ssh.h), a[ssh.off(sh.ux(i), sh.uy(i), sh.um(i), ss)], 0))
    return ok

def h_up(e, st, n, oid, av):
    """TensorMath::UP (proved in C09)"""
    s = TensorView(e, st, av[0].oid); t = TensorView(e, st, av[1].oid); rw, rh, f = av[2], av[3], e.to_real(av[4])
    e.obl(st, z3.And(rw > 0, rh > 0, t.w >= rw * s.w, t.h >= rh * s.h, s.M == t.M, s.S == t.S, s.N > 0, t.N > 0), "%s: UP shapes" % e.fname, "precondition", n)
    sh, ssh = t.shape, s.shape; a = s.a; X, Y = e.C.up_split(e, sh, rw, rh)
    set_cells(e, st, t, lambda i: z3.And(0 <= i, i < sh.N, X(i) < ssh.w, Y(i) < ssh.h), lambda i: a[ssh.off(X(i), Y(i), sh.um(i), sh.us(i))] * f)
    return OPAQUE

def h_down(e, st, n, oid, av):
    """TensorMath::DOWN (proved in C09)"""
    s = TensorView(e, st, av[0].oid); t = TensorView(e, st, av[1].oid); rw, rh, f = av[2], av[3], e.to_real(av[4])
    e.obl(st, z3.And(rw > 0, rh > 0, s.w >= rw * t.w, s.h >= rh * t.h, s.M == t.M, s.S == t.S, s.N > 0, t.N > 0), "%s: DOWN shapes" % e.fname, "precondition", n)
    sh, ssh = t.shape, s.shape; S_ = e.C.down_sum(e, s, rw, rh)[1]
    set_cells(e, st, t, lambda i: z3.And(0 <= i, i < sh.N), lambda i: S_(sh.ux(i), sh.uy(i), sh.um(i), sh.us(i), rh) * f)
    return OPAQUE

def down_sums(e, s, rw, rh):
    """region sums of tensor s: row sums and their sums (ghost)"""
    A = s.a; ss = s.shape
    row = Sum(e, "down_row", 5, lambda x, y, m, n, ry, rx: A[ss.off(rw * x + rx, rh * y + ry, m, n)])
    return row, Sum(e, "down_sum", 4, lambda x, y, m, n, ry: row(x, y, m, n, ry, rw))

class Split:
    """quotient and remainder of a coordinate by the region size (lemmas split-1, split-2)"""
    def __init__(self, e, name, sh, u, r):
        self.Q = z3.Function("quot_" + name, I, I); self.M = z3.Function("rem_" + name, I, I); self.u, self.r = u, r
        i = z3.Int("i")
        e.axioms.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < sh.N), z3.And(u(i) == r * self.Q(i) + self.M(i), 0 <= self.M(i), self.M(i) < r, 0 <= self.Q(i))), patterns=[self.Q(i), self.M(i)]))
    def inst(self, t, q, m):
        """uniqueness at cell t whose coordinate is r*q+m"""
        Q, M, r = self.Q(t), self.M(t), self.r
        return z3.Implies(z3.And(self.u(t) == r * q + m, 0 <= m, m < r, r * Q + M == self.u(t), 0 <= M, M < r), z3.And(Q == q, M == m))

def split_lemmas():
    u, r, q, m, Q, M = z3.Ints("u r q m Q M")
    return [("split-1: every coordinate splits", [r > 0, u >= 0, Q == u / r, M == u % r], z3.And(u == r * Q + M, 0 <= M, M < r, Q >= 0)),
        ("split-2: the split is unique", [u == r * q + m, 0 <= m, m < r, r * Q + M == u, 0 <= M, M < r, mono(q + 1, Q, r), mono(Q + 1, q, r)], z3.And(Q == q, M == m))]

def sample_axioms(e, sh):
    """offset within a sample (layout-11)"""
    m, s, x, y = z3.Ints("m s x y"); o = sh.off(x, y, m, s)
    e.axioms.append(z3.ForAll([x, y, m, s], o == sh.off(IV(0), IV(0), IV(0), s) + ((m * sh.h + y) * sh.w + x), patterns=[o]))

def row0(sh, r): return sh.off(IV(0), IV(0), IV(0), r)
def vol_axioms(e, sh, V):
    """V names the elements per sample: sample r starts at r*V (layout polynomial)"""
    r = z3.Int("r"); q = z3.Int("i")
    e.axioms.append(z3.ForAll([r], row0(sh, r) == r * V, patterns=[row0(sh, r)]))
    e.axioms.append(z3.And(sh.N == sh.S * V, V > 0))
    e.axioms.append(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < sh.N), z3.And(row0(sh, sh.us(q)) <= q, q < row0(sh, sh.us(q)) + V)), patterns=[sh.us(q)]))
    sample_axioms(e, sh)

def block_lemmas():
    q1, q2, r, P, i = z3.Ints("q1 q2 r P i"); M, h, w, S, m, s, x, y = z3.Ints("M h w S m s x y")
    return [("layout-8: only block q1 meets [q1*P, q1*P+P)", [0 <= r, r < P, i == q2 * P + r, q1 * P <= i, i < q1 * P + P, mono(q1 + 1, q2, P), mono(q2 + 1, q1, P)], q1 == q2),
            ("layout-9: offset within a map", [], s * (M * h * w) + m * (h * w) + y * w + x == (s * (M * h * w) + m * (h * w)) + y * w + x),
            ("layout-11: offset within a sample", [], s * (M * h * w) + m * (h * w) + y * w + x == (s * (M * h * w)) + ((m * h + y) * w + x)),
            ("layout-10: blocks lie inside the tensor", [0 <= q1, q1 < M, P >= 0, mono(q1 + 1, M, P), mono(0, q1, P)], z3.And(0 <= q1 * P, q1 * P + P <= M * P))]

def finite_above(e, st, tv):
    """finite values: every element lies above numeric_limits::lowest or equals it"""
    i = z3.Int("i")
    st.assume(z3.ForAll([i], z3.Select(tv.a, i) >= LOWEST, patterns=[z3.Select(tv.a, i)]))

# ---- ghost sums, ticks, address maps ----------------------------------------------------
tick = z3.Function("tick", I, B)
_seenI, _seenR = z3.Function("seenI", I, B), z3.Function("seenR", R, B)
def seen(t): return _seenI(t) if is_int(t) else _seenR(t)   # always-true marker that makes a term known to the solver

class Sum:
    """ghost partial sum f(params..., n) = sum of term(params..., k) for k < n, by its recursive definition
    (unfolded one step where a loop counter says so)"""
    def __init__(self, e, name, nparams, term, base=None, start=None):
        self.f = z3.Function(name, *([I] * (nparams + 1) + [R])); self.np = nparams; self.term = term
        ps = [z3.Int("p%d" % k) for k in range(nparams)]; n = z3.Int("n")
        z = self.f(*ps, IV(0) if start is None else start(*ps))
        b = z3.RealVal(0) if base is None else base(*ps)
        if ps: e.axioms.append(z3.ForAll(ps, z == b, patterns=[z]))
        else: e.axioms.append(z == b)
        x = self.f(*ps, n)
        e.axioms.append(z3.ForAll(ps + [n], z3.Implies(n >= (0 if start is None else start(*ps)), self.f(*ps, n + 1) == x + term(*ps, n)), patterns=[z3.MultiPattern(x, tick(n))]))
    def __call__(self, *a): return self.f(*a)

def chain(L):
    out = []
    while L is not None: out.append(L); L = L.outer
    return out[::-1]

def ctr(e, st, L):
    """iterations completed by loop L in state st"""
    c = e.cval(st, L.counter)
    if z3.is_int_value(L.cnt0) and L.cnt0.as_long() == 0 and L.dir > 0: return c
    return z3.simplify(c - L.cnt0 if L.dir > 0 else L.cnt0 - c)

def walk(n):
    yield n
    for c in n.get("inner", ()) or ():
        if c: yield from walk(c)

def accs_count_last(e, L, st, sort):
    """running totals the loop changes, one that is only ever increased by a literal (a count) last"""
    cs = {c[0] for c in L.counters}; ks = [k for k, (o, nv) in L.scal.items() if k not in cs and isinstance(nv, z3.ExprRef) and nv.sort() == sort]
    def strip(x):
        while x["kind"] in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr"): x = [c for c in x["inner"] if c][0]
        return x
    def iscount(k):
        for x in walk(L.node):
            if x["kind"] == "CompoundAssignOperator" and x["opcode"] == "+=":
                l, r = [strip(c) for c in x["inner"]]
                if l["kind"] == "DeclRefExpr" and l["referencedDecl"]["id"] == k[2] and r["kind"] in ("FloatingLiteral", "IntegerLiteral"): return True
            if x["kind"] == "UnaryOperator" and x["opcode"] == "++":
                l = strip(x["inner"][0])
                if l["kind"] == "DeclRefExpr" and l["referencedDecl"]["id"] == k[2]: return True
        return False
    ks.sort(key=lambda k: (iscount(k), e.vname.get(k) or "")); return [e.rd(st, k) for k in ks]

class NestSum:
    """ghost sum over a loop nest: f[k](c0..ck-1, n), innermost term term(c0..cn-1); partial(st, L) is what a running total holds"""
    def __init__(self, e, name, exts, term):
        self.e, self.exts, self.n = e, exts, len(exts)
        self.f = [z3.Function("nsum%d_%s" % (k, name), *([I] * (k + 1) + [R])) for k in range(self.n)]
        m = z3.Int("m")
        for k in range(self.n):
            cs = [z3.Int("c%d" % j) for j in range(k)]
            z = self.f[k](*cs, IV(0))
            e.axioms.append(z3.ForAll(cs, z == 0, patterns=[z]) if cs else z == 0)
            x = self.f[k](*cs, m)
            t = term(*cs, m) if k == self.n - 1 else self.f[k + 1](*cs, m, exts[k + 1](*cs, m))
            e.axioms.append(z3.ForAll(cs + [m], z3.Implies(m >= 0, self.f[k](*cs, m + 1) == x + t), patterns=[z3.MultiPattern(x, tick(m))]))
    def partial(self, st, L):
        cs = [ctr(self.e, st, l) for l in chain(L)][:self.n]
        v = self.f[0](cs[0])
        for k in range(1, len(cs)): v = v + self.f[k](*cs[:k + 1])
        return v
    def total(self): return self.f[0](self.exts[0]())

class Addr:
    """address function of a loop nest: injective on its range (side condition proved separately as a lemma), with inverse components"""
    def __init__(self, e, name, exts, expr):
        k = len(exts); self.k = k; self.exts = exts
        self.f = z3.Function("ad_" + name, *([I] * (k + 1)))
        self.c = [z3.Function("ac%d_%s" % (j, name), I, I) for j in range(k)]
        vs = [z3.Int("q%d" % j) for j in range(k)]
        x = self.f(*vs)
        rng = z3.And([z3.And(0 <= v, v < ex) for v, ex in zip(vs, exts)])
        e.axioms.append(z3.ForAll(vs, x == expr(*vs), patterns=[x]))
        e.axioms.append(z3.ForAll(vs, z3.Implies(rng, z3.And([c(x) == v for c, v in zip(self.c, vs)])), patterns=[x]))
    def comp(self, j): return self.c[j]
    def D(self, i):
        """i is an address of the nest"""
        return z3.And([z3.And(0 <= c(i), c(i) < ex) for c, ex in zip(self.c, self.exts)] + [i == self.f(*[c(i) for c in self.c])])

class NestCells(Cells):
    """cells written by a loop nest: comps[k](i) is the iteration of the k-th nested loop that writes cell i.
    With exts (the loops' extents) the loops are recognised by their bounds, so that their order does not matter."""
    def __init__(self, e, buf, D, R, comps, name=None, pos=None, exts=None, active=None):
        Cells.__init__(self, e, buf, None, D, R, name, flat=True)
        self.comps = comps; self.pos = pos; self.exts = exts; self.active = active
    def order(self, ch):
        """component index of each loop of the chain"""
        n = len(self.comps)
        if not self.exts: return list(range(len(ch)))
        used = set(); out = []
        for k, l in enumerate(ch):
            b = getattr(l, "bound", None); j = None
            if k >= n: out.append(k); continue
            for same in ((lambda f: z3.is_true(z3.simplify(f))), (lambda f: self.e.valid_qf(l.head, f))):
                for c in ([k] if k < n else []) + list(range(n)):
                    if j is None and b is not None and c not in used and self.exts[c] is not None:
                        key = (id(self), c, b.get_id()); memo = l.__dict__.setdefault("extmemo", {})
                        if (key, same.__code__.co_code) not in memo: memo[(key, same.__code__.co_code)] = same(b == self.exts[c])
                        if memo[(key, same.__code__.co_code)]: j = c
            if j is None: return list(range(len(ch)))
            used.add(j); out.append(j)
        return out
    def ctrs(self, st, ch):
        """counters of the nest's loops in the order of the components; the remaining loops' follow"""
        o = self.order(ch); c = {j: ctr(self.e, st, l) for j, l in zip(o, ch)}
        return [c[j] for j in sorted(c)]
    def visited(self, L, st, i):
        ch = chain(L); conj = []
        for k, (j, l) in enumerate(zip(self.order(ch), ch)):
            if j >= len(self.comps): continue
            c = self.comps[j](i)
            if c is None: continue
            n = ctr(self.e, st, l)
            if l is L: conj += [0 <= c, c < n]
            else: conj.append(c == n)
        return z3.And(conj) if conj else TRUE

class Scatter:
    """array receiving contributions from a loop nest (A[i] += v): ghost nested partial sums in loop order.
    own: components of the outer loops that select disjoint cells; exts: extents of the summing loops (functions of i and
    the outer summing counters); contrib(i, c1..cn); base(i): value before the nest; D(i): cells of the array."""
    flat = True
    def __init__(self, e, buf, name, own, exts, contrib, base, D):
        self.e, self.b, self.name, self.own, self.exts, self.D, self.base = e, buf, name, own, exts, D, base
        self.contrib = contrib
        n = self.n = len(exts); self.f = []
        for k in range(n): self.f.append(z3.Function("sum%d_%s" % (k, name), *([I] * (k + 2) + [R])))
        i = z3.Int("i"); m = z3.Int("m")
        for k in range(n):
            cs = [z3.Int("c%d" % j) for j in range(k)]
            z = self.f[k](i, *cs, IV(0))
            e.axioms.append(z3.ForAll([i] + cs, z == 0, patterns=[z]))
            x = self.f[k](i, *cs, m)
            t = contrib(i, *cs, m) if k == n - 1 else self.f[k + 1](i, *cs, m, exts[k + 1](i, *cs, m))
            e.axioms.append(z3.ForAll([i] + cs + [m], z3.Implies(m >= 0, self.f[k](i, *cs, m + 1) == x + t), patterns=[z3.MultiPattern(x, tick(m))]))
    def total(self, i): return self.base(i) + self.f[0](i, self.exts[0](i))
    def value(self, i, L, st):
        ch = chain(L); e = self.e; no = len(self.own)
        cs = [ctr(e, st, l) for l in ch]
        v = self.base(i)
        for k in range(self.n):
            if no + k >= len(ch): break
            v = v + self.f[k](i, *cs[no:no + k + 1])
        for k in reversed(range(min(no, len(ch)))):
            c = self.own[k](i)
            if k == len(ch) - 1: v = z3.If(z3.And(0 <= c, c < cs[k]), self.total(i), self.base(i))
            elif k < len(ch) - 1: v = z3.If(c == cs[k], v, z3.If(z3.And(0 <= c, c < cs[k]), self.total(i), self.base(i)))
        return v
    def loop_inv(self, L, st):
        i = z3.Int("i"); A = self.e.arr(st, self.b); E0 = self.e.init[("b", self.b)]
        body = z3.If(self.D(i), A[i] == self.value(i, L, st), A[i] == E0[i])
        return [("partial sums of %s" % self.name, z3.ForAll([i], body, patterns=[A[i]]) if z3.is_const(A) else z3.ForAll([i], body))]
    def post(self, st):
        i = z3.Int("i"); A = self.e.arr(st, self.b); E0 = self.e.init[("b", self.b)]
        return z3.ForAll([i], z3.If(self.D(i), A[i] == self.total(i), A[i] == E0[i]))
    def zero_lemma(self, k, cond, name):
        """if cond(i, c1..ck) makes every contribution below level k zero, the sum there is zero: proved by induction over the
        last counter (levels k..n-1, innermost first), then available to the solver"""
        e = self.e; i = z3.Int("i"); cs = [z3.Int("c%d" % j) for j in range(k)]
        out = []
        st0 = State()
        for lev in reversed(range(k, self.n)):
            allc = [z3.Int("c%d" % j) for j in range(lev)]; m = z3.Int("m")
            x = self.f[lev](i, *allc, m); cnd = cond(i, *allc[:k])
            t = self.contrib(i, *allc, m) if lev == self.n - 1 else self.f[lev + 1](i, *allc, m, self.exts[lev + 1](i, *allc, m))
            hy = [cnd, m >= 0, x == 0, self.f[lev](i, *allc, m + 1) == x + t]
            if lev < self.n - 1: hy.append(z3.Implies(z3.And(cond(i, *allc[:k]), self.exts[lev + 1](i, *allc, m) >= 0), t == 0)); hy.append(self.exts[lev + 1](i, *allc, m) >= 0)
            e.obls.append(Obl("%s: ghost lemma %s (level %d, induction step)" % (e.fname, name, lev), hy, self.f[lev](i, *allc, m + 1) == 0, "lemma"))
            e.axioms.append(z3.ForAll([i] + allc + [m], z3.Implies(z3.And(cnd, m >= 0), x == 0), patterns=[x]))

# ---- layers -------------------------------------------------------------------------------
CT = T("struct", name="CombinedTensor"); PCT = T("ptr", el=CT)

def dims_pos(t): return z3.And(t.w > 0, t.h > 0, t.M > 0, t.S > 0)

def layer_t(fn, e, st, member, which, pos=True):
    """this->member->which as a well-formed non-empty tensor (class invariant of a connected layer)"""
    tv = wf_tensor(e, st, fn.layer_tensor(e, st, member, which), nonempty=True)
    if pos: st.assume(dims_pos(tv))
    return tv

def own_t(e, st, member):
    """member tensor of this layer"""
    tv = wf_tensor(e, st, ("fld", "this", member), nonempty=True); st.assume(dims_pos(tv))
    return tv

def fld(e, st, name, ty=U32): return e.rd(st, ("f", "this", name), ty)

def vec_size(e, st, oid): return e.rd(st, ("f", oid, "$size"), U64)
def vec_ptr(e, st, oid, k, ty=PCT): return e.rd(st, ("f", oid, "[%s]" % k), ty)

def h_add(e, st, n, oid, av):
    """TensorMath::ADD (proved in C09)"""
    a, b, t = [TensorView(e, st, x.oid) for x in av[:3]]
    e.obl(st, z3.And(same_shape(a, b, t), t.N > 0), "%s: ADD shapes" % e.fname, "precondition", n)
    A, B_ = a.a, b.a
    set_cells(e, st, t, lambda i: z3.And(0 <= i, i < t.N), lambda i: A[i] + B_[i])
    return OPAQUE

def ptr_is(p, q): return isinstance(p, PtrV) and isinstance(q, PtrV) and p.target == q.target

class ConnectFn(Fn):
    """Connect(inputs, outputs, net): exactly the fitting tensors are accepted, and then remembered in the right members.
    Subclasses give nin, nout, ok(e, ins, outs), members(e) -> {member: ("in"|"out", k)}, scalars(e, ins, outs) -> {member: value}."""
    nparams = 3; nin = 1; nout = 1; maynull = True
    def handlers(self): return dict(H_TENSOR)
    def setup(self, e, st): pass
    def members(self): return {}
    def scalars(self, e, ins, outs): return {}
    def pre(self, e, st):
        P = e.param; ns = list(P)
        self.n0, self.n1 = vec_size(e, st, ("param", ns[0])), vec_size(e, st, ("param", ns[1]))
        self.ins, self.outs = [], []
        for lst, pn, k in ((self.ins, ns[0], self.nin), (self.outs, ns[1], self.nout)):
            for j in range(k):
                p = vec_ptr(e, st, ("param", pn), j); t = wf_tensor(e, st, ("fld", p.target, "data")); lst.append((p, t))
                st.assume(z3.Implies(z3.Not(p.null), dims_pos(t))); st.assume(z3.And(t.w < 2 ** 24, t.h < 2 ** 24, t.M < 2 ** 24, t.S < 2 ** 24))
                if not self.maynull: st.assume(z3.Not(p.null))
        self.setup(e, st)
    def post(self, e, st, ret, kind):
        valid = z3.And([self.n0 == self.nin, self.n1 == self.nout] + [z3.Not(p.null) for p, _ in self.ins + self.outs])
        I_, O_ = [t for _, t in self.ins], [t for _, t in self.outs]
        ok = z3.And(valid, self.ok(e, I_, O_)); r = z3.simplify(e.to_bool(ret))
        post(e, st, r == ok, "accepted exactly if the tensors fit together")
        if z3.is_false(r): return
        st2 = st.fork(); st2.assume(r)
        for mem, (w, k) in self.members().items():
            p = e.rd(st2, ("f", "this", mem), PCT); q = (self.ins if w == "in" else self.outs)[k][0]
            post(e, st2, z3.BoolVal(ptr_is(p, q)), "%s is the given tensor" % mem)
        for mem, v in self.scalars(e, I_, O_).items(): post(e, st2, fld(e, st2, mem) == v, "%s is set" % mem)

class LayerConnect(Fn):
    """Connect(input, output) of a layer with one input and one output: exactly the fitting tensors are accepted; sizes are remembered and
    buffers get their sizes, as the passes of that layer (verified over these facts) rely on. SimpleLayer::Connect calls it with non-null tensors.
    Subclasses give ok(e, i, o), scalars(e, i, o) -> {member: value}, buffers(e, i, o) -> {member tensor: (S, w, h, M)}, params(...) -> [(S, w, h, M)]."""
    nparams = 2; ends = False; ones = ()
    def handlers(self): return dict(H_TENSOR, **{"Conv::Tensor::Resize": self.h_resize})
    def ok(self, e, i, o): return TRUE
    def setup(self, e, st): pass
    def scalars(self, e, i, o): return {}
    def buffers(self, e, i, o): return {}
    def params(self, e, i, o): return []
    def h_resize(self, e, st, n, oid, av):
        h_resize(e, st, n, oid, av)
        for m in self.ones:
            if oid == ("fld", "this", m):
                t = TensorView(e, st, oid); b = t.ptr.target
                e.cells[b] = Cells(e, b, t.shape, lambda k, N=t.N: z3.And(0 <= k, k < N), lambda k, s2, b=b: e.arr(s2, b)[k] == 1, m, flat=True)
                self.onebuf = b
        return OPAQUE
    def pre(self, e, st):
        self.t = []
        for n in list(e.param):
            p = e.param[n]; p = e.rd(st, p.key, PCT) if isinstance(p, LKey) else p
            st.assume(z3.Not(p.null)); t = wf_tensor(e, st, ("fld", p.target, "data")); self.t.append(t)
            st.assume(z3.And(dims_pos(t), t.w < 2 ** 24, t.h < 2 ** 24, t.M < 2 ** 24, t.S < 2 ** 24))
        e.wr(st, ("f", ("fld", "this", "parameters_"), "$size"), IV(0)); self.setup(e, st)
    def post(self, e, st, ret, kind):
        i, o = self.t; r = z3.simplify(e.to_bool(ret)); ok = self.ok(e, i, o)
        post(e, st, r == ok, "accepted exactly if the tensors fit together")
        for t in self.t: post(e, st, unchanged(e, st, t), "tensors unchanged")
        if z3.is_false(r): return
        st2 = st.fork(); st2.assume(r)
        for m, v in self.scalars(e, i, o).items(): post(e, st2, fld(e, st2, m) == v, "%s is set" % m)
        def shape(oid, d, name):
            t = TensorView(e, st2, oid); post(e, st2, z3.And(t.S == d[0], t.w == d[1], t.h == d[2], t.M == d[3]), "%s has the size the passes use" % name); return t
        for m, d in self.buffers(e, i, o).items():
            t = shape(("fld", "this", m), d, m)
            if m in self.ones: post(e, st2, e.cells[self.onebuf].post(st2), "%s is filled with ones" % m)
        ps = self.params(e, i, o)
        sz = z3.simplify(vec_size(e, st2, ("fld", "this", "parameters_"))); post(e, st2, sz == len(ps), "parameters announced to the net")
        for k, (mem, d, val) in enumerate(ps):
            p = vec_ptr(e, st2, ("fld", "this", "parameters_"), k); q = e.rd(st2, ("f", "this", mem), PCT)
            post(e, st2, z3.BoolVal(ptr_is(q, p)), "parameter %d is %s" % (k, mem))
            for w in ("data", "delta"): t = shape(("fld", q.target, w), d, "%s %s" % (mem, w))
            if val is not None:
                t = TensorView(e, st2, ("fld", q.target, "data")); k_ = z3.Int("i"); b = t.ptr.target
                post(e, st2, z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < t.N), e.arr(st2, b)[k_] == val)), "%s starts at the given value" % mem)

class SimpleConnect(Fn):
    """SimpleLayer::Connect: one input and one output that are not null and that the layer accepts; only then they are remembered."""
    qual = "Conv::SimpleLayer::Connect"; nparams = 3
    def handlers(self): return {"Conv::SimpleLayer::Connect": self.h_connect}
    def h_connect(self, e, st, n, oid, av):
        e.obl(st, z3.And(z3.Not(av[0].null), z3.Not(av[1].null)), "%s: the layer gets tensors that exist" % e.fname, "precondition", n)
        e.obl(st, z3.BoolVal(ptr_is(av[0], self.i) and ptr_is(av[1], self.o)), "%s: the layer is asked about the given tensors" % e.fname, "precondition", n)
        return self.acc
    def pre(self, e, st):
        ns = list(e.param); self.n0, self.n1 = vec_size(e, st, ("param", ns[0])), vec_size(e, st, ("param", ns[1]))
        self.i, self.o = vec_ptr(e, st, ("param", ns[0]), 0), vec_ptr(e, st, ("param", ns[1]), 0)
        self.acc = z3.Bool("layer_accepts"); self.ns = ns
        self.old = {m: e.rd(st, ("f", "this", m), PCT) for m in ("input_", "output_")}
    def post(self, e, st, ret, kind):
        ok = z3.And(self.n0 == 1, self.n1 == 1, z3.Not(self.i.null), z3.Not(self.o.null), self.acc); r = z3.simplify(e.to_bool(ret))
        post(e, st, r == ok, "accepted exactly if there is one input and one output and the layer accepts them")
        got = {m: e.rd(st, ("f", "this", m), PCT) for m in ("input_", "output_")}
        if z3.is_false(r):
            for m in got: post(e, st, z3.BoolVal(ptr_is(got[m], self.old[m])), "a refused connection changes nothing")
            return
        st2 = st.fork(); st2.assume(r)
        for m, q in (("input_", self.i), ("output_", self.o)): post(e, st2, z3.BoolVal(ptr_is(got[m], q)), "%s is the given tensor" % m)

class CreateOutputs(Fn):
    """CreateOutputs(inputs, outputs): exactly the supported inputs are accepted; the output has the specified shape.
    Subclasses give nin, ok(e, ins), dims(e, ins) -> list of (samples, width, height, maps)."""
    nparams = 2; nin = 1; same_input = False
    def handlers(self): return dict(H_TENSOR)
    def setup(self, e, st): pass
    def pre(self, e, st):
        self.n0 = vec_size(e, st, ("param", "inputs"))
        self.ins = []
        for k in range(self.nin):
            p = vec_ptr(e, st, ("param", "inputs"), k)
            t = wf_tensor(e, st, ("fld", p.target, "data")); self.ins.append((p, t))
            st.assume(z3.Implies(z3.Not(p.null), dims_pos(t)))
        for p, t in self.ins: st.assume(z3.And(t.w < 2 ** 24, t.h < 2 ** 24))
        e.wr(st, ("f", ("param", "outputs"), "$size"), IV(0))
        self.setup(e, st)
    def post(self, e, st, ret, kind):
        valid = z3.And([self.n0 == self.nin] + [z3.Not(p.null) for p, _ in self.ins])
        ts = [t for _, t in self.ins]
        ok = z3.And(valid, self.ok(e, ts))
        r = e.to_bool(ret)
        if z3.is_true(z3.simplify(r)):
            post(e, st, ok, "accepted only if the inputs are supported")
            sz = z3.simplify(vec_size(e, st, ("param", "outputs")))
            want = self.dims(e, ts)
            post(e, st, sz == len(want), "creates the specified number of outputs")
            for k, (S, w, h, M) in enumerate(want):
                p = vec_ptr(e, st, ("param", "outputs"), k)
                for which in ("data", "delta"):
                    t = TensorView(e, st, ("fld", p.target, which))
                    post(e, st, z3.And(t.S == S, t.w == w, t.h == h, t.M == M), "output %s has the specified shape" % which)
        elif z3.is_false(z3.simplify(r)): post(e, st, z3.Not(ok), "rejected only if the inputs are not supported")
        else: post(e, st, r == ok, "accepted exactly if the inputs are supported")

# ---- byte streams --------------------------------------------------------------------------
class ByteStream:
    """a stream as the sequence of its bytes. The content is described by what a read of 8 (integer), 4 (datum) or 1 byte(s) at
    a byte position yields; a write determines the reads of the same width inside what it wrote, keeps those which do not
    touch it and leaves every other one undetermined."""
    W = {8: "u64", 4: "f32", 1: "u8"}
    def __init__(self, e, st, oid):
        self.e, self.oid = e, oid
        self.b = {w: e.newbuf(("ghost", oid, k), T("real", name="float") if w == 4 else T("int", 64, False), IV(2 ** 62)) for w, k in self.W.items()}
        k = z3.Int("k")
        for w in (8, 1): st.assume(z3.ForAll([k], z3.And(0 <= self.arr(st, w)[k], self.arr(st, w)[k] < 2 ** (8 * w)), patterns=[self.arr(st, w)[k]]))   # the entry state's arrays are constants
        self.p0 = self.pos(st)
    def arr(self, st, w): return self.e.arr(st, self.b[w])
    def pos(self, st): return self.e.rd(st, ("f", self.oid, "$pos"), T("int", 64, False))
    def advance(self, st, n): self.e.wr(st, ("f", self.oid, "$pos"), z3.simplify(self.pos(st) + n))
    def item(self, e, st, n, args):
        p = e.untyped(e.rv(args[0], st)); nb = e.rv(args[1], st)
        if not isinstance(p, PtrV): raise ExtractionError("stream transfer of %r" % (p,))
        e.obl(st, nb >= 0, "%s: transferred length not negative" % e.fname, "safety", n)
        if p.kind == "key":
            if not (z3.is_int_value(z3.simplify(nb)) and z3.simplify(nb).as_long() == 8): raise ExtractionError("transfer of %s bytes of a local" % nb)
            return p, 8, IV(1), nb
        if p.kind != "buf": raise ExtractionError("stream transfer of %r" % (p,))
        w = e.sizeof(e.bty[p.target], n); cnt = strip_mul(nb, w)
        if cnt is None: cnt = z3.simplify(nb / w); e.obl(st, nb == cnt * w, "%s: whole elements transferred" % e.fname, "safety", n)
        e.obl(st, z3.Implies(cnt > 0, z3.And(z3.Not(p.null), 0 <= p.off, p.off + cnt <= e.blen[p.target])), "%s: transferred range in bounds" % e.fname, "safety", n)
        return p, w, cnt, nb
    def write(self, e, st, n, bv, args):
        p, w, cnt, nb = self.item(e, st, n, args); at = self.pos(st); q = z3.Int("q")
        for v in self.W:
            old = self.arr(st, v); new = fresh("out", old.sort())
            st.assume(z3.ForAll([q], z3.Implies(z3.Or(q <= at - v, q >= at + cnt * w), new[q] == old[q]), patterns=[new[q]]))
            if v == w:
                if p.kind == "key": st.assume(new[at] == e.rd(st, p.target))
                else:
                    A = e.arr(st, p.target); off = p.off
                    st.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < cnt), new[at + w * q] == A[off + q]), patterns=[A[off + q]]))
            self.e.wr(st, ("b", self.b[v]), new)
            if v != 4: st.assume(z3.ForAll([q], z3.And(0 <= new[q], new[q] < 2 ** (8 * v)), patterns=[new[q]]))
        self.advance(st, nb)
        return OPAQUE
    def read(self, e, st, n, bv, args):
        p, w, cnt, nb = self.item(e, st, n, args); at = self.pos(st); q = z3.Int("q"); S = self.arr(st, w)
        if p.kind == "key": e.wr(st, p.target, S[at])
        else:
            D = e.arr(st, p.target); Nw = fresh("in", D.sort()); off = p.off
            st.assume(z3.ForAll([q], Nw[q] == z3.If(z3.And(off <= q, q < off + cnt), S[at + w * (q - off)], D[q]), patterns=[Nw[q]]))
            e.wr(st, ("b", p.target), Nw)
        self.advance(st, nb)
        return OPAQUE
    def seek(self, e, st, n, bv, args):
        if len(args) != 2: raise ExtractionError("absolute seek")
        a = args[1]
        while a.get("kind") in ("ImplicitCastExpr", "ParenExpr"): a = e.inner(a)[0]
        if (a.get("referencedDecl") or {}).get("name") != "cur" and a.get("name") != "cur": raise ExtractionError("seek not relative to the current position")
        self.advance(st, e.rv(args[0], st)); return OPAQUE
    def tell(self, e, st, n, bv, args): return self.pos(st)
    def handlers(self):
        return {"method:write": self.write, "method:read": self.read, "method:seekg": self.seek, "method:tellg": self.tell,
                "method:operator long": lambda e, st, n, bv, args: bv, "method:good": lambda e, st, n, bv, args: TRUE}
    def kept_before(self, st, entry):
        q = z3.Int("q")
        return z3.And([z3.ForAll([q], z3.Implies(q <= self.p0 - v, self.arr(st, v)[q] == self.arr(entry, v)[q])) for v in self.W])

class LazyStream:
    """handlers that work on the stream made in pre()"""
    def stream_handlers(self):
        names = ("write", "read", "seekg", "tellg", "operator long", "good")
        return {"method:" + k: (lambda k: lambda e, st, n, bv, args: self.stream.handlers()["method:" + k](e, st, n, bv, args))(k) for k in names}

def fix_param(e, st, name, v):
    for key, nm in e.vname.items():
        if nm == name: st.store[key] = v; e.init[key] = v; e.param[name] = v; return
    raise ExtractionError("no parameter " + name)
