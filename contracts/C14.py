"""C14: local response normalisation."""
from lib import *
SOURCES = ["src/net/LocalResponseNormalizationLayer.cpp", "src/net/SimpleLayer.cpp"] + TSRC
POWF = POW
ASM = ("pow is an unspecified function of two real arguments",)

def h_setsample(e, st, n, oid, av):
    """TensorMath::SETSAMPLE (proved in C02)"""
    return h_clear(e, st, n, av[0].oid, [av[2], av[1]])

class Create(CreateOutputs):
    qual = "Conv::LocalResponseNormalizationLayer::CreateOutputs"
    def ok(self, e, ts): return TRUE
    def dims(self, e, ts): t = ts[0]; return [(t.S, t.w, t.h, t.M)]

class Win:
    """window [lo, hi) of one coordinate, clipped to [0, n)"""
    def __init__(self, e, name, sub, add, n):
        self.lo, self.hi = z3.Function("lo_" + name, I, I), z3.Function("hi_" + name, I, I); c = z3.Int("c")
        f = z3.And(self.lo(c) == z3.If(c - sub > 0, c - sub, 0), self.hi(c) == z3.If(c + add + 1 < n, c + add + 1, n))
        e.axioms.append(z3.ForAll([c], f, patterns=[self.lo(c)])); e.axioms.append(z3.ForAll([c], f, patterns=[self.hi(c)]))
    def n(self, c): return self.hi(c) - self.lo(c)
    def has(self, c, q): return z3.And(self.lo(c) <= q, q < self.hi(c))

class LRN(Fn):
    nparams = 0; assumptions = ASM; within = True
    def label(self): return Fn.label(self) + (" (within)" if self.within else " (across)")
    def handlers(self): return dict(H_TENSOR, **{"Conv::TensorMath::SETSAMPLE": h_setsample, "std::pow": self.h_pow})
    def h_pow(self, e, st, n, oid, args):
        """pow(a, b), with the intermediate assertions that the element count and the base in it are those of the window"""
        a, b = [e.to_real(e.rv(x, st)) for x in args]
        ch = chain(e.loopstack[-1]) if e.loopstack else []
        if e.collect is None and len(ch) >= 4:
            s, m, y, x = [ctr(e, st, l) for l in ch[:4]]
            todo = [a]; us = []
            while todo:
                t = todo.pop()
                if z3.is_app_of(t, z3.Z3_OP_TO_REAL): us.append(t.arg(0))
                else: todo += t.children()
            for u in us[:1]:
                f = u == self.NN(x, y, m, s); e.obl(st, f, "%s: the element count in the response is that of the window" % e.fname, "assertion", n); st.assume(f)
            f = a == self.base(x, y, m, s); e.obl(st, f, "%s: the response is that of the window" % e.fname, "assertion", n); st.assume(f)
        return POW(a, b)
    def pre(self, e, st):
        i, d, o, od = self.i, self.d, self.o, self.od = [layer_t(self, e, st, m, w) for m, w in (("input_", "data"), ("input_", "delta"), ("output_", "data"), ("output_", "delta"))]
        rs = self.rs = own_t(e, st, "region_sums_")
        st.assume(same_shape(i, d, o, od, rs))
        st.assume(z3.And(fld(e, st, "input_width_") == i.w, fld(e, st, "input_height_") == i.h, fld(e, st, "maps_") == i.M))
        for t in (i.w, i.h, i.M): st.assume(t < 2 ** 24)
        size = self.size = fld(e, st, "size_"); st.assume(z3.And(size >= 1, size < 2 ** 24))
        sub, add = (size - 1) / 2, size / 2
        st.assume(e.rd(st, ("f", "this", "normalization_method_"), T("struct", name="LocalResponseNormalizationLayer::NormalizationMethod")) == (1 if self.within else 0))
        self.al, self.be = fld(e, st, "alpha_", RL), fld(e, st, "beta_", RL)
        A = self.A = i.a; sh = self.sh = i.shape
        if self.within:
            X, Y = self.X, self.Y = Win(e, "x", sub, add, i.w), Win(e, "y", sub, add, i.h)
            row = self.row = Sum(e, "win_row", 5, lambda x, y, m, s, iy, ix: A[sh.off(ix, iy, m, s)] * A[sh.off(ix, iy, m, s)], start=lambda x, y, m, s, iy: X.lo(x))
            tot = Sum(e, "win_sum", 4, lambda x, y, m, s, iy: row(x, y, m, s, iy, X.hi(x)), start=lambda x, y, m, s: Y.lo(y))
            self.tot = tot
            self.SS = lambda x, y, m, s: tot(x, y, m, s, Y.hi(y)); self.NN = lambda x, y, m, s: Y.n(y) * X.n(x)
            self.inw = lambda x, y, m, q: z3.And(sh.um(q) == m, X.has(x, sh.ux(q)), Y.has(y, sh.uy(q)))
        else:
            Mw = self.Mw = Win(e, "m", sub, add, i.M)
            tot = self.tot = Sum(e, "win_sum", 4, lambda x, y, m, s, im: A[sh.off(x, y, im, s)] * A[sh.off(x, y, im, s)], start=lambda x, y, m, s: Mw.lo(m))
            self.SS = lambda x, y, m, s: tot(x, y, m, s, Mw.hi(m)); self.NN = lambda x, y, m, s: Mw.n(m)
            self.inw = lambda x, y, m, q: z3.And(sh.ux(q) == x, sh.uy(q) == y, Mw.has(m, sh.um(q)))
        self.base = lambda x, y, m, s: 1 + self.al / z3.ToReal(self.NN(x, y, m, s)) * self.SS(x, y, m, s)
        self.setup(e, st)
    def wl(self, ch):
        """iterations of the window loops done: (outer, inner)"""
        return ch[4:]
    def winloop_inv(self, e, L, st, sums):
        ch = chain(L); out = []
        if len(ch) < 5: return out
        s, m, y, x = [ctr(e, st, l) for l in ch[:4]]
        c = [e.cval(st, l.counter) for l in ch[4:]]   # coordinates of the window loops
        if self.within:
            X, Y = self.X, self.Y
            out.append(("window rows", z3.And(c[0] >= Y.lo(y), c[0] <= Y.hi(y))))
            if len(c) > 1: out.append(("window columns", z3.And(c[1] >= X.lo(x), c[1] <= X.hi(x))))
            cnt = (c[0] - Y.lo(y)) * X.n(x) + (c[1] - X.lo(x) if len(c) > 1 else 0)
            S = self.tot(x, y, m, s, c[0]) + (self.row(x, y, m, s, c[0], c[1]) if len(c) > 1 else 0)
        else:
            Mw = self.Mw
            out.append(("window maps", z3.And(c[0] >= Mw.lo(m), c[0] <= Mw.hi(m)))); cnt = c[0] - Mw.lo(m); S = self.tot(x, y, m, s, c[0])
        a = e.accs(L, st, I)
        if len(a) == 1: out.append(("window elements so far", a[0] == cnt))
        elif a: raise ExtractionError("window counter not recognised")
        a = e.accs(L, st, R)
        if len(a) == 1: out.append(("window sum so far", a[0] == S))
        elif a: raise ExtractionError("window sum not recognised")
        return out
    def loop_inv(self, e, L, st): return self.winloop_inv(e, L, st, None)
    def hints(self, e, L, st):
        ch = chain(L); out = [tick(e.cval(st, L.counter))]
        if len(ch) >= 4:
            s, m, y, x = [ctr(e, st, l) for l in ch[:4]]
            ws = [(self.X, x), (self.Y, y)] if self.within else [(self.Mw, m)]
            for W, c in ws: out += [seen(W.lo(c)), seen(W.hi(c)), W.lo(c) >= 0, W.lo(c) <= c, c < W.hi(c)]
            if self.within: out += [mono(IV(1), self.Y.n(y), self.X.n(x)), self.NN(x, y, m, s) >= 1]
        return out

class LFF(LRN):
    qual = "Conv::LocalResponseNormalizationLayer::FeedForward"
    def setup(self, e, st):
        sh, A, o, rs = self.sh, self.A, self.o, self.rs
        co = lambda k: (sh.ux(k), sh.uy(k), sh.um(k), sh.us(k)); comps = [sh.us, sh.um, sh.uy, sh.ux]
        e.cells[o.buf] = NestCells(e, o.buf, inN(o), lambda k, s2: e.arr(s2, o.buf)[k] == A[k] / POW(self.base(*co(k)), self.be), comps, "output")
        e.cells[rs.buf] = NestCells(e, rs.buf, inN(rs), lambda k, s2: e.arr(s2, rs.buf)[k] == self.SS(*co(k)), comps, "window sums")
    def post(self, e, st, ret, kind):
        post(e, st, e.cells[self.o.buf].post(st), "every output element is the input divided by its neighbourhood response")
        post(e, st, e.cells[self.rs.buf].post(st), "the window sums are remembered")
        post(e, st, unchanged(e, st, self.i), "input unchanged")

class WithinScatter(Scatter):
    """contributions of (y, x) go to the window around it (inner loops) and to the element itself"""
    def __init__(self, fn, e):
        sh = fn.sh; self.fn = fn; d = fn.d
        def contrib(q, y, x): return z3.If(fn.inw(x, y, sh.um(q), q), fn.wterm(q, x, y, sh.um(q), sh.us(q)), 0) + z3.If(z3.And(sh.ux(q) == x, sh.uy(q) == y), fn.sterm(q), 0)
        Scatter.__init__(self, e, d.buf, "grad", [sh.us, sh.um], [lambda q: d.h, lambda q, y: d.w], contrib, lambda q: z3.RealVal(0), inN(d))
    def value(self, q, L, st):
        ch = chain(L); e = self.e; fn = self.fn; sh = fn.sh
        if len(ch) <= 4: return Scatter.value(self, q, L, st)
        s, m, y, x = [ctr(e, st, l) for l in ch[:4]]; c = [e.cval(st, l.counter) for l in ch[4:]]
        iy = c[0]; qx, qy = sh.ux(q), sh.uy(q)
        done = z3.And(fn.inw(x, y, m, q), qy < iy) if len(c) == 1 else z3.And(fn.inw(x, y, m, q), z3.Or(qy < iy, z3.And(qy == iy, qx < c[1])))
        v = Scatter.value(self, q, ch[3], st)
        part = self.f[0](q, y) + self.f[1](q, y, x) + z3.If(done, fn.wterm(q, x, y, m, s), 0)
        return z3.If(z3.And(sh.us(q) == s, sh.um(q) == m), part, v)

class AcrossCells(Scatter):
    """contributions of map m at (x, y) go to the maps of its window and to the element itself"""
    def __init__(self, fn, e):
        sh = fn.sh; self.fn = fn; d = fn.d
        def contrib(q, m): return z3.If(fn.Mw.has(m, sh.um(q)), fn.wterm(q, sh.ux(q), sh.uy(q), m, sh.us(q)), 0) + z3.If(sh.um(q) == m, fn.sterm(q), 0)
        Scatter.__init__(self, e, d.buf, "grad", [sh.us], [lambda q: d.M], contrib, lambda q: z3.RealVal(0), inN(d))
    def value(self, q, L, st):
        ch = chain(L); e = self.e; fn = self.fn; sh = fn.sh
        if len(ch) <= 2: return Scatter.value(self, q, L, st)
        c = [e.cval(st, l.counter) for l in ch]; s, m, y = c[:3]; qx, qy, qm = sh.ux(q), sh.uy(q), sh.um(q)
        before = qy < y if len(ch) == 3 else z3.Or(qy < y, z3.And(qy == y, qx < c[3]))
        part = self.f[0](q, m) + z3.If(before, self.contrib(q, m), 0)
        if len(ch) > 4: part = part + z3.If(z3.And(qx == c[3], qy == y, fn.Mw.lo(m) <= qm, qm < c[4]), fn.wterm(q, qx, qy, m, s), 0)
        return z3.If(sh.us(q) == s, part, z3.If(sh.us(q) < s, self.total(q), self.base(q)))

class LBP(LRN):
    qual = "Conv::LocalResponseNormalizationLayer::BackPropagate"
    def setup(self, e, st):
        sh, A, d = self.sh, self.A, self.d; G, RS = self.od.a, self.rs.a; k = z3.Int("i"); self.G = G
        st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < d.N), RS[k] == self.SS(sh.ux(k), sh.uy(k), sh.um(k), sh.us(k))), patterns=[RS[k]]))   # remembered by FeedForward
        # the terms by name: contribution of output (x,y,m,s) to input q through its response, and the direct one
        self.open_ = z3.Function("open", I, I, I, I, B)
        Gd = self.Gd = z3.Function("direct_term", I, R); x, y, m, s, q = z3.Ints("x y m s q")
        p = sh.off(x, y, m, s); b = self.base(x, y, m, s); an = self.al / z3.ToReal(self.NN(x, y, m, s)); D = POW(b, self.be)
        e.axioms.append(z3.ForAll([q], Gd(q) == G[q] / POW(self.base(sh.ux(q), sh.uy(q), sh.um(q), sh.us(q)), self.be), patterns=[Gd(q)]))
        W = z3.Function("window_term", I, I, I, I, I, R)   # expanded only where a hint opens it
        e.axioms.append(z3.ForAll([q, x, y, m, s], W(q, x, y, m, s) == -((G[p] * A[p] * 2 * self.be * an * A[q] * POW(b, self.be - 1)) / (D * D)), patterns=[z3.MultiPattern(W(q, x, y, m, s), self.open_(x, y, m, s))]))
        self.wterm = W; self.sterm = lambda q: Gd(q)
        self.sc = (WithinScatter if self.within else AcrossCells)(self, e); e.cells[d.buf] = self.sc
    def hints(self, e, L, st):
        ch = chain(L); out = LRN.hints(self, e, L, st)
        if len(ch) == (6 if self.within else 5):
            s, m, y, x = [ctr(e, st, l) for l in ch[:4]]; out.append(self.open_(x, y, m, s))
        return out
    def post(self, e, st, ret, kind):
        post(e, st, self.sc.post(st), "the input gradient is the sum of the derivatives of all outputs")
        for t in (self.i, self.od, self.rs): post(e, st, unchanged(e, st, t), "inputs unchanged")

class LFFa(LFF): within = False
class LBPa(LBP): within = False

class Connect(LayerConnect):
    qual = "Conv::LocalResponseNormalizationLayer::Connect"
    def scalars(self, e, i, o): return {"input_width_": i.w, "input_height_": i.h, "maps_": i.M}
    def buffers(self, e, i, o): return {"region_sums_": (i.S, i.w, i.h, i.M)}

def FNS(): return [SimpleConnect(), Connect(), Create(), LFF(), LFFa(), LBP(), LBPa()]
def LEMMAS(): return layout_lemmas()
