"""C08: IM2COL is exact, COL2IM is its adjoint."""
from lib import *
SOURCES = ["src/math/TensorMath.cpp"] + TSRC

class Geo:
    """geometry both functions work with; the same expressions as IM2COL computes"""
    def __init__(self, e, st, src, tgt):
        p = e.param; self.e = e
        self.s = s = param_tensor(e, st, src, nonempty=True); self.t = t = param_tensor(e, st, tgt, nonempty=True)
        self.kw, self.kh, self.sw, self.sh, self.pw, self.ph = [p[k] for k in ("kernel_width", "kernel_height", "stride_width", "stride_height", "pad_width", "pad_height")]
        W, H, M, S = p["source_width"], p["source_height"], p["maps"], p["samples"]
        self.W, self.H, self.M, self.S = W, H, M, S
        kw, kh, sw, sh_, pw, ph = self.kw, self.kh, self.sw, self.sh, self.pw, self.ph
        st.assume(z3.And(kw > 0, kh > 0, sw > 0, sh_ > 0, pw >= 0, ph >= 0, W > 0, H > 0, M > 0, S > 0))
        st.assume(z3.And(s.w == W, s.h == H, s.M == M, s.S == S))
        st.assume(z3.And(2 * pw + W >= kw, 2 * ph + H >= kh))
        self.tw = (2 * pw + W - kw) / sw + 1; self.th = (2 * ph + H - kh) / sh_ + 1; self.tm = kw * kh * M
        st.assume(z3.And(t.w == self.tw, t.h == self.th, t.M == S, t.S == self.tm, self.tm > 0, kw * kh > 0, self.tw > 0, self.th > 0))
        st.assume(S * self.tw * self.th * self.tm == t.S * t.w * t.h * t.M)
        for x in (s, t): sample_axioms(e, x.shape)
        # names for the kernel position of a column row (kx, ky, input map); definitions unfolded where a counter says so
        self.KX, self.KY, self.IM = [z3.Function(n, I, I) for n in ("kx", "ky", "imap")]
        r = z3.Int("r")
        P = kw * kh
        e.axioms.append(z3.ForAll([r], z3.Implies(z3.And(0 <= r, r < self.tm), z3.And(self.KX(r) == r % kw, self.KY(r) == (r / kw) % kh, self.IM(r) == r / P,
                         0 <= self.KX(r), self.KX(r) < kw, 0 <= self.KY(r), self.KY(r) < kh, 0 <= self.IM(r), self.IM(r) < M)), patterns=[z3.MultiPattern(self.KX(r), tick(r)), z3.MultiPattern(self.IM(r), tick(r))]))
    def ix(self, ox, tm): return ox * self.sw - self.pw + self.KX(tm)
    def iy(self, oy, tm): return oy * self.sh - self.ph + self.KY(tm)
    def hints(self, e, L, st):
        ch = chain(L); n = ctr(e, st, L); out = [tick(n)]
        if len(ch) >= 2:
            r = ctr(e, st, ch[1]); out += [seen(self.KX(r)), tick(r)]
            P = self.kw * self.kh
            out.append(z3.Implies(z3.And(0 <= r, r < self.tm), z3.And(self.KX(r) == r % self.kw, self.KY(r) == (r / self.kw) % self.kh, self.IM(r) == r / P,
                       0 <= self.KX(r), self.KX(r) < self.kw, 0 <= self.KY(r), self.KY(r) < self.kh, 0 <= self.IM(r), self.IM(r) < self.M)))
        if len(ch) >= 4:
            s, r, oy, ox = [ctr(e, st, l) for l in ch[:4]]
            t = self.t.shape.off(ox, oy, s, r); u = self.s.shape.off(self.ix(ox, r), self.iy(oy, r), self.IM(r), s)
            out += [seen(t), z3.Implies(self.t.shape.inr(ox, oy, s, r), z3.And(0 <= t, t < self.t.N, t == self.t.shape.off(IV(0), IV(0), IV(0), r) + ((s * self.th + oy) * self.tw + ox), self.t.shape.ux(t) == ox, self.t.shape.uy(t) == oy, self.t.shape.um(t) == s, self.t.shape.us(t) == r)),
                    z3.Implies(self.s.shape.inr(self.ix(ox, r), self.iy(oy, r), self.IM(r), s), z3.And(0 <= u, u < self.s.N, u == self.s.shape.off(IV(0), IV(0), IV(0), s) + ((self.IM(r) * self.H + self.iy(oy, r)) * self.W + self.ix(ox, r)),
                       self.s.shape.ux(u) == self.ix(ox, r), self.s.shape.uy(u) == self.iy(oy, r), self.s.shape.um(u) == self.IM(r), self.s.shape.us(u) == s))]
        return out

class Im2Col(Fn):
    qual = "Conv::TensorMath::IM2COL"; nparams = 12
    def pre(self, e, st):
        g = self.g = Geo(e, st, "source", "target"); s, t = g.s, g.t; sh = t.shape; A = A0(e, s)
        def R(i, q):
            x, y, m, r = sh.ux(i), sh.uy(i), sh.um(i), sh.us(i); ix, iy = g.ix(x, r), g.iy(y, r)
            return e.arr(q, t.buf)[i] == z3.If(z3.And(0 <= ix, ix < g.W, 0 <= iy, iy < g.H), A[s.shape.off(ix, iy, g.IM(r), m)], 0)
        e.cells[t.buf] = NestCells(e, t.buf, inN(t), R, [sh.um, sh.us, sh.uy, sh.ux], "column matrix")
    def hints(self, e, L, st): return self.g.hints(e, L, st)
    def post(self, e, st, ret, kind):
        post(e, st, e.cells[self.g.t.buf].post(st), "every column element is the addressed source pixel, or zero in the padding")
        post(e, st, unchanged(e, st, self.g.s), "source unchanged")

def h_setsample(e, st, n, oid, av):
    """TensorMath::SETSAMPLE (proved in C02)"""
    tv = TensorView(e, st, av[0].oid); smp = z3.simplify(av[1]); val = e.to_real(av[2])
    sh = tv.shape; b = tv.buf; D = e.arr(st, b); Nw = fresh("set", D.sort()); i = z3.Int("i")
    e.obl(st, z3.And(smp >= -1, smp < sh.S), "%s: SETSAMPLE sample in range" % e.fname, "precondition", n)
    if z3.is_int_value(smp) and smp.as_long() == -1: sel = z3.And(0 <= i, i < sh.N)
    else: sel = z3.And(0 <= i, i < sh.N, z3.Or(smp == -1, sh.us(i) == smp))
    st.assume(z3.ForAll([i], Nw[i] == z3.If(sel, val, D[i]), patterns=[Nw[i]]))
    e.set_arr(st, b, Nw)
    return OPAQUE

class Col2Im(Fn):
    qual = "Conv::TensorMath::COL2IM"; nparams = 12
    def handlers(self): return {"Conv::TensorMath::SETSAMPLE": h_setsample}
    def pre(self, e, st):
        g = self.g = Geo(e, st, "source", "target"); s, t = g.s, g.t; sh = s.shape; T_ = A0(e, t)
        def contrib(i, r, oy, ox):
            return z3.If(z3.And(sh.um(i) == g.IM(r), sh.uy(i) == g.iy(oy, r), sh.ux(i) == g.ix(ox, r)), T_[t.shape.off(ox, oy, sh.us(i), r)], 0)
        sc = self.sc = Scatter(e, s.buf, "col2im", [sh.us], [lambda i: g.tm, lambda i, r: g.th, lambda i, r, oy: g.tw], contrib, lambda i: z3.RealVal(0), inN(s))
        sc.zero_lemma(2, lambda i, r, oy: z3.And(0 <= sh.uy(i), sh.uy(i) < g.H, z3.Not(z3.And(0 <= g.iy(oy, r), g.iy(oy, r) < g.H))), "rows outside the image contribute nothing")
        e.cells[s.buf] = sc
    def hints(self, e, L, st): return self.g.hints(e, L, st)
    def post(self, e, st, ret, kind):
        post(e, st, self.sc.post(st), "every source element is the sum of exactly the column elements unfolding fills from it; nothing else is written")
        post(e, st, unchanged(e, st, self.g.t), "columns unchanged")

def FNS(): return [Im2Col(), Col2Im()]
def LEMMAS():
    r, kw, kh, M, q, kx, ky, im, P, a, b = z3.Ints("r kw kh M q kx ky im P a b")
    return layout_lemmas() + block_lemmas() + [
        ("row-1: quotient stays below the count", [P > 0, M > 0, 0 <= r, r < P * M, q == r / P, q * P <= r, r < q * P + P, mono(M, q, P), mono(q + 1, 0, P)], z3.And(0 <= q, q < M)),
        ("row-2: remainder is in range", [P > 0, 0 <= r], z3.And(0 <= r % P, r % P < P)),
        ("row-3: kernel column of row (im*kh+ky)*kw+kx", [0 <= kx, kx < kw, a == im * kh + ky, r == a * kw + kx, r % kw + kw * (r / kw) == r, 0 <= r % kw, r % kw < kw,
                     mono(a + 1, r / kw, kw), mono(r / kw + 1, a, kw)], z3.And(r % kw == kx, r / kw == a)),
    ]
