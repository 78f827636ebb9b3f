"""C10: max pooling (both layers): forward maxima, gradient routing, output size."""
from lib import *
SOURCES = ["src/net/MaxPoolingLayer.cpp", "src/net/AdvancedMaxPoolingLayer.cpp", "src/net/SimpleLayer.cpp"] + TSRC
ASM = ("inputs are above numeric_limits<datum>::lowest()", "coordinates and mask positions below 2^24, so that datum stores them exactly")

def mp_state(fn, e, st, adv):
    i = fn.inp = layer_t(fn, e, st, "input_", "data"); d = fn.ind = layer_t(fn, e, st, "input_", "delta")
    o = fn.out = layer_t(fn, e, st, "output_", "data"); od = fn.outd = layer_t(fn, e, st, "output_", "delta")
    rw, rh = fld(e, st, "region_width_"), fld(e, st, "region_height_"); fn.rw, fn.rh = rw, rh
    ow, oh, M = fld(e, st, "output_width_"), fld(e, st, "output_height_"), fld(e, st, "maps_")
    st.assume(z3.And(rw > 0, rh > 0, o.w == ow, o.h == oh, o.M == M, i.M == M, o.S == i.S, fld(e, st, "input_width_") == i.w, fld(e, st, "input_height_") == i.h))
    st.assume(same_shape(i, d)); st.assume(same_shape(o, od))
    if adv:
        fn.sw, fn.sh = fld(e, st, "stride_width_"), fld(e, st, "stride_height_")
        st.assume(z3.And(fn.sw > 0, fn.sh > 0, (ow - 1) * fn.sw + rw <= i.w, (oh - 1) * fn.sh + rh <= i.h, i.w < ow * fn.sw + rw, i.h < oh * fn.sh + rh))
        ms = fn.masks = [own_t(e, st, "maximum_mask_")]
    else:
        fn.sw, fn.sh = rw, rh
        st.assume(z3.And(i.w == ow * rw, i.h == oh * rh))
        ms = fn.masks = [own_t(e, st, "maximum_ix_"), own_t(e, st, "maximum_iy_")]
    for m in ms: st.assume(same_shape(o, m))
    st.assume(z3.And(*[mono(IV(0), z3.IntVal(0), rw)]))

def in_win(fn, x, y, a, b):
    """pixel (a,b) lies in region (x,y)"""
    X, Y = (fn.SX(x), fn.SY(y)) if hasattr(fn, "SX") else (x * fn.sw, y * fn.sh)
    return z3.And(X <= a, a < X + fn.rw, Y <= b, b < Y + fn.rh)

class PoolFF(Fn):
    nparams = 0; assumptions = ASM; adv = False
    def pre(self, e, st):
        mp_state(self, e, st, self.adv); i, o = self.inp, self.out; so, si = o.shape, i.shape; IN = i.a
        # names for the first pixel of a region: congruence instead of nonlinear arithmetic
        self.SX, self.SY = z3.Function("first_x", I, I), z3.Function("first_y", I, I); x = z3.Int("x")
        for F, sd in ((self.SX, self.sw), (self.SY, self.sh)): e.axioms.append(z3.ForAll([x], F(x) == x * sd, patterns=[F(x)]))
        k = z3.Int("i"); st.assume(z3.ForAll([k], IN[k] > LOWEST, patterns=[IN[k]]))
        a, b = z3.Ints("a b")
        W = e.init[("f", "this", "input_width_")]
        def pos(q, st2):
            if self.adv:
                v = z3.ToInt(e.arr(st2, self.masks[0].buf)[q]); return self.PX(v), self.PY(v)
            return z3.ToInt(e.arr(st2, self.masks[0].buf)[q]), z3.ToInt(e.arr(st2, self.masks[1].buf)[q])
        if self.adv:
            # position of a mask value: mask = W*y+x (unique, lemma mask-1)
            self.PX, self.PY = z3.Function("mask_x", I, I), z3.Function("mask_y", I, I)
            x, y = z3.Ints("x y"); self.MP = z3.Function("mask_of", I, I, I); m = self.MP(x, y)
            e.axioms.append(z3.ForAll([x, y], z3.And(m == W * y + x, z3.Implies(z3.And(0 <= x, x < W, 0 <= y), z3.And(self.PX(m) == x, self.PY(m) == y))), patterns=[m]))
        def Rm(ax):
            def R_(q, s2):
                p = pos(q, s2); x, y = so.ux(q), so.uy(q)
                isint = z3.And([e.arr(s2, t.buf)[q] == z3.ToReal(z3.ToInt(e.arr(s2, t.buf)[q])) for t in ([self.masks[ax]] if not self.adv else self.masks)])
                if self.adv: return z3.And(isint, z3.ToInt(e.arr(s2, self.masks[0].buf)[q]) == W * p[1] + p[0], in_win(self, x, y, *p))
                return z3.And(isint, [z3.And(self.SX(x) <= p[0], p[0] < self.SX(x) + self.rw), z3.And(self.SY(y) <= p[1], p[1] < self.SY(y) + self.rh)][ax])
            return R_
        comps = [so.us, so.um, so.ux, so.uy]; exts = [i.S, o.M, o.w, o.h]
        for ax, t in enumerate(self.masks): e.cells[t.buf] = NestCells(e, t.buf, inN(o), Rm(ax), comps, "maximum position %d" % ax, exts=exts)
        def Ro(q, s2):
            p = pos(q, s2); x, y, m, s = so.ux(q), so.uy(q), so.um(q), so.us(q); v = e.arr(s2, o.buf)[q]; u = si.off(a, b, m, s)
            return z3.And(in_win(self, x, y, *p), v == IN[si.off(p[0], p[1], m, s)], z3.ForAll([a, b], z3.Implies(in_win(self, x, y, a, b), IN[u] <= v), patterns=[u]))
        e.cells[o.buf] = NestCells(e, o.buf, inN(o), Ro, comps, "output", exts=exts)
    def loop_inv(self, e, L, st):
        ch = chain(L)
        if len(ch) < 5: return []
        mx = e.accs(L, st, R); ix = e.accs(L, st, I)
        if len(mx) != 1 or len(ix) != 2: raise ExtractionError("running maximum not recognised")
        mx, (mix, miy) = mx[0], ix
        s, m, ox, oy = e.cells[self.out.buf].ctrs(st, ch[:4]); a, b = z3.Ints("a b"); si = self.inp.shape; IN = self.inp.a
        c = [e.cval(st, l.counter) for l in ch]
        o4 = ch[4]; h4 = e.cells[self.out.buf].ctrs(o4.entry, ch[:4]); xfirst = e.valid_qf(o4.entry, o4.cnt0 == h4[2] * self.sw) and not (self.adv and e.valid_qf(o4.entry, o4.cnt0 == h4[3] * self.sh))
        out, inn = (a, b) if xfirst else (b, a)   # which coordinate the outer region loop runs over
        vis = out < c[4] if len(ch) == 5 else z3.Or(out < c[4], z3.And(out == c[4], inn < c[5]))
        u = si.off(a, b, m, s)
        return [("largest so far", z3.ForAll([a, b], z3.Implies(z3.And(in_win(self, ox, oy, a, b), vis), IN[u] <= mx), patterns=[u])),
                ("position so far", z3.And(mx >= LOWEST, z3.Or(mx == LOWEST, z3.And(in_win(self, ox, oy, mix, miy), mx == IN[si.off(mix, miy, m, s)]))))]
    def hints(self, e, L, st):
        ch = chain(L); out = []
        if len(ch) >= 4:
            s, m, ox, oy = e.cells[self.out.buf].ctrs(st, ch[:4]); o = self.out
            u = self.inp.shape.off(ox * self.sw, oy * self.sh, m, s)
            out += [mono(ox, o.w - 1, self.sw), mono(oy, o.h - 1, self.sh), mono(IV(0), ox, self.sw), mono(IV(0), oy, self.sh),
                    mono(ox + 1, o.w, self.sw), mono(oy + 1, o.h, self.sh), seen(self.inp.a[u])] + ([seen(self.SX(ox)), seen(self.SY(oy))])
            if self.adv and len(ch) >= 5:
                ix = e.accs(L, st, I)
                if len(ix) == 2: out.append(seen(self.MP(ix[0], ix[1])))
        return out
    def post(self, e, st, ret, kind):
        for n, t in list(enumerate(self.masks)): post(e, st, e.cells[t.buf].post(st), "recorded maximum position %d lies in the region" % n)
        post(e, st, e.cells[self.out.buf].post(st), "output is the input at the recorded position and no element of the region exceeds it")
        post(e, st, unchanged(e, st, self.inp), "input unchanged")

class MaxFF(PoolFF): qual = "Conv::MaxPoolingLayer::FeedForward"
class AdvFF(PoolFF): qual = "Conv::AdvancedMaxPoolingLayer::FeedForward"; adv = True

class Split2:
    def __init__(self, e, name, sh, u, r):
        self.Q = z3.Function("quot_" + name, I, I); self.u, self.r = u, r; i = z3.Int("i")
        e.axioms.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < sh.N), z3.And(r * self.Q(i) <= u(i), u(i) < r * self.Q(i) + r, 0 <= self.Q(i))), patterns=[self.Q(i)]))
    def inst(self, t, q):
        Q, r = self.Q(t), self.r
        return z3.Implies(z3.And(q * r <= self.u(t), self.u(t) < q * r + r, r * Q <= self.u(t), self.u(t) < r * Q + r), Q == q)

class MaxBP(Fn):
    qual = "Conv::MaxPoolingLayer::BackPropagate"; nparams = 0; assumptions = ASM
    def handlers(self): return dict(H_TENSOR)
    def pre(self, e, st):
        mp_state(self, e, st, False); d, o = self.ind, self.out; sd, so = d.shape, o.shape
        MX, MY, OD = [t.a for t in self.masks] + [self.outd.a]
        self.PX, self.PY = z3.Function("max_x", I, I), z3.Function("max_y", I, I); q = z3.Int("i")
        # what the forward pass recorded (proved for FeedForward)
        for MT, P, u, r in ((MX, self.PX, so.ux, self.rw), (MY, self.PY, so.uy, self.rh)):
            st.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < o.N), z3.And(MT[q] == z3.ToReal(P(q)), u(q) * r <= P(q), P(q) < u(q) * r + r)), patterns=[MT[q]]))
            st.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < o.N), z3.And(MT[q] == z3.ToReal(P(q)), u(q) * r <= P(q), P(q) < u(q) * r + r)), patterns=[P(q)]))
        X, Y = self.X, self.Y = Split2(e, "x", sd, sd.ux, self.rw), Split2(e, "y", sd, sd.uy, self.rh)
        def R_(i, s2):
            c = so.off(X.Q(i), Y.Q(i), sd.um(i), sd.us(i))
            return e.arr(s2, d.buf)[i] == z3.If(z3.And(X.Q(i) < o.w, Y.Q(i) < o.h, self.PX(c) == sd.ux(i), self.PY(c) == sd.uy(i)), OD[c], 0)
        e.cells[d.buf] = NestCells(e, d.buf, inN(d), R_, [sd.us, sd.um, X.Q, Y.Q], "input gradient", exts=[d.S, d.M, o.w, o.h])
        self.Q = z3.Int("i")
        st.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < d.N, mono(o.w, X.Q(q), self.rw), mono(o.h, Y.Q(q), self.rh)), z3.And(X.Q(q) < o.w, Y.Q(q) < o.h)), patterns=[X.Q(q)]))
    def hints(self, e, L, st):
        ch = chain(L); out = []; o, d = self.out, self.ind
        if len(ch) >= 4:
            s, m, ox, oy = e.cells[self.ind.buf].ctrs(st, ch[:4]); c = o.shape.off(ox, oy, m, s); t = d.shape.off(self.PX(c), self.PY(c), m, s)
            out += [mono(ox + 1, o.w, self.rw), mono(oy + 1, o.h, self.rh), mono(IV(0), ox, self.rw), mono(IV(0), oy, self.rh), self.X.inst(t, ox), self.Y.inst(t, oy)]
        return out
    def post(self, e, st, ret, kind):
        post(e, st, e.cells[self.ind.buf].post(st), "every input gradient is the gradient of the region whose maximum was taken from it, or zero")
        for t in self.masks + [self.outd, self.inp]: post(e, st, unchanged(e, st, t), "inputs unchanged")

class AdvBP(Fn):
    qual = "Conv::AdvancedMaxPoolingLayer::BackPropagate"; nparams = 0; assumptions = ASM
    def pre(self, e, st):
        mp_state(self, e, st, True); d, o = self.ind, self.out; sd, so = d.shape, o.shape
        MK, OD = self.masks[0].a, self.outd.a; W = e.init[("f", "this", "input_width_")]
        self.PX, self.PY = z3.Function("max_x", I, I), z3.Function("max_y", I, I); q = z3.Int("i"); PX, PY = self.PX, self.PY
        # what the forward pass recorded (proved for FeedForward)
        self.ffinv = lambda q: z3.Implies(z3.And(0 <= q, q < o.N), z3.And(MK[q] == z3.ToReal(W * PY(q) + PX(q)), in_win(self, so.ux(q), so.uy(q), PX(q), PY(q)), 0 <= PX(q), PX(q) < W))
        st.assume(z3.ForAll([q], self.ffinv(q), patterns=[MK[q]]))
        def c(x, y, m, s, oy, ox):
            k = so.off(ox, oy, m, s); return z3.If(MK[k] == z3.ToReal(x + W * y), OD[k], 0)
        row = self.row = Sum(e, "bp_row", 5, lambda x, y, m, s, oy, n: c(x, y, m, s, oy, n))
        tot = self.tot = Sum(e, "bp_sum", 4, lambda x, y, m, s, n: row(x, y, m, s, n, o.w))
        e.cells[d.buf] = NestCells(e, d.buf, inN(d), lambda i, s2: e.arr(s2, d.buf)[i] == tot(sd.ux(i), sd.uy(i), sd.um(i), sd.us(i), o.h), [sd.us, sd.um, sd.ux, sd.uy], "input gradient", exts=[d.S, d.M, d.w, d.h])
        # a contribution comes only from regions that contain the pixel
        x, y, m, s, oy, ox, n = z3.Ints("x y m s oy ox n"); k = so.off(ox, oy, m, s)
        dom = z3.And(0 <= x, x < d.w, 0 <= y, y < d.h, 0 <= m, m < o.M, 0 <= s, s < o.S)
        L1 = z3.Implies(z3.And(dom, so.inr(ox, oy, m, s), z3.Not(in_win(self, ox, oy, x, y))), c(x, y, m, s, oy, ox) == 0)
        hyp = [dom, so.inr(ox, oy, m, s)] + list(so.axioms()) + [self.ffinv(k), so.ux(k) == ox, so.uy(k) == oy, 0 <= k, k < o.N, z3.Not(in_win(self, ox, oy, x, y)),
               mono(y + 1, PY(k), W), mono(PY(k) + 1, y, W), W == d.w]
        e.obls.append(Obl("AdvancedMaxPoolingLayer::BackPropagate: ghost lemma: only regions containing the pixel contribute", hyp, c(x, y, m, s, oy, ox) == 0, "lemma"))
        dx, dy = z3.Function("lo_x", I, I), z3.Function("lo_y", I, I); ex_, ey = z3.Function("hi_x", I, I), z3.Function("hi_y", I, I)
        self.lo = {0: dx, 1: dy}; self.hi = {0: ex_, 1: ey}
        for lo, hi, r, sd_, n_ in ((dx, ex_, self.rw, self.sw, o.w), (dy, ey, self.rh, self.sh, o.h)):
            e.axioms.append(z3.ForAll([x], z3.Implies(x >= 0, z3.And(lo(x) == z3.If(x < r, 0, (x - r) / sd_ + 1), hi(x) == z3.If(x / sd_ + 1 < n_, x / sd_ + 1, n_), lo(x) >= 0, hi(x) >= 0)), patterns=[lo(x)]))
            # lemma div-1/div-2: regions below lo or from hi on do not contain x
        # rows outside [lo_y, hi_y) sum to zero; inside a row only [lo_x, hi_x) counts: by induction
        outx = z3.And(ox >= 0, ox < o.w, z3.Or(ox < dx(x), ox >= ex_(x)))
        def step(name, hyps, goal): e.obls.append(Obl("AdvancedMaxPoolingLayer::BackPropagate: ghost lemma %s (induction step)" % name, hyps, goal, "lemma"))
        cz = c(x, y, m, s, oy, n)
        notin = lambda ax, p, lo, hi: z3.Implies(z3.Or(p < lo, p >= hi), z3.Not(z3.And(p * [self.sw, self.sh][ax] <= [x, y][ax], [x, y][ax] < p * [self.sw, self.sh][ax] + [self.rw, self.rh][ax])))
        b0 = [dom, 0 <= oy, oy < o.h, 0 <= n, n < o.w, z3.Implies(z3.Not(in_win(self, n, oy, x, y)), cz == 0), row(x, y, m, s, oy, n + 1) == row(x, y, m, s, oy, n) + cz]
        nx = notin(0, n, dx(x), ex_(x)); ny = notin(1, oy, dy(y), ey(y))
        step("row below lo_x", b0 + [nx, n < dx(x), row(x, y, m, s, oy, n) == 0], row(x, y, m, s, oy, n + 1) == 0)
        e.axioms.append(z3.ForAll([x, y, m, s, oy], z3.Implies(z3.And(dom, 0 <= oy, oy < o.h, dx(x) <= o.w), row(x, y, m, s, oy, dx(x)) == 0), patterns=[row(x, y, m, s, oy, dx(x))]))
        step("row above hi_x", b0 + [nx, n >= ex_(x), row(x, y, m, s, oy, n) == row(x, y, m, s, oy, ex_(x))], row(x, y, m, s, oy, n + 1) == row(x, y, m, s, oy, ex_(x)))
        e.axioms.append(z3.ForAll([x, y, m, s, oy], z3.Implies(z3.And(dom, 0 <= oy, oy < o.h, ex_(x) <= o.w), row(x, y, m, s, oy, o.w) == row(x, y, m, s, oy, ex_(x))), patterns=[row(x, y, m, s, oy, ex_(x))]))
        step("row outside the vertical range", b0 + [ny, z3.Or(oy < dy(y), oy >= ey(y)), row(x, y, m, s, oy, n) == 0], row(x, y, m, s, oy, n + 1) == 0)
        t0 = [dom, 0 <= n, n < o.h, tot(x, y, m, s, n + 1) == tot(x, y, m, s, n) + row(x, y, m, s, n, o.w), z3.Implies(z3.Or(n < dy(y), n >= ey(y)), row(x, y, m, s, n, o.w) == 0)]
        step("sum below lo_y", t0 + [n < dy(y), tot(x, y, m, s, n) == 0], tot(x, y, m, s, n + 1) == 0)
        e.axioms.append(z3.ForAll([x, y, m, s], z3.Implies(z3.And(dom, dy(y) <= o.h), tot(x, y, m, s, dy(y)) == 0), patterns=[tot(x, y, m, s, dy(y))]))
        step("sum above hi_y", t0 + [n >= ey(y), tot(x, y, m, s, n) == tot(x, y, m, s, ey(y))], tot(x, y, m, s, n + 1) == tot(x, y, m, s, ey(y)))
        e.axioms.append(z3.ForAll([x, y, m, s], z3.Implies(z3.And(dom, ey(y) <= o.h), tot(x, y, m, s, o.h) == tot(x, y, m, s, ey(y))), patterns=[tot(x, y, m, s, ey(y))]))
    # the code's loops run over [lo, hi); where lo >= hi nothing is summed: then lo == 0's neighbour (lemma) is avoided by stating lo <= hi for pixels inside some region
    def loop_inv(self, e, L, st):
        ch = chain(L)
        if len(ch) < 5: return []
        a = e.accs(L, st, R)
        if len(a) != 1: raise ExtractionError("accumulator not recognised")
        s, m, x, y = e.cells[self.ind.buf].ctrs(st, ch[:4])
        oy = e.cval(st, ch[4].counter); v = self.tot(x, y, m, s, oy)
        if len(ch) == 6: v = v + self.row(x, y, m, s, oy, e.cval(st, ch[5].counter))
        return [("partial gradient", a[0] == v)]
    def hints(self, e, L, st):
        ch = chain(L); out = []; o, d = self.out, self.ind
        if len(ch) >= 4:
            s, m, x, y = e.cells[self.ind.buf].ctrs(st, ch[:4])
            for ax, v, n_, sd_, r in ((0, x, o.w, self.sw, self.rw), (1, y, o.h, self.sh, self.rh)):
                lo, hi = self.lo[ax](v), self.hi[ax](v)
                q1 = (v - r) / sd_; q2 = v / sd_
                # instances of lemmas div-lo / div-hi
                out += [seen(lo), seen(hi), z3.Implies(v >= r, z3.And(q1 >= 0, q1 * sd_ <= v - r, v - r < q1 * sd_ + sd_)), z3.And(q2 >= 0, q2 * sd_ <= v, v < q2 * sd_ + sd_),
                        mono(q1, q2, sd_), mono(q2 + 1, q1, sd_), mono(n_, q1 + 1, sd_)]
            out.append(seen(self.tot(x, y, m, s, self.lo[1](y))))
            out.append(seen(self.tot(x, y, m, s, self.hi[1](y))))
        if len(ch) >= 5:
            oy = e.cval(st, ch[4].counter)
            for f in (self.lo[0], self.hi[0]):
                t = self.row(x, y, m, s, oy, f(x)); out.append(seen(t))
            out.append(tick(oy))
        if len(ch) == 6: out.append(tick(e.cval(st, ch[5].counter)))
        return out
    def post(self, e, st, ret, kind):
        post(e, st, e.cells[self.ind.buf].post(st), "every input gradient is the sum over the regions whose maximum was taken from it")
        for t in self.masks + [self.outd]: post(e, st, unchanged(e, st, t), "inputs unchanged")

class MaxCreate(CreateOutputs):
    qual = "Conv::MaxPoolingLayer::CreateOutputs"
    def setup(self, e, st): self.rw, self.rh = fld(e, st, "region_width_"), fld(e, st, "region_height_")
    def ok(self, e, ts): return z3.And(self.rw > 0, self.rh > 0, ts[0].w % self.rw == 0, ts[0].h % self.rh == 0)
    def dims(self, e, ts): t = ts[0]; return [(t.S, t.w / self.rw, t.h / self.rh, t.M)]

class AdvCreate(CreateOutputs):
    qual = "Conv::AdvancedMaxPoolingLayer::CreateOutputs"
    def setup(self, e, st):
        self.rw, self.rh, self.sw, self.sh = [fld(e, st, n) for n in ("region_width_", "region_height_", "stride_width_", "stride_height_")]
    def ok(self, e, ts): return z3.And(self.rw > 0, self.rh > 0, self.sw > 0, self.sh > 0, ts[0].w >= self.rw, ts[0].h >= self.rh)
    def dims(self, e, ts): t = ts[0]; return [(t.S, (t.w - self.rw) / self.sw + 1, (t.h - self.rh) / self.sh + 1, t.M)]

class MaxConnect(LayerConnect):
    qual = "Conv::MaxPoolingLayer::Connect"
    def scalars(self, e, i, o): return {"input_width_": i.w, "input_height_": i.h, "output_width_": o.w, "output_height_": o.h, "maps_": i.M}
    def buffers(self, e, i, o): return {m: (i.S, o.w, o.h, i.M) for m in ("maximum_ix_", "maximum_iy_")}

class AdvConnect(LayerConnect):
    qual = "Conv::AdvancedMaxPoolingLayer::Connect"; scalars = MaxConnect.scalars
    def buffers(self, e, i, o): return {"maximum_mask_": (i.S, o.w, o.h, i.M)}

def FNS(): return [MaxCreate(), AdvCreate(), SimpleConnect(), MaxConnect(), AdvConnect(), MaxFF(), AdvFF(), MaxBP(), AdvBP()]
def LEMMAS():
    v, r, s, q, p, W, x, y, x2, y2, n = z3.Ints("v r s q p W x y x2 y2 n")
    return layout_lemmas() + [
        ("div-lo: regions before (v-r)/s+1 end before v", [s > 0, r > 0, v >= r, q == (v - r) / s, q * s <= v - r, v - r < q * s + s, 0 <= p, p < q + 1, mono(p, q, s)], p * s + r <= v),
        ("div-hi: regions from v/s+1 on start behind v", [s > 0, v >= 0, q == v / s, q * s <= v, v < q * s + s, p >= q + 1, mono(q + 1, p, s)], p * s > v),
        ("div-lo-0: no region precedes the first", [v < r, 0 <= p, p < 0], z3.BoolVal(False)),
        ("mask-1: mask positions are unique", [0 <= x, x < W, 0 <= x2, x2 < W, W * y + x == W * y2 + x2, mono(y + 1, y2, W), mono(y2 + 1, y, W)], z3.And(x == x2, y == y2)),
        ("split-3: region of a pixel is unique", [s > 0, p * s <= v, v < p * s + s, q * s <= v, v < q * s + s, mono(p + 1, q, s), mono(q + 1, p, s)], p == q),
        ("div-0: quotient and remainder", [s > 0, q == v / s], z3.And(q * s <= v, v < q * s + s))]
