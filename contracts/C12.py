"""C12: concatenation, sum and fan-out (gradient accumulation) layers."""
from lib import *
SOURCES = ["src/net/ConcatenationLayer.cpp", "src/net/SumLayer.cpp", "src/net/GradientAccumulationLayer.cpp"] + TSRC
H = dict(H_TENSOR, **{"Conv::Tensor::CopyMap": h_copymap, "Conv::Tensor::CopySample": h_copysample, "Conv::TensorMath::ADD": h_add})
CM = {"input_a_": ("in", 0), "input_b_": ("in", 1), "output_": ("out", 0)}

class CCreate(CreateOutputs):
    qual = "Conv::ConcatenationLayer::CreateOutputs"; nin = 2
    def setup(self, e, st):
        for _, t in self.ins: st.assume(z3.And(t.M < 2 ** 24, t.S < 2 ** 24))
    def ok(self, e, ts): a, b = ts; return z3.And(a.w == b.w, a.h == b.h, a.S == b.S)
    def dims(self, e, ts): a, b = ts; return [(a.S, a.w, a.h, a.M + b.M)]

class CConnect(ConnectFn):
    qual = "Conv::ConcatenationLayer::Connect"; nin = 2
    def ok(self, e, i, o): return z3.And(i[0].S == i[1].S, o[0].N == i[0].N + i[1].N)
    def members(self): return CM
    def scalars(self, e, i, o): return {"maps_a_": i[0].M, "maps_b_": i[1].M, "samples_": i[0].S}

class CBase(Fn):
    nparams = 0
    def handlers(self): return H
    def pre(self, e, st):
        a, b, o = self.a, self.b, self.o = [layer_t(self, e, st, m, self.which) for m in ("input_a_", "input_b_", "output_")]
        st.assume(z3.And(a.w == b.w, a.h == b.h, a.S == b.S, o.w == a.w, o.h == a.h, o.S == a.S, o.M == a.M + b.M,
                  fld(e, st, "maps_a_") == a.M, fld(e, st, "maps_b_") == b.M, fld(e, st, "samples_") == a.S))

class CFF(CBase):
    qual = "Conv::ConcatenationLayer::FeedForward"; which = "data"
    def pre(self, e, st):
        CBase.pre(self, e, st); a, b, o = self.a, self.b, self.o; so = o.shape; A, B_ = a.a, b.a
        e.cells[o.buf] = Cells(e, o.buf, so, inN(o), lambda k, s2: e.arr(s2, o.buf)[k] == z3.If(so.um(k) < a.M, A[a.shape.off(so.ux(k), so.uy(k), so.um(k), so.us(k))],
                               B_[b.shape.off(so.ux(k), so.uy(k), so.um(k) - a.M, so.us(k))]), "output")
    def post(self, e, st, ret, kind):
        post(e, st, e.cells[self.o.buf].post(st), "the maps of the first input are followed by those of the second, sample by sample")
        for t in (self.a, self.b): post(e, st, unchanged(e, st, t), "inputs unchanged")

class CBP(CBase):
    qual = "Conv::ConcatenationLayer::BackPropagate"; which = "delta"
    def pre(self, e, st):
        CBase.pre(self, e, st); a, b, o = self.a, self.b, self.o; so = o.shape; G = o.a
        for t, d in ((a, IV(0)), (b, a.M)):
            sh = t.shape
            e.cells[t.buf] = Cells(e, t.buf, sh, inN(t), lambda k, s2, t=t, sh=sh, d=d: e.arr(s2, t.buf)[k] == G[so.off(sh.ux(k), sh.uy(k), d + sh.um(k), sh.us(k))], "gradient of an input")
    def post(self, e, st, ret, kind):
        for t in (self.a, self.b): post(e, st, e.cells[t.buf].post(st), "every map's gradient returns to the input it came from")
        post(e, st, unchanged(e, st, self.o), "output gradient unchanged")

class SCreate(CreateOutputs):
    qual = "Conv::SumLayer::CreateOutputs"; nin = 2
    def setup(self, e, st):
        for _, t in self.ins: st.assume(z3.And(t.M < 2 ** 24, t.S < 2 ** 24))
    def ok(self, e, ts): a, b = ts; return z3.And(a.w == b.w, a.h == b.h, a.S == b.S, a.M == b.M)
    def dims(self, e, ts): a, b = ts; return [(a.S, a.w, a.h, a.M)]

class SConnect(ConnectFn):
    qual = "Conv::SumLayer::Connect"; nin = 2
    def ok(self, e, i, o): return z3.And(i[0].S == i[1].S, o[0].N == i[0].N, o[0].N == i[1].N)
    def members(self): return CM
    def scalars(self, e, i, o): return {"samples_": i[0].S}

class SBase(Fn):
    nparams = 0
    def handlers(self): return H
    def pre(self, e, st):
        a, b, o = self.a, self.b, self.o = [layer_t(self, e, st, m, self.which) for m in ("input_a_", "input_b_", "output_")]
        st.assume(same_shape(a, b, o)); st.assume(fld(e, st, "samples_") == a.S)

class SFF(SBase):
    qual = "Conv::SumLayer::FeedForward"; which = "data"
    def post(self, e, st, ret, kind):
        k = z3.Int("i"); o = self.o
        post(e, st, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < o.N), e.arr(st, o.buf)[k] == A0(e, self.a)[k] + A0(e, self.b)[k])), "output is the element-wise sum")
        for t in (self.a, self.b): post(e, st, unchanged(e, st, t), "inputs unchanged")

class SBP(SBase):
    qual = "Conv::SumLayer::BackPropagate"; which = "delta"
    def pre(self, e, st):
        SBase.pre(self, e, st); G = self.o.a; so = self.o.shape
        for t in (self.a, self.b):
            e.cells[t.buf] = NestCells(e, t.buf, inN(t), lambda k, s2, t=t: e.arr(s2, t.buf)[k] == G[k], [t.shape.us], "gradient of an input")
    def post(self, e, st, ret, kind):
        for t in (self.a, self.b): post(e, st, e.cells[t.buf].post(st), "both inputs get the output gradient")
        post(e, st, unchanged(e, st, self.o), "output gradient unchanged")

class GBP(Fn):
    qual = "Conv::GradientAccumulationLayer::BackPropagate"; nparams = 0
    def handlers(self): return H
    def pre(self, e, st):
        d = self.d = layer_t(self, e, st, "input_", "delta")
        K, S, E = fld(e, st, "output_count_"), fld(e, st, "samples_"), fld(e, st, "elements_per_sample_"); self.E = E
        st.assume(z3.And(d.S == S, d.N == S * E, E > 0))
        vo = ("fld", "this", "outputs_"); st.assume(vec_size(e, st, vo) == K)
        G = self.G = z3.Function("output_gradient", I, z3.ArraySort(I, R))
        def fam(e2, s2, i, oid):
            t = wf_tensor(e2, s2, ("fld", oid, "delta"))
            e2.axioms.append(z3.And(t.S == d.S, t.w == d.w, t.h == d.h, t.M == d.M, t.N == d.N, z3.Not(t.ptr.null), z3.Not(z3.Bool(keyname(oid[1]) + ".null"))))
            e2.axioms.append(t.a == G(i))
        e.families[vo] = fam
        class One: pass
        sp = self.sp = Split(e, "elem", d.shape, lambda i: i, E); i = z3.Int("i")
        e.axioms.append(z3.ForAll([i], mono(S, sp.Q(i), E), patterns=[sp.Q(i)]))
        sc = self.sc = Scatter(e, d.buf, "fanout", [sp.Q, sp.M], [lambda i: K], lambda i, k: G(k)[i], lambda i: z3.RealVal(0), inN(d))
        e.cells[d.buf] = sc
    def hints(self, e, L, st):
        ch = chain(L); out = [tick(ctr(e, st, L))]
        if len(ch) >= 2:
            s, m = ctr(e, st, ch[0]), ctr(e, st, ch[1])
            out += [self.sp.inst(s * self.E + m, s, m), mono(s + 1, fld(e, st, "samples_"), self.E), mono(IV(0), s, self.E), seen(self.sp.Q(s * self.E + m))]
        return out
    def post(self, e, st, ret, kind):
        post(e, st, self.sc.post(st), "every input gradient is the sum of all output gradients")

class GFF(Fn):
    qual = "Conv::GradientAccumulationLayer::FeedForward"; nparams = 0
    def pre(self, e, st): self.i = layer_t(self, e, st, "input_", "data")
    def post(self, e, st, ret, kind): post(e, st, z3.And(unchanged(e, st, self.i), TRUE), "input unchanged (outputs share its storage)")

OUTS = ("fld", "this", "outputs_"); OP = ("param", "outputs")
class GConnect(Fn):
    """exactly one given input and the configured number of given outputs of the input's size are accepted; the outputs are remembered in order"""
    qual = "Conv::GradientAccumulationLayer::Connect"; nparams = 3
    def handlers(self): return dict(H_TENSOR, **{"method:push_back": self.push})
    def pre(self, e, st):
        ns = list(e.param); vi, vo = self.vo = ("param", ns[0]), ("param", ns[1]); self.K = fld(e, st, "output_count_"); st.assume(z3.And(self.K >= 0, self.K < 2 ** 31))
        self.n0, self.n1 = vec_size(e, st, vi), vec_size(e, st, vo); p = self.p = vec_ptr(e, st, vi, 0); t = self.t = wf_tensor(e, st, ("fld", p.target, "data"))
        st.assume(z3.Implies(z3.Not(p.null), dims_pos(t))); st.assume(z3.And(t.w < 2 ** 24, t.h < 2 ** 24, t.M < 2 ** 24, t.S < 2 ** 24, t.w * t.h < 2 ** 32, t.w * t.h * t.M < 2 ** 32))
        NUL, FS, FN = z3.Function("output_null", I, z3.BoolSort()), z3.Function("output_samples", I, I), z3.Function("output_elements", I, I); self.idx = {}
        self.fits = lambda i: z3.And(z3.Not(NUL(i)), FS(i) == t.S, FN(i) == t.N); self.NUL = NUL
        def fam(e2, s2, i, oid):
            u = wf_tensor(e2, s2, ("fld", oid, "data")); self.idx[oid] = i
            e2.axioms.append(z3.And(u.S == FS(i), u.N == FN(i), z3.Bool(keyname(oid[1]) + ".null") == NUL(i)))
        e.families[vo] = fam; e.wr(st, ("f", OUTS, "$size"), IV(0))
    def push(self, e, st, n, bv, args):
        if not (isinstance(bv, StructV) and bv.oid == OUTS): return NotImplemented
        v = e.rv(args[0], st); s = e.rd(st, ("f", OUTS, "$size"), U64); i = self.idx.get(v.target)
        if i is None: raise ExtractionError("remembered output not recognised")
        e.obl(st, s == i, "%s: outputs are remembered in their order" % e.fname, "postcondition", n); e.wr(st, ("f", OUTS, "$size"), z3.simplify(s + 1)); return OPAQUE
    def loop_inv(self, e, L, st):
        c = ctr(e, st, L); k = z3.Int("k")
        return [("outputs so far fit", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < c), self.fits(k)), patterns=[self.NUL(k)])), ("outputs so far are remembered", e.rd(st, ("f", OUTS, "$size"), U64) == c)]
    def post(self, e, st, ret, kind):
        k = z3.Int("k"); t = self.t
        ok = z3.And(self.n0 == 1, z3.Not(self.p.null), self.n1 == self.K, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.K), self.fits(k)), patterns=[self.NUL(k)])); r = z3.simplify(e.to_bool(ret))
        post(e, st, r == ok, "accepted exactly if the tensors fit together")
        if z3.is_false(r): return
        st2 = st.fork(); st2.assume(r); post(e, st2, e.rd(st2, ("f", OUTS, "$size"), U64) == self.K, "all outputs are remembered")
        post(e, st2, z3.BoolVal(ptr_is(e.rd(st2, ("f", "this", "input_"), PCT), self.p)), "input_ is the given tensor"); post(e, st2, z3.And(fld(e, st2, "samples_") == t.S, fld(e, st2, "elements_per_sample_") == t.w * t.h * t.M), "sizes are remembered")

def FNS(): return [GConnect(), CCreate(), CConnect(), CFF(), CBP(), SCreate(), SConnect(), SFF(), SBP(), GBP()]
def LEMMAS(): return layout_lemmas() + split_lemmas()
