"""C11: border (resize), up-sampling, input down-sampling and spatial-prior layers."""
from lib import *
SOURCES = ["src/net/ResizeLayer.cpp", "src/net/UpscaleLayer.cpp", "src/net/InputDownSamplingLayer.cpp", "src/net/SpatialPriorLayer.cpp", "src/net/SimpleLayer.cpp"] + TSRC

def io(fn, e, st, which):
    """input and output tensors of a connected layer"""
    i, o = layer_t(fn, e, st, "input_", which), layer_t(fn, e, st, "output_", which)
    st.assume(z3.And(i.S == o.S)); return i, o

# ---- border layer
class RCreate(CreateOutputs):
    qual = "Conv::ResizeLayer::CreateOutputs"
    def setup(self, e, st): self.bx, self.by = fld(e, st, "borderx_"), fld(e, st, "bordery_")
    def ok(self, e, ts): return TRUE
    def dims(self, e, ts): t = ts[0]; return [(t.S, t.w + self.bx, t.h + self.by, t.M)]

class RBase(Fn):
    nparams = 0; which = "data"
    def handlers(self): return dict(H_TENSOR)
    def pre(self, e, st):
        i, o = self.i, self.o = io(self, e, st, self.which)
        bx, by = fld(e, st, "borderx_"), fld(e, st, "bordery_"); self.cx, self.cy = bx / 2, by / 2
        st.assume(z3.And(o.w == i.w + bx, o.h == i.h + by, o.M == i.M))
        if self.which == "delta":
            d = layer_t(self, e, st, "input_", "data"); st.assume(same_shape(i, d))
        for t in (i, o): row_axioms(e, t.shape)

class RFF(RBase):
    qual = "Conv::ResizeLayer::FeedForward"
    def pre(self, e, st):
        RBase.pre(self, e, st); i, o = self.i, self.o; so, si = o.shape, i.shape; A = i.a
        self.inside = lambda k: z3.And(self.cx <= so.ux(k), so.ux(k) < self.cx + i.w, self.cy <= so.uy(k), so.uy(k) < self.cy + i.h)
        self.src = lambda k: A[si.off(so.ux(k) - self.cx, so.uy(k) - self.cy, so.um(k), so.us(k))]
        e.cells[o.buf] = NestCells(e, o.buf, lambda k: z3.And(0 <= k, k < o.N, self.inside(k)), lambda k, s2: e.arr(s2, o.buf)[k] == self.src(k), [so.us, so.um, lambda k: so.uy(k) - self.cy], "output")
    def post(self, e, st, ret, kind):
        k = z3.Int("i"); o = self.o
        post(e, st, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < o.N), e.arr(st, o.buf)[k] == z3.If(self.inside(k), self.src(k), 0))), "the input stands at the configured offset, the frame is zero")
        post(e, st, unchanged(e, st, self.i), "input unchanged")

class RBP(RBase):
    qual = "Conv::ResizeLayer::BackPropagate"; which = "delta"
    def pre(self, e, st):
        RBase.pre(self, e, st); i, o = self.i, self.o; so, si = o.shape, i.shape; G = o.a
        e.cells[i.buf] = NestCells(e, i.buf, inN(i), lambda k, s2: e.arr(s2, i.buf)[k] == G[so.off(si.ux(k) + self.cx, si.uy(k) + self.cy, si.um(k), si.us(k))], [si.us, si.um, si.uy], "input gradient")
    def post(self, e, st, ret, kind):
        st2 = st.fork(); st2.assume(e.init[("f", "this", "backprop_enabled_")])
        post(e, st2, e.cells[self.i.buf].post(st2), "every input element gets the gradient of the output element it feeds")
        post(e, st, unchanged(e, st, self.o), "output gradient unchanged")

# ---- up-sampling layer
class UCreate(CreateOutputs):
    qual = "Conv::UpscaleLayer::CreateOutputs"
    def setup(self, e, st): self.rw, self.rh = fld(e, st, "region_width_"), fld(e, st, "region_height_")
    def ok(self, e, ts): return TRUE
    def dims(self, e, ts): t = ts[0]; return [(t.S, t.w * self.rw, t.h * self.rh, t.M)]

class UFF(Fn):
    qual = "Conv::UpscaleLayer::FeedForward"; nparams = 0
    def handlers(self): return {"Conv::TensorMath::UP": h_up}
    def up_split(self, e, sh, rw, rh):
        self.X, self.Y = Split(e, "x", sh, sh.ux, rw), Split(e, "y", sh, sh.uy, rh)
        i = z3.Int("i")   # instances of mul-mono: quotients of coordinates stay below the input size
        for Q, n, r, W in ((self.X.Q, self.i.w, rw, sh.w), (self.Y.Q, self.i.h, rh, sh.h)):
            e.axioms.append(z3.ForAll([i], mono(n, Q(i), r), patterns=[Q(i)]))
        return self.X.Q, self.Y.Q
    def pre(self, e, st):
        i, o = self.i, self.o = io(self, e, st, "data"); self.rw, self.rh = fld(e, st, "region_width_"), fld(e, st, "region_height_")
        st.assume(z3.And(self.rw > 0, self.rh > 0, o.w == i.w * self.rw, o.h == i.h * self.rh, o.M == i.M)); self.A = i.a
    def post(self, e, st, ret, kind):
        k = z3.Int("i"); o, so, si = self.o, self.o.shape, self.i.shape
        post(e, st, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < o.N), e.arr(st, o.buf)[k] == self.A[si.off(self.X.Q(k), self.Y.Q(k), so.um(k), so.us(k))])), "every pixel is repeated over its region")
        post(e, st, unchanged(e, st, self.i), "input unchanged")

class UBP(Fn):
    qual = "Conv::UpscaleLayer::BackPropagate"; nparams = 0
    def handlers(self): return {"Conv::TensorMath::DOWN": h_down}
    def down_sum(self, e, s, rw, rh): self.rs = down_sums(e, s, rw, rh); return self.rs
    def pre(self, e, st):
        i, o = self.i, self.o = io(self, e, st, "delta"); self.rw, self.rh = fld(e, st, "region_width_"), fld(e, st, "region_height_")
        st.assume(z3.And(self.rw > 0, self.rh > 0, o.w == i.w * self.rw, o.h == i.h * self.rh, o.M == i.M))
    def post(self, e, st, ret, kind):
        k = z3.Int("i"); d, sd = self.i, self.i.shape
        post(e, st, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < d.N), e.arr(st, d.buf)[k] == self.rs[1](sd.ux(k), sd.uy(k), sd.um(k), sd.us(k), self.rh))), "every input element gets the sum of the gradients of its region")
        post(e, st, unchanged(e, st, self.o), "output gradient unchanged")

# ---- input down-sampling layer
class DCreate(CreateOutputs):
    qual = "Conv::InputDownSamplingLayer::CreateOutputs"
    def setup(self, e, st): self.rw, self.rh = fld(e, st, "region_width_"), fld(e, st, "region_height_")
    def ok(self, e, ts): return z3.And(self.rw > 0, self.rh > 0, ts[0].w % self.rw == 0, ts[0].h % self.rh == 0)
    def dims(self, e, ts): t = ts[0]; return [(t.S, t.w / self.rw, t.h / self.rh, t.M)]

class DFF(Fn):
    qual = "Conv::InputDownSamplingLayer::FeedForward"; nparams = 0
    def handlers(self): return {"Conv::TensorMath::DOWN": h_down}
    def down_sum(self, e, s, rw, rh): self.rs = down_sums(e, s, rw, rh); return self.rs
    def pre(self, e, st):
        i, o = self.i, self.o = io(self, e, st, "data"); self.rw, self.rh = fld(e, st, "region_width_"), fld(e, st, "region_height_")
        st.assume(z3.And(self.rw > 0, self.rh > 0, i.w == o.w * self.rw, i.h == o.h * self.rh, o.M == i.M))
    def post(self, e, st, ret, kind):
        k = z3.Int("i"); o, so = self.o, self.o.shape
        n = z3.ToReal(self.rw) * z3.ToReal(self.rh)
        post(e, st, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < o.N), e.arr(st, o.buf)[k] == self.rs[1](so.ux(k), so.uy(k), so.um(k), so.us(k), self.rh) * (1 / n))), "every output element is the mean of its region")
        post(e, st, unchanged(e, st, self.i), "input unchanged")

# ---- spatial prior layer
class SCreate(CreateOutputs):
    qual = "Conv::SpatialPriorLayer::CreateOutputs"
    def ok(self, e, ts): return TRUE
    def dims(self, e, ts): t = ts[0]; return [(t.S, t.w, t.h, t.M + 2)]

class SBase(Fn):
    nparams = 0; which = "data"
    def handlers(self): return dict(H_TENSOR, **{"Conv::Tensor::CopyMap": h_copymap})
    def pre(self, e, st):
        i, o = self.i, self.o = io(self, e, st, self.which)
        st.assume(z3.And(o.w == i.w, o.h == i.h, o.M == i.M + 2))
        if self.which == "delta":
            d = layer_t(self, e, st, "input_", "data"); st.assume(same_shape(i, d))

class SFF(SBase):
    qual = "Conv::SpatialPriorLayer::FeedForward"
    def pre(self, e, st):
        SBase.pre(self, e, st); i, o = self.i, self.o; so, si = o.shape, i.shape; A = i.a
        def R_(k, s2):
            x, y, m, s = so.ux(k), so.uy(k), so.um(k), so.us(k)
            return e.arr(s2, o.buf)[k] == z3.If(m == 0, z3.ToReal(x) / z3.ToReal(i.w), z3.If(m == 1, z3.ToReal(y) / z3.ToReal(i.h), A[si.off(x, y, m - 2, s)]))
        self.R_ = R_
        # the map loop fills maps >= 2, the pixel loop maps 0 and 1
        class C_(NestCells):
            def visited(c, L, st, k):
                ch = chain(L); n = [ctr(e, st, l) for l in ch]; s, m = so.us(k), so.um(k)
                if len(ch) == 1: return z3.And(0 <= s, s < n[0])
                root = ch[1]
                first = root.isfirst if hasattr(root, "isfirst") else None
                a = e.cval(st, root.counter)
                if self.maploop(e, root): r = z3.And(2 <= m, (m < a)) if len(ch) == 2 else z3.Or(z3.And(len(ch) == 3, m == a, n[2] > 0), FALSE)
                else: r = z3.And(m < 2, so.uy(k) < a) if len(ch) == 2 else z3.And(m < 2, so.uy(k) == a, so.ux(k) < n[2])
                return z3.And(s == n[0], r)
        e.cells[o.buf] = C_(e, o.buf, inN(o), R_, [], "output")
    def maploop(self, e, L): return z3.is_int_value(L.cnt0) and L.cnt0.as_long() == 2
    def post(self, e, st, ret, kind):
        post(e, st, e.cells[self.o.buf].post(st), "first maps are the scaled pixel coordinates, the input maps follow unchanged")
        post(e, st, unchanged(e, st, self.i), "input unchanged")

class SBP(SBase):
    qual = "Conv::SpatialPriorLayer::BackPropagate"; which = "delta"
    def pre(self, e, st):
        SBase.pre(self, e, st); i, o = self.i, self.o; so, si = o.shape, i.shape; G = o.a
        class C_(NestCells):
            def visited(c, L, st, k):
                ch = chain(L); n = [ctr(e, st, l) for l in ch]; s, m = si.us(k), si.um(k)
                if len(ch) == 1: return z3.And(0 <= s, s < n[0])
                if len(ch) == 2: return z3.And(s == n[0], m < n[1])
                return z3.And(s == n[0], m == n[1], n[2] > 0)
        e.cells[i.buf] = C_(e, i.buf, inN(i), lambda k, s2: e.arr(s2, i.buf)[k] == G[so.off(si.ux(k), si.uy(k), si.um(k) + 2, si.us(k))], [], "input gradient")
    def post(self, e, st, ret, kind):
        post(e, st, e.cells[self.i.buf].post(st), "every input element gets the gradient of its copy")
        post(e, st, unchanged(e, st, self.o), "output gradient unchanged")

class RConnect(LayerConnect):
    qual = "Conv::ResizeLayer::Connect"
    def setup(self, e, st): self.bx, self.by = fld(e, st, "borderx_"), fld(e, st, "bordery_"); st.assume(z3.And(self.bx < 2 ** 24, self.by < 2 ** 24))
    def ok(self, e, i, o): return z3.And(i.M == o.M, i.S == o.S, o.w == i.w + self.bx, o.h == i.h + self.by)

class SConnect(LayerConnect):
    qual = "Conv::SpatialPriorLayer::Connect"
    def ok(self, e, i, o): return z3.And(o.M == i.M + 2, i.S == o.S, o.w == i.w, o.h == i.h)

class UConnect(LayerConnect):
    qual = "Conv::UpscaleLayer::Connect"
    def scalars(self, e, i, o): return {"input_width_": i.w, "input_height_": i.h, "output_width_": o.w, "output_height_": o.h, "maps_": i.M}

class DConnect(UConnect): qual = "Conv::InputDownSamplingLayer::Connect"

def FNS(): return [SimpleConnect(), RConnect(), SConnect(), UConnect(), DConnect(), RCreate(), RFF(), RBP(), UCreate(), UFF(), UBP(), DCreate(), DFF(), SCreate(), SFF(), SBP()]
def LEMMAS(): return layout_lemmas() + block_lemmas() + split_lemmas()
