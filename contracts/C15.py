"""C15: the error layer."""
from lib import *
SOURCES = ["src/net/ErrorLayer.cpp"] + TSRC

class Create(CreateOutputs):
    qual = "Conv::ErrorLayer::CreateOutputs"; nin = 3
    def ok(self, e, t): return z3.And(t[0].S == t[1].S, t[0].N == t[1].N, t[0].S == t[2].S)
    def dims(self, e, ts): return []

class Base(Fn):
    nparams = 0
    def pre(self, e, st):
        a, b, w = self.a, self.b, self.w = [layer_t(self, e, st, m, "data") for m in ("first_", "second_", "third_")]
        d = self.d = layer_t(self, e, st, "first_", "delta")
        st.assume(same_shape(a, b, d)); st.assume(z3.And(w.w == a.w, w.h == a.h, w.M == 1, w.S == a.S))
        self.lw = fld(e, st, "loss_weight_", RL); self.setup(e, st)
    def pw(self, x, y, s): return self.W[self.w.shape.off(x, y, IV(0), s)]
    def post_frame(self, e, st):
        for t in (self.a, self.b, self.w): post(e, st, unchanged(e, st, t), "inputs unchanged")

class FF(Base):
    qual = "Conv::ErrorLayer::FeedForward"
    def setup(self, e, st):
        a, d = self.a, self.d; A, B_, self.W = a.a, self.b.a, self.w.a; sh = d.shape
        e.cells[d.buf] = NestCells(e, d.buf, inN(d), lambda k, s2: e.arr(s2, d.buf)[k] == (A[k] - B_[k]) * self.pw(sh.ux(k), sh.uy(k), sh.us(k)) * self.lw, [sh.us, sh.um, sh.uy, sh.ux], "gradient", exts=[d.S, d.M, d.h, d.w])
    def post(self, e, st, ret, kind):
        post(e, st, e.cells[self.d.buf].post(st), "the gradient is difference times pixel weight times loss weight")
        self.post_frame(e, st)

class Loss(Base):
    qual = "Conv::ErrorLayer::CalculateLossFunction"
    def setup(self, e, st):
        a = self.a; A, B_, self.W = a.a, self.b.a, self.w.a; sh = a.shape
        def term(s, m, y, x): k = sh.off(x, y, m, s); df = A[k] - B_[k]; return df * df * self.pw(x, y, s) * self.lw
        self.sum = NestSum(e, "loss", [lambda: a.S, lambda s: a.M, lambda s, m: a.h, lambda s, m, y: a.w], term)
    def loop_inv(self, e, L, st):
        a = e.accs(L, st, R)
        if len(a) != 1: raise ExtractionError("accumulator not recognised")
        return [("partial loss", a[0] == self.sum.partial(st, L))]
    def hints(self, e, L, st): return [tick(ctr(e, st, L))]
    def post(self, e, st, ret, kind):
        post(e, st, ret == self.sum.total() / 2, "the loss is half the weighted squared error")
        self.post_frame(e, st); post(e, st, unchanged(e, st, self.d), "gradient unchanged")

class BP(Base):
    qual = "Conv::ErrorLayer::BackPropagate"
    def setup(self, e, st): pass
    def post(self, e, st, ret, kind): self.post_frame(e, st); post(e, st, unchanged(e, st, self.d), "the gradient written by the forward pass stays"); 

class Connect(ConnectFn):
    qual = "Conv::ErrorLayer::Connect"; nin = 3; nout = 0; assumptions = ("the third input is given (checked by CreateOutputs)",)
    def setup(self, e, st): st.assume(z3.Not(self.ins[2][0].null))
    def ok(self, e, I, O): return z3.And(I[0].S == I[1].S, I[0].N == I[1].N, I[0].S == I[2].S)
    def members(self): return {"first_": ("in", 0), "second_": ("in", 1), "third_": ("in", 2)}

class BP(Base):
    """the gradient FeedForward stored is left alone"""
    qual = "Conv::ErrorLayer::BackPropagate"
    def setup(self, e, st): pass
    def post(self, e, st, ret, kind): post(e, st, unchanged(e, st, self.d), "the gradient is what the forward pass stored"); self.post_frame(e, st)

def FNS(): return [Create(), Connect(), FF(), BP(), Loss()]
def LEMMAS(): return layout_lemmas()
