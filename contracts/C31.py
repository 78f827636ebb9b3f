"""C31: the HMax activation."""
from lib import *
SOURCES = ["src/net/HMaxActivationFunction.cpp", "src/net/SimpleLayer.cpp"] + TSRC
EXP, LOG = UF["exp"], UF["log"]
def nop(e, st, n, oid, av): return OPAQUE

class Create(CreateOutputs):
    qual = "Conv::HMaxActivationFunction::CreateOutputs"
    def ok(self, e, ts): return TRUE
    def dims(self, e, ts): t = ts[0]; return [(t.S, t.w, t.h, t.M)]

class Connect(LayerConnect):
    qual = "Conv::HMaxActivationFunction::Connect"
    def ok(self, e, i, o): return z3.And(i.S == o.S, i.w == o.w, i.h == o.h, i.M == o.M)
    def params(self, e, i, o): return [("weights_", (IV(1), IV(2), IV(1), IV(1)), 1)]

class Act(Fn):
    nparams = 0; assumptions = ("exp is an unspecified function with positive values, log an unspecified function",)
    def handlers(self): return dict(H_TENSOR, **{"Conv::StatAggregator::Update": nop})
    def pre(self, e, st):
        st.assume(z3.Not(e.rd(st, ("g", "stat_aggregator"), T("ptr", el=T("struct", name="StatAggregator"))).null))   # System::Init has run
        x = z3.Real("x"); e.axioms.append(z3.ForAll([x], EXP(x) > 0, patterns=[EXP(x)]))
        i, d, o, od = self.i, self.d, self.o, self.od = [layer_t(self, e, st, m, w) for m, w in (("input_", "data"), ("input_", "delta"), ("output_", "data"), ("output_", "delta"))]
        st.assume(same_shape(i, d, o, od))
        w = self.w = layer_t(self, e, st, "weights_", "data"); wd = self.wd = layer_t(self, e, st, "weights_", "delta")
        for t in (w, wd): st.assume(z3.And(t.w == 2, t.h == 1, t.M == 1, t.S == 1, t.N == 2)); e.axioms.append(e.blen[t.buf] == 2)
        sw = w.shape
        for t in (w, wd): st.assume(z3.And(t.shape.off(IV(0), IV(0), IV(0), IV(0)) == 0))
        self.va, self.vb = w.a[0], w.a[1]; self.setup(e, st)

class FF(Act):
    qual = "Conv::HMaxActivationFunction::FeedForward"
    def setup(self, e, st):
        A = self.i.a; o = self.o
        e.cells[o.buf] = Cells(e, o.buf, o.shape, inN(o), lambda k, s2: e.arr(s2, o.buf)[k] == 1 / (1 + EXP(-(self.va * A[k] + self.vb))), "output", flat=True)
    def post(self, e, st, ret, kind):
        post(e, st, e.cells[self.o.buf].post(st), "every output element is the logistic function of a times the input element plus b")
        for t in (self.i, self.w): post(e, st, unchanged(e, st, t), "input and weights unchanged")

class BP(Act):
    qual = "Conv::HMaxActivationFunction::BackPropagate"
    def setup(self, e, st):
        A, O, G = self.i.a, self.o.a, self.od.a; d = self.d; a = self.va
        lam, mu = self.lam, self.mu = fld(e, st, "loss_weight_", RL), fld(e, st, "mu_", RL)
        st.assume(z3.And(mu != 0, z3.Or(a != 0, lam == 0)))
        def mix(k): return (1 - O[k]) * O[k]
        e.cells[d.buf] = Cells(e, d.buf, d.shape, inN(d), lambda k, s2: e.arr(s2, d.buf)[k] == G[k] * a * mix(k) + lam * (mix(k) * (LOG(O[k]) + 1) + mix(k) / mu), "input gradient", flat=True)
        self.Sa = Sum(e, "grad_a", 0, lambda k: G[k] * mix(k) * A[k] + lam * (-A[k] + (2 + 1 / mu) * A[k] * O[k] - A[k] * O[k] * O[k] / mu))
        self.Sb = Sum(e, "grad_b", 0, lambda k: G[k] * mix(k) + lam * ((2 + 1 / mu) * O[k] - O[k] * O[k] / mu))
        N = z3.ToReal(self.i.N); self.ba, self.bb = -N / a * lam, -N * lam
    def loop_inv(self, e, L, st):
        accs = e.accs(L, st, R)
        if len(accs) != 2: raise ExtractionError("accumulators not recognised")
        en = e.accs(L, L.entry, R) if hasattr(L, "entry") else None
        c = ctr(e, st, L); a, b = accs
        if en is not None and e.valid_qf(L.entry, en[1] == self.ba) and not e.valid_qf(L.entry, en[0] == self.ba): a, b = b, a
        return [("partial gradient of a", a == self.ba + self.Sa(c)), ("partial gradient of b", b == self.bb + self.Sb(c))]
    def hints(self, e, L, st): return [tick(ctr(e, st, L))]
    def post(self, e, st, ret, kind):
        post(e, st, e.cells[self.d.buf].post(st), "the input gradient is the output gradient times the derivative plus the weighted sparsity term")
        W = e.arr(st, self.wd.buf); lr = fld(e, st, "local_lr_", RL); N = self.i.N
        # with regularisation weight zero the base value is zero and the sum is the plain gradient
        post(e, st, W[0] == lr * (self.ba + self.Sa(N)), "gradient of a")
        post(e, st, W[1] == lr * (self.bb + self.Sb(N)), "gradient of b")
        for t in (self.i, self.o, self.od, self.w): post(e, st, unchanged(e, st, t), "inputs unchanged")

def FNS(): return [SimpleConnect(), Connect(), Create(), FF(), BP()]
def LEMMAS():
    g, o, x, m, lam = z3.Reals("g o x m lam")
    return layout_lemmas() + [("hmax-1: without regularisation the base of a weight gradient is zero", [lam == 0], z3.And(-m / x * lam == 0, -m * lam == 0))]
