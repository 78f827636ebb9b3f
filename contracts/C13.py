"""C13: activation layers."""
from lib import *
SOURCES = ["src/net/ActivationFunctions.cpp", "src/net/NonLinearityLayer.cpp", "src/net/SimpleLayer.cpp"] + TSRC
EXP, TANH = UF["exp"], UF["tanh"]
ASM = ("exp is an unspecified function with positive values; tanh(x) is (exp(2x)-1)/(exp(2x)+1)",)

def fun_axioms(e):
    x = z3.Real("x")
    e.axioms.append(z3.ForAll([x], EXP(x) > 0, patterns=[EXP(x)]))
    e.axioms.append(z3.ForAll([x], z3.And(TANH(x) == (EXP(2 * x) - 1) / (EXP(2 * x) + 1)), patterns=[TANH(x)]))

class Create(CreateOutputs):
    qual = "Conv::NonLinearityLayer::CreateOutputs"
    def ok(self, e, ts): return TRUE
    def dims(self, e, ts): t = ts[0]; return [(t.S, t.w, t.h, t.M)]

class Connect(Fn):
    qual = "Conv::NonLinearityLayer::Connect"; nparams = 2
    def pre(self, e, st):
        self.t = []
        for n in e.param:
            p = e.param[n]; p = e.rd(st, p.key, PCT) if isinstance(p, LKey) else p
            st.assume(z3.Not(p.null)); self.t.append(wf_tensor(e, st, ("fld", p.target, "data")))
    def post(self, e, st, ret, kind):
        a, b = self.t; post(e, st, e.to_bool(ret) == z3.And(a.w == b.w, a.h == b.h, a.M == b.M, a.S == b.S), "accepted exactly if the shapes are equal")

def logistic(x): return 1 / (1 + EXP(-x))
def tanh(x): return (EXP(2 * x) - 1) / (EXP(2 * x) + 1)
def relu(x): return z3.If(x > 0, x, 0)

class Act(Fn):
    nparams = 0; assumptions = ASM
    def handlers(self): return dict(H_TENSOR)
    def pre(self, e, st):
        fun_axioms(e)
        i, d, o, od = self.i, self.d, self.o, self.od = [layer_t(self, e, st, m, w) for m, w in (("input_", "data"), ("input_", "delta"), ("output_", "data"), ("output_", "delta"))]
        st.assume(same_shape(i, d, o, od)); self.setup(e, st)

class ActFF(Act):
    def setup(self, e, st):
        A = self.i.a; o = self.o
        e.cells[o.buf] = Cells(e, o.buf, o.shape, inN(o), lambda k, s2: e.arr(s2, o.buf)[k] == self.f(A[k]), "output", flat=True)
    def post(self, e, st, ret, kind):
        post(e, st, e.cells[self.o.buf].post(st), "every output element is the function of the input element")
        post(e, st, unchanged(e, st, self.i), "input unchanged")

class ActBP(Act):
    def setup(self, e, st):
        A, O, G = self.i.a, self.o.a, self.od.a; d = self.d; k = z3.Int("i")
        st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.i.N), O[k] == self.f(A[k])), patterns=[O[k]]))   # established by FeedForward
        e.cells[d.buf] = Cells(e, d.buf, d.shape, inN(d), lambda k, s2: e.arr(s2, d.buf)[k] == G[k] * self.df(A[k], O[k]), "input gradient", flat=True)
    def post(self, e, st, ret, kind):
        post(e, st, e.cells[self.d.buf].post(st), "every input gradient is the output gradient times the derivative")
        for t in (self.i, self.o, self.od): post(e, st, unchanged(e, st, t), "data and output gradients unchanged")

class SigFF(ActFF): qual = "Conv::SigmoidLayer::FeedForward"; f = staticmethod(logistic)
class TanhFF(ActFF): qual = "Conv::TanhLayer::FeedForward"; f = staticmethod(tanh)
class ReluFF(ActFF): qual = "Conv::ReLULayer::FeedForward"; f = staticmethod(relu)
class SigBP(ActBP): qual = "Conv::SigmoidLayer::BackPropagate"; f = staticmethod(logistic); df = staticmethod(lambda x, o: o * (1 - o))
class TanhBP(ActBP): qual = "Conv::TanhLayer::BackPropagate"; f = staticmethod(tanh); df = staticmethod(lambda x, o: 1 - o * o)
class ReluBP(ActBP): qual = "Conv::ReLULayer::BackPropagate"; f = staticmethod(relu); df = staticmethod(lambda x, o: z3.If(x > 0, z3.RealVal(1), z3.RealVal(0)))
class SoftBP(ActBP):
    qual = "Conv::SoftmaxLayer::BackPropagate"; df = staticmethod(lambda x, o: z3.RealVal(1))
    f = staticmethod(lambda x: x)
    def setup(self, e, st):
        G = self.od.a; d = self.d
        e.cells[d.buf] = Cells(e, d.buf, d.shape, inN(d), lambda k, s2: e.arr(s2, d.buf)[k] == G[k], "input gradient", flat=True)

class SoftFF(Act):
    qual = "Conv::SoftmaxLayer::FeedForward"
    def setup(self, e, st):
        i, o = self.i, self.o; st.assume(z3.And(i.h == 1, i.M == 1)); A = i.a; si, so = i.shape, o.shape
        T_ = self.T_ = Sum(e, "exp_row", 1, lambda s, x: EXP(A[si.off(x, IV(0), IV(0), s)]))
        e.cells[o.buf] = NestCells(e, o.buf, inN(o), lambda k, s2: e.arr(s2, o.buf)[k] == EXP(A[k]) / T_(so.us(k), i.w), [so.us, so.ux], "output", exts=[i.S, i.w])
    def loop_inv(self, e, L, st):
        ch = chain(L)
        if len(ch) < 2: return []
        a = e.accs(L, st, R)
        if len(a) != 1: return []
        return [("sum of exponentials", a[0] == self.T_(ctr(e, st, ch[0]), ctr(e, st, ch[1])))]
    def hints(self, e, L, st): return [tick(ctr(e, st, L))]
    def post(self, e, st, ret, kind):
        post(e, st, e.cells[self.o.buf].post(st), "every element is its share of the sample's exponentials")
        post(e, st, unchanged(e, st, self.i), "input unchanged")

def FNS(): return [Create(), SimpleConnect(), Connect(), SigFF(), TanhFF(), ReluFF(), SoftFF(), SigBP(), TanhBP(), ReluBP(), SoftBP()]
def LEMMAS():
    o, u, x = z3.Reals("o u x")
    return layout_lemmas()
