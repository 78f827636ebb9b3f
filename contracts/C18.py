"""C18: the binary statistics layer: counting at every threshold, rates at the best threshold, resetting, wiring."""
from lib import *
from C17 import h_update, REP
SOURCES = ["src/net/BinaryStatLayer.cpp"] + TSRC
CLS = "Conv::BinaryStatLayer"; BL = T("bool"); FL = T("real", name="float"); PF = T("ptr", el=FL); SD = T("ptr", el=T("struct", name="StatDescriptor"))
CNT = ("true_positives_", "false_positives_", "false_negatives_", "true_negatives_")
STATS = ("stat_fpr_", "stat_fnr_", "stat_pre_", "stat_rec_", "stat_acc_", "stat_f1_")

class BS(Fn):
    assumptions = ("there are as many weights as outputs", "there is at least one threshold")
    def handlers(self): return dict(H_TENSOR, **{"Conv::StatAggregator::Update": h_update(REP)})
    def world(self, e, st):
        n = self.n = fld(e, st, "thresholds_"); st.assume(z3.And(n > 0, n < 2 ** 31)); self.b = []
        for m in CNT + ("threshold_values_",):
            p = e.rd(st, ("f", "this", m), PF); st.assume(z3.And(z3.Not(p.null), e.blen[p.target] == n)); self.b.append(p.target)
        self.A0 = [e.arr(st, b) for b in self.b]; self.dis = fld(e, st, "disabled_", BL)

class FF(BS):
    qual = CLS + "::FeedForward"
    def pre(self, e, st):
        self.world(e, st); o, l, w = self.T = [layer_t(self, e, st, m, "data") for m in ("first_", "second_", "third_")]; st.assume(z3.And(l.N == o.N, w.N == o.N)); TH = self.A0[4]; N = o.N
        self.conds = [lambda t, s: z3.And(o.a[s] > TH[t], l.a[s] > 0), lambda t, s: z3.And(o.a[s] > TH[t], z3.Not(l.a[s] > 0)), lambda t, s: z3.And(z3.Not(o.a[s] > TH[t]), l.a[s] > 0), lambda t, s: z3.And(z3.Not(o.a[s] > TH[t]), z3.Not(l.a[s] > 0))]
        for b, A, nm, c in zip(self.b, self.A0, CNT, self.conds):
            e.cells[b] = Scatter(e, b, nm.rstrip("_").replace("_", " "), [lambda t: t], [lambda t: N], lambda t, s, c=c: z3.If(c(t, s), w.a[s], 0), lambda t, A=A: A[t], lambda t: z3.And(0 <= t, t < self.n))
        # lemma: the four counts together grow by all weights, at every threshold (induction over the elements)
        self.W = Sum(e, "weights", 0, lambda s: w.a[s]); t, s = z3.Ints("t s"); fs = [e.cells[b].f[0] for b in self.b[:4]]; hy = [s >= 0, sum(f(t, s) for f in fs) == self.W(s), self.W(s + 1) == self.W(s) + w.a[s]]
        hy += [f(t, s + 1) == f(t, s) + z3.If(c(t, s), w.a[s], 0) for f, c in zip(fs, self.conds)]
        e.obls.append(Obl("BinaryStatLayer::FeedForward: ghost lemma: the counts grow by the total weight (induction step)", hy, sum(f(t, s + 1) for f in fs) == self.W(s + 1), "lemma"))
        e.axioms.append(z3.ForAll([t, s], z3.Implies(s >= 0, sum(f(t, s) for f in fs) == self.W(s)), patterns=[fs[0](t, s)]))
    def hints(self, e, L, st): return [tick(ctr(e, st, L))]
    def post(self, e, st, ret, kind):
        on = z3.Not(self.dis); t = z3.Int("t")
        for b, A, nm in zip(self.b, self.A0, CNT): post(e, st, z3.Implies(on, e.cells[b].post(st)), "%s grow by the weights of their elements, at every threshold" % nm.rstrip("_").replace("_", " "))
        post(e, st, z3.ForAll([t], z3.Implies(z3.And(on, 0 <= t, t < self.n), sum(e.arr(st, b)[t] for b in self.b[:4]) == sum(A[t] for A in self.A0[:4]) + self.W(self.T[0].N))), "at every threshold the four counts grow by the total weight")
        post(e, st, z3.Implies(self.dis, z3.And([e.arr(st, b) == A for b, A in zip(self.b, self.A0)])), "a disabled layer counts nothing"); post(e, st, e.arr(st, self.b[4]) == self.A0[4], "thresholds unchanged")
        for x in self.T: post(e, st, unchanged(e, st, x), "inputs unchanged")

class Reset(BS):
    qual = CLS + "::Reset"
    def pre(self, e, st): self.world(e, st)
    def loop_inv(self, e, L, st):
        i = z3.Int("i"); out = []
        for b in L.writes:
            A, E, c = e.arr(st, b), e.arr(L.entry, b), ctr(e, st, L); f = A[i] == z3.If(z3.And(0 <= i, i < c), 0, E[i]); out.append(("counts below the counter are zero", z3.ForAll([i], f, patterns=[A[i]]) if z3.is_const(A) else z3.ForAll([i], f)))
        return out
    def post(self, e, st, ret, kind):
        i = z3.Int("i")
        for b, nm in zip(self.b, CNT): post(e, st, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), e.arr(st, b)[i] == 0)), "%s zero" % nm)
        post(e, st, e.arr(st, self.b[4]) == self.A0[4], "thresholds unchanged")

class Connect(ConnectFn):
    qual = CLS + "::Connect"; nin = 3; nout = 0; assumptions = ("the third input is given (checked by CreateOutputs)",)
    def setup(self, e, st): st.assume(z3.Not(self.ins[2][0].null))
    def ok(self, e, I, O): return z3.And(I[0].S == I[1].S, I[0].N == I[1].N, I[0].S == I[2].S)
    def members(self): return {"first_": ("in", 0), "second_": ("in", 1), "third_": ("in", 2)}

class Upd(BS):
    qual = CLS + "::UpdateAll"
    def pre(self, e, st):
        self.world(e, st); TP, FP, FN, TN = self.A0[:4]; self.ids = []
        st.assume(z3.Not(e.rd(st, ("g", "stat_aggregator"), T("ptr", el=T("struct", name="StatAggregator"))).null))
        for n in STATS: p = e.rd(st, ("f", "this", n), SD); st.assume(z3.Not(p.null)); self.ids.append(e.rd(st, ("f", p.target, "stat_id"), U32))
        st.assume(z3.Distinct(*self.ids)); [e.newbuf(b, t, IV(2 ** 32)) for b, t in zip(REP, (FL, T("int", 32, True)))]; i = z3.Int("i"); st.assume(z3.ForAll([i], e.arr(st, REP[1])[i] == 0))
        t = z3.Int("t"); st.assume(z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < self.n), z3.And(TP[t] >= 0, FP[t] >= 0, FN[t] >= 0, TN[t] >= 0)), patterns=[TP[t]]))   # weights are not negative
        P, C, F = self.P, self.C, self.F = [z3.Function(n, I, R) for n in ("precision_at", "recall_at", "f1_at")]; PN, CN = TP, TP
        e.axioms += [z3.ForAll([t], P(t) == z3.If(TP[t] + FP[t] > 0, TP[t] / (TP[t] + FP[t]), -1), patterns=[P(t)]), z3.ForAll([t], C(t) == z3.If(TP[t] + FN[t] > 0, TP[t] / (TP[t] + FN[t]), -1), patterns=[C(t)]),
                     z3.ForAll([t], F(t) == z3.If(z3.And(P(t) >= 0, C(t) >= 0), z3.If(P(t) + C(t) > 0, 2 * P(t) * C(t) / (P(t) + C(t)), 0), -1), patterns=[F(t)])]
        x, y = z3.Reals("x y")   # lemmas: a quotient of a non-negative by a positive number is not negative, nor is a product
        e.axioms.append(z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < self.n), z3.And(F(t) >= -1, P(t) >= -1, C(t) >= -1)), patterns=[F(t)])); self.k = z3.Int("best_threshold")
    def loop_inv(self, e, L, st):
        c = ctr(e, st, L); v = e.accs(L, st, R); b = e.accs(L, st, I)
        if len(v) != 1 or len(b) != 1: raise ExtractionError("search for the best threshold not recognised")
        v, b = v[0], b[0]; t = z3.Int("t"); 
        cs = {x[0] for x in L.counters}; self.last = [q for q, (o, nv) in L.scal.items() if q not in cs and isinstance(nv, z3.ExprRef) and nv.sort() == I][0]
        return [("best so far", z3.If(c == 0, v == -2, z3.And(0 <= b, b < c, v == self.F(b), self.F(b) >= -1, z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < c), self.F(t) <= v), patterns=[self.F(t)]))))]
    def hints(self, e, L, st): return [seen(self.F(ctr(e, st, L))), seen(self.P(ctr(e, st, L))), seen(self.C(ctr(e, st, L)))]
    def post(self, e, st, ret, kind):
        TP, FP, FN, TN = [A for A in self.A0[:4]]; V, W = e.arr(st, REP[0]), e.arr(st, REP[1]); fpr, fnr, pre, rec, acc, f1 = self.ids; k = e.rd(st, self.last); t = z3.Int("t")
        st.assume(z3.And(seen(self.F(k)), seen(self.P(k)), seen(self.C(k))))
        post(e, st, z3.And(0 <= k, k < self.n, z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < self.n), self.F(t) <= self.F(k)))), "the threshold reported has the best F1")
        def rep(i, cond, v, nm): post(e, st, W[i] == z3.If(cond, 1, 0), "%s reported exactly if defined" % nm); post(e, st, z3.Implies(cond, V[i] == 100 * v), "%s in percent" % nm)
        rep(pre, TP[k] + FP[k] > 0, TP[k] / (TP[k] + FP[k]), "precision"); rep(rec, TP[k] + FN[k] > 0, TP[k] / (TP[k] + FN[k]), "recall"); rep(fpr, FP[k] + TN[k] > 0, FP[k] / (FP[k] + TN[k]), "false positive rate")
        rep(fnr, TP[k] + FN[k] > 0, FN[k] / (TP[k] + FN[k]), "false negative rate"); rep(f1, z3.And(TP[k] + FP[k] > 0, TP[k] + FN[k] > 0), self.F(k), "F1")
        tot = TP[k] + TN[k] + FN[k] + FP[k]; post(e, st, z3.Implies(tot > 0, z3.And(W[acc] == 1, V[acc] == 100 * ((TP[k] + TN[k]) / tot))), "accuracy in percent")
        for b, A in zip(self.b, self.A0): post(e, st, e.arr(st, b) == A, "no count changed")

class Ctor(BS):
    """the thresholds are spread evenly over the given range; all counts start at zero; every rate is registered once"""
    qual = CLS + "::BinaryStatLayer"; assumptions = ()
    def label(self): return "BinaryStatLayer constructor"
    def node(self, prog): return [n for n in prog.byqual[self.qual] if n["kind"] == "CXXConstructorDecl" and len(params(n)) == 3][0]
    def handlers(self):
        def reg(e, st, n, oid, av): self.reg.append(av[0].target); return fresh("id", I)
        def base(e, st, n, oid, av): return None
        self.reg = []; return dict(H_TENSOR, **{"Conv::StatAggregator::RegisterStat": reg, "Conv::Layer::Layer": base})
    def pre(self, e, st):
        self.n, self.lo, self.hi = list(e.param.values())[:3]; st.assume(z3.Not(e.rd(st, ("g", "stat_aggregator"), T("ptr", el=T("struct", name="StatAggregator"))).null))
    def val(self, t): return z3.If(self.n == 1, (self.lo + self.hi) / 2, self.lo + (self.hi - self.lo) / z3.ToReal(self.n - 1) * z3.ToReal(t))
    def loop_inv(self, e, L, st):
        t = z3.Int("t"); out = []; c = ctr(e, st, L); th = e.rd(st, ("f", "this", "threshold_values_"), PF).target
        for b in L.writes:
            A, E = e.arr(st, b), e.arr(L.entry, b); f = A[t] == z3.If(z3.And(0 <= t, t < c), self.val(t) if b == th else 0, E[t]); out.append(("entries below the counter are set", z3.ForAll([t], f, patterns=[A[t]]) if z3.is_const(A) else z3.ForAll([t], f)))
        return out
    def post(self, e, st, ret, kind):
        bs = [e.rd(st, ("f", "this", m), PF).target for m in CNT + ("threshold_values_",)]; t = z3.Int("t"); inr = z3.And(0 <= t, t < self.n)
        post(e, st, z3.And(z3.BoolVal(len(set(bs)) == 5), self.n > 0, fld(e, st, "thresholds_") == self.n, *[e.blen[b] == self.n for b in bs]), "one entry per threshold in each table, separate tables"); post(e, st, z3.ForAll([t], z3.Implies(inr, e.arr(st, bs[4])[t] == self.val(t))), "thresholds evenly spread over the range")
        for b, nm in zip(bs, CNT): post(e, st, z3.ForAll([t], z3.Implies(inr, e.arr(st, b)[t] == 0)), "%s start at zero" % nm)
        ps = [e.rd(st, ("f", "this", n), SD).target for n in STATS]; post(e, st, z3.BoolVal(len(set(ps)) == 6 and all(self.reg.count(p) == 1 for p in ps)), "every rate is registered once"); post(e, st, z3.Not(fld(e, st, "disabled_", BL)), "counting is on")

class Create(CreateOutputs):
    qual = CLS + "::CreateOutputs"; nin = 3
    def ok(self, e, t): return z3.And(t[0].S == t[1].S, t[0].N == t[1].N, t[0].S == t[2].S)
    def dims(self, e, ts): return []

def FNS(): return [Create(), Ctor(), FF(), Reset(), Connect(), Upd()]
def LEMMAS():
    a, b, p, c = z3.Reals("a b p c")
    return [("rate-1: a non-negative share is not negative", [a >= 0, b > 0], a / b >= 0), ("rate-2: F1 of non-negative rates is not negative", [p >= 0, c >= 0, p + c > 0], 2 * p * c / (p + c) >= 0)]
