"""C17: the confusion matrix layer: counting, ratios, resetting, wiring."""
from lib import *
from C24 import BEST, h_pixmax
SOURCES = ["src/net/ConfusionMatrixLayer.cpp"] + TSRC
CLS = "Conv::ConfusionMatrixLayer"; LD = T("real", name="long double"); BL = T("bool"); PLD = T("ptr", el=LD)
nop = lambda e, st, n, oid, av: OPAQUE

def h_update(rep):
    """StatAggregator::Update (C19): remember the value handed over per statistic"""
    def h(e, st, n, oid, av): e.wr_arr(st, rep[0], av[0], e.to_real(av[1])); e.wr_arr(st, rep[1], av[0], IV(1)); return OPAQUE
    return h
REP = (("ghost", "reported"), ("ghost", "was_reported"))

class CM(Fn):
    assumptions = ("predictions, labels and weights have the same width, height and samples; there are at most as many maps as classes",)
    def handlers(self): return dict(H_TENSOR, **{"Conv::Tensor::PixelMaximum": h_pixmax, "Conv::StatAggregator::Update": h_update(REP)})
    def world(self, e, st, alloc=True):
        C = self.C = fld(e, st, "classes_"); st.assume(z3.And(C > 0, C < 2 ** 16)); e.CC = self.CC = C * C; e.axioms.append(z3.And(self.CC >= C, self.CC > 0))
        if not alloc: return
        m, p = e.rd(st, ("f", "this", "matrix_"), PLD), e.rd(st, ("f", "this", "per_class_"), PLD); st.assume(z3.And(z3.Not(m.null), z3.Not(p.null), e.blen[m.target] == self.CC, e.blen[p.target] == C)); self.mb, self.pb = m.target, p.target
        self.M0, self.P0 = e.arr(st, self.mb), e.arr(st, self.pb); self.t0, self.r0 = fld(e, st, "total_", LD), fld(e, st, "right_", LD); self.dis = fld(e, st, "disabled_", BL)
    def kept(self, e, st, cond=TRUE): post(e, st, z3.Implies(cond, z3.And(e.arr(st, self.mb) == self.M0, e.arr(st, self.pb) == self.P0, fld(e, st, "total_", LD) == self.t0, fld(e, st, "right_", LD) == self.r0)), "no count changed")

class FF(CM):
    qual = CLS + "::FeedForward"
    def pre(self, e, st):
        self.world(e, st); a, b, w = self.T = [layer_t(self, e, st, m, "data") for m in ("first_", "second_", "third_")]
        st.assume(z3.And(a.w == b.w, a.h == b.h, a.S == b.S, w.w == a.w, w.h == a.h, w.S == a.S, a.M <= self.C, b.M <= self.C)); sw = w.shape; sh = a.shape
        P1, P2 = [lambda s, y, x, t=t: BEST(t.a, x, y, s) for t in (a, b)]; wt = lambda s, y, x: w.a[sw.off(x, y, IV(0), s)]; C = self.C
        q, s, y, x = z3.Ints("q s y x"); e.axioms.append(z3.ForAll([s, y, x], z3.And([z3.And(0 <= BEST(t.a, x, y, s), BEST(t.a, x, y, s) < t.M) for t in (a, b)]), patterns=[z3.MultiPattern(BEST(a.a, x, y, s), BEST(b.a, x, y, s))]))
        CELL = self.CELL = z3.Function("cell", I, I, I); pa, pc = z3.Ints("pa pc")
        e.axioms.append(z3.ForAll([pa, pc], z3.Implies(z3.And(0 <= pa, pa < C, 0 <= pc, pc < C), z3.And(CELL(pa, pc) == pa * C + pc, 0 <= CELL(pa, pc), CELL(pa, pc) < self.CC)), patterns=[CELL(pa, pc)]))   # lemma layout-2
        ex = [lambda i: a.S, lambda i, s: a.h, lambda i, s, y: a.w]
        e.cells[self.mb] = Scatter(e, self.mb, "the confusion matrix", [], ex, lambda q, s, y, x: z3.If(q == CELL(P1(s, y, x), P2(s, y, x)), wt(s, y, x), 0), lambda q: self.M0[q], lambda q: z3.And(0 <= q, q < self.CC))
        e.cells[self.pb] = Scatter(e, self.pb, "the class totals", [], ex, lambda q, s, y, x: z3.If(q == P2(s, y, x), wt(s, y, x), 0), lambda q: self.P0[q], lambda q: z3.And(0 <= q, q < C))
        nx = [lambda: a.S, lambda s: a.h, lambda s, y: a.w]
        self.tot, self.right = NestSum(e, "total", nx, wt), NestSum(e, "right", nx, lambda s, y, x: z3.If(P1(s, y, x) == P2(s, y, x), wt(s, y, x), 0))
    def hints(self, e, L, st):
        out = [tick(ctr(e, st, L))]; ch = chain(L)
        if len(ch) == 3:
            s, y, x = [ctr(e, st, l) for l in ch]; a, b, _ = self.T; out.append(seen(self.CELL(BEST(a.a, x, y, s), BEST(b.a, x, y, s))))
        return out
    def loop_inv(self, e, L, st): return [("total so far", fld(e, st, "total_", LD) == self.t0 + self.tot.partial(st, L)), ("hits so far", fld(e, st, "right_", LD) == self.r0 + self.right.partial(st, L))]
    def post(self, e, st, ret, kind):
        on = z3.Not(self.dis); self.kept(e, st, self.dis); P = lambda g, n: post(e, st, z3.Implies(on, g), n)
        P(e.cells[self.mb].post(st), "every pixel adds its weight to the cell of its predicted and true class and to no other"); P(e.cells[self.pb].post(st), "every pixel adds its weight to the total of its true class")
        P(fld(e, st, "total_", LD) == self.t0 + self.tot.total(), "the total grows by all weights"); P(fld(e, st, "right_", LD) == self.r0 + self.right.total(), "the hits grow by the weights of the correct pixels")
        for t in self.T: post(e, st, unchanged(e, st, t), "inputs unchanged")

class Reset(CM):
    qual = CLS + "::Reset"
    def pre(self, e, st): self.world(e, st)
    def loop_inv(self, e, L, st):
        i = z3.Int("i"); out = []
        for b in L.writes:
            A, E, c = e.arr(st, b), e.arr(L.entry, b), ctr(e, st, L); f = A[i] == z3.If(z3.And(0 <= i, i < c), 0, E[i]); out.append(("counts below the counter are zero", z3.ForAll([i], f, patterns=[A[i]]) if z3.is_const(A) else z3.ForAll([i], f)))
        return out
    def zero(self, e, st, mb, pb):
        i = z3.Int("i"); post(e, st, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.CC), e.arr(st, mb)[i] == 0)), "all cells zero"); post(e, st, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.C), e.arr(st, pb)[i] == 0)), "all class totals zero")
        post(e, st, z3.And(fld(e, st, "total_", LD) == 0, fld(e, st, "right_", LD) == 0), "totals zero")
    def post(self, e, st, ret, kind): self.zero(e, st, self.mb, self.pb)

class Connect(ConnectFn):
    qual = CLS + "::Connect"; nin = 3; nout = 0; assumptions = CM.assumptions + ("the third input is given (checked by CreateOutputs)",); loop_inv = Reset.loop_inv; zero = Reset.zero; world = CM.world
    def setup(self, e, st): self.world(e, st, False); st.assume(z3.Not(self.ins[2][0].null))
    def ok(self, e, I, O): return z3.And(I[0].S == I[1].S, I[0].S == I[2].S)
    def members(self): return {"first_": ("in", 0), "second_": ("in", 1), "third_": ("in", 2)}
    def post(self, e, st, ret, kind):
        ConnectFn.post(self, e, st, ret, kind); r = z3.simplify(e.to_bool(ret))
        if z3.is_false(r): return
        st2 = st.fork(); st2.assume(r); m, p = [e.rd(st2, ("f", "this", n), PLD) for n in ("matrix_", "per_class_")]
        post(e, st2, z3.And(e.blen[m.target] == self.CC, e.blen[p.target] == self.C), "one cell per pair of classes, one total per class"); post(e, st2, z3.BoolVal(m.target != p.target), "cells and totals are separate"); self.zero(e, st2, m.target, p.target)

class Upd(CM):
    qual = CLS + "::UpdateAll"
    def pre(self, e, st):
        self.world(e, st); C, M, P = self.C, self.M0, self.P0; diag = lambda c: M[c * C + c]; NM = ("stat_orr_", "stat_arr_", "stat_iou_"); self.ids = []
        for n in NM:
            p = e.rd(st, ("f", "this", n), T("ptr", el=T("struct", name="StatDescriptor"))); st.assume(z3.Not(p.null)); self.ids.append(e.rd(st, ("f", p.target, "stat_id"), U32))
        st.assume(z3.Not(e.rd(st, ("g", "stat_aggregator"), T("ptr", el=T("struct", name="StatAggregator"))).null))   # System::Init has run
        st.assume(z3.Distinct(*self.ids)); [e.newbuf(b, t, IV(2 ** 32)) for b, t in zip(REP, (LD, T("int", 32, True)))]; st.assume(z3.ForAll([z3.Int("i")], e.arr(st, REP[1])[z3.Int("i")] == 0))
        self.rates = Sum(e, "class_rates", 0, lambda c: z3.If(P[c] > 0, diag(c) / P[c], 0)); self.seen = Sum(e, "classes_seen", 0, lambda c: z3.If(P[c] > 0, z3.RealVal(1), 0))
        self.cross = Sum(e, "errors_of_class", 1, lambda t, c: z3.If(c != t, M[t * C + c] + M[c * C + t], 0)); self.un = lambda t: self.cross(t, C) + diag(t)
        self.iou = Sum(e, "class_ious", 0, lambda t: z3.If(self.un(t) > 0, diag(t) / self.un(t), 0)); k = z3.Int("k")
    def loop_inv(self, e, L, st):
        ch = chain(L); a = e.accs(L, st, R); c = ctr(e, st, L)
        if len(ch) == 1 and len(a) == 2: x, n = accs_count_last(e, L, st, R); return [("class rates", z3.And(x == self.rates(c), n == self.seen(c)))]
        if len(ch) == 1 and len(a) == 1: return [("class ious", a[0] == self.iou(c))]
        if len(ch) == 2 and len(a) == 1: return [("union", a[0] == self.cross(ctr(e, st, ch[0]), c))]
        raise ExtractionError("loops not recognised")
    def hints(self, e, L, st):
        c = ctr(e, st, L); C = self.C; ch = chain(L); t = ctr(e, st, ch[0]); return [tick(c), mono(t + 1, C, C), mono(IV(0), t, C), mono(c + 1, C, C), mono(IV(0), c, C)]
    def post(self, e, st, ret, kind):
        C = self.C; V, W = e.arr(st, REP[0]), e.arr(st, REP[1]); o, a, u = self.ids; some = self.t0 >= 1; i = z3.Int("i")
        P = lambda g, n: post(e, st, g, n)
        P(z3.Implies(some, z3.And(W[o] == 1, V[o] == 100 * self.r0 / self.t0)), "overall rate: hits in percent of the total"); P(z3.Implies(some, z3.And(W[a] == 1, V[a] == 100 * self.rates(C) / self.seen(C))), "mean rate over the classes that occur")
        P(z3.Implies(some, z3.And(W[u] == 1, V[u] == 100 * self.iou(C) / z3.ToReal(C))), "mean intersection over union"); P(z3.Implies(z3.Not(some), z3.ForAll([i], W[i] == 0)), "nothing reported without samples"); self.kept(e, st)

class Create(CreateOutputs):
    qual = CLS + "::CreateOutputs"; nin = 3
    def ok(self, e, t): return z3.And(t[0].N == t[1].N, t[0].S == t[2].S)
    def dims(self, e, ts): return []

class Ctor(Fn):
    """a new matrix counts from zero, for the classes it was given, and registers its three statistics once each"""
    qual = CLS + "::ConfusionMatrixLayer"; assumptions = ("names are only shortened for display",)
    def label(self): return "ConfusionMatrixLayer constructor"
    def node(self, prog): return [n for n in prog.byqual[self.qual] if n["kind"] == "CXXConstructorDecl" and len(params(n)) == 2 and not n.get("isImplicit")][0]
    def handlers(self):
        def reg(e, st, n, oid, av): self.reg.append(av[0].target); return fresh("id", I)
        def length(e, st, n, bv, args): v = fresh("length", I); st.assume(z3.And(0 <= v, v < 2 ** 63)); return v
        self.reg = []; return dict(H_TENSOR, **{"Conv::StatAggregator::RegisterStat": reg, "Conv::Layer::Layer": lambda e, st, n, oid, av: None, "method:length": length, "std::operator+": nop, "std::operator=": nop})
    def pre(self, e, st): st.assume(z3.Not(e.rd(st, ("g", "stat_aggregator"), T("ptr", el=T("struct", name="StatAggregator"))).null)); self.C = list(e.param.values())[-1]
    def post(self, e, st, ret, kind):
        f = lambda n, t=U32: e.rd(st, ("f", "this", n), t)
        post(e, st, z3.And(f("classes_") == self.C, f("total_", LD) == 0, f("right_", LD) == 0, z3.Not(f("disabled_", BL)), f("matrix_", PLD).null, f("per_class_", PLD).null), "an empty matrix for the given classes, counting is on")
        SD = T("ptr", el=T("struct", name="StatDescriptor")); ps = [f(n, SD).target for n in ("stat_orr_", "stat_arr_", "stat_iou_")]; post(e, st, z3.BoolVal(len(set(ps)) == 3 and all(self.reg.count(p) == 1 for p in ps)), "every rate is registered once")

def FNS(): return [Create(), Ctor(), FF(), Reset(), Connect(), Upd()]
def LEMMAS(): return layout_lemmas()
