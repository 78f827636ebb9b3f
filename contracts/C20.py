"""C20: the trainer: one optimizer step, learning rate decay, an epoch, testing and resetting.

All parameters of the network form one sequence of weights: parameter set k (k-th in node order) occupies the cells
BASE(k) .. BASE(k+1)-1 of each of the arrays W (values), D (gradients of the last backward pass), ACC (accumulated
gradients), STEP (last steps) and SLOPE (last gradients); node l owns the sets PB(l) .. PB(l+1)-1."""
from lib import *
SOURCES = ["src/net/Trainer.cpp"] + TSRC
CLS = "Conv::Trainer"; THIS = "this"; G = ("fld", THIS, "graph_"); SET = ("fld", THIS, "settings_")
SZ, BASE, NP, PB = [z3.Function(n, I, I) for n in ("elements_of_set", "first_weight_of_set", "sets_of_node", "first_set_of_node")]
LLR, LRATE = z3.Function("local_lr_of_node", I, R), z3.Function("local_lr_of_weight", I, R)
ARRS = z3.ArraySort(I, R); GARR = z3.Function("gradient_of_backward_pass", I, ARRS)
HEAPS = {"data": "W", "delta": "D", "accumulated_gradients_": "ACC", "last_deltas_": "STEP", "last_gradients_": "SLOPE"}
def hb(n): return ("heap", n)

def h_at(e, st, n, oid, av):
    """Tensor::operator[] / operator()(index): the element, inside the tensor"""
    if len(av) != 1: return NotImplemented
    t = TensorView(e, st, oid); e.obl(st, z3.And(0 <= av[0], av[0] < t.N), "%s: element index inside the tensor" % e.fname, "precondition", n)
    return LElem(t.ptr.target, z3.simplify(t.ptr.off + av[0]), RL)
def nop(e, st, n, oid, av): return OPAQUE

def h_zero(e, st, n, oid, av):
    """Tensor::Clear (proved in C02) on a whole tensor"""
    if any(a is not None for a in av[1:]) and not all(z3.is_int_value(z3.simplify(a)) and z3.simplify(a).as_long() == -1 for a in av[1:] if a is not None): return NotImplemented
    t = TensorView(e, st, oid); p = t.ptr; v = e.to_real(av[0]) if av and av[0] is not None else z3.RealVal(0)
    if e.collect is not None: e.collect["writes"].setdefault(p.target, []).append(("range", p.off, t.N))
    A = e.arr(st, p.target); N = fresh("zero", A.sort()); i = z3.Int("i")
    st.assume(z3.ForAll([i], N[i] == z3.If(z3.And(p.off <= i, i < p.off + t.N), v, A[i]), patterns=[N[i]])); e.wr(st, ("b", p.target), N); return OPAQUE

def sgn(x): return z3.If(x > 0, z3.RealVal(1), z3.If(x < 0, z3.RealVal(-1), z3.RealVal(0)))
def absr(x): return z3.If(x >= 0, x, -x)

class TR(Fn):
    assumptions = ("the parameter tensors of different nodes are different tensors; the optimizer's tensors have the shapes of the parameters, in node order (established by the constructor)",
                   "the statistics sink does not touch parameters or optimizer state (C19)")
    def handlers(self):
        return {"Conv::Tensor::operator[]": h_at, "Conv::Tensor::operator()": h_at, "Conv::Tensor::Clear": h_zero, "Conv::StatAggregator::Update": nop,
                "Conv::TrainingLayer::GetLossSamplingProbability": lambda e, st, n, oid, av: self.p, "Conv::Trainer::InitializeStats": nop}
    def world(self, e, st):
        self.p = z3.Real("loss_sampling_p"); self.TOT, self.P, self.nn = z3.Ints("weights sets nodes")
        e.axioms += [BASE(0) == 0, PB(0) == 0, PB(self.nn) == self.P, BASE(self.P) == self.TOT, self.nn >= 0, self.P >= 0, self.TOT >= 0]
        for h in HEAPS.values(): e.newbuf(hb(h), RL, self.TOT)
        nodes = ("fld", G, "nodes_"); e.init[("f", nodes, "$size")] = self.nn
        def tensor(oid, heap, k):
            e.init[("f", oid, "elements_")] = SZ(k); e.init[("f", oid, "data_ptr_")] = PtrV("buf", hb(heap), BASE(k), FALSE)
        def setfacts(k): i = z3.Int("i"); e.axioms.append(z3.Implies(z3.And(0 <= k, k < self.P), z3.And(BASE(k) >= 0, SZ(k) >= 0, BASE(k + 1) == BASE(k) + SZ(k), BASE(k + 1) <= self.TOT)))
        def fam_node(e_, s_, l, o):
            key = o[1]; e.init[key] = PtrV("obj", o, IV(0), FALSE); lo = ("layer", o); e.init[("f", o, "layer")] = PtrV("obj", lo, IV(0), FALSE)
            inr = z3.And(0 <= l, l < self.nn)
            e.axioms.append(z3.Implies(inr, z3.And(PB(l) >= 0, NP(l) >= 0, PB(l + 1) == PB(l) + NP(l), PB(l + 1) <= self.P)))
            e.init[("f", lo, "local_lr_")] = LLR(l); pv = ("fld", lo, "parameters_"); e.init[("f", pv, "$size")] = NP(l)
            def fam_par(e2, s2, p, q):
                k = z3.simplify(PB(l) + p); e.init[q[1]] = PtrV("obj", q, IV(0), FALSE); setfacts(k)
                tensor(("fld", q, "data"), "W", k); tensor(("fld", q, "delta"), "D", k); i = z3.Int("i")
                e.axioms.append(z3.ForAll([i], z3.Implies(z3.And(inr, 0 <= p, p < NP(l), BASE(k) <= i, i < BASE(k) + SZ(k)), LRATE(i) == LLR(l)), patterns=[LRATE(i)]))
            e.families[pv] = fam_par
        e.families[nodes] = fam_node
        for f in ("accumulated_gradients_", "last_deltas_", "last_gradients_"):
            v = ("fld", THIS, f); e.init[("f", v, "$size")] = self.P
            def fam(e_, s_, k, o, f=f): e.init[o[1]] = PtrV("obj", o, IV(0), FALSE); setfacts(k); tensor(o, HEAPS[f], k)
            e.families[v] = fam
        self.set = lambda n, ty=RL: e.rd(st, ("f", SET, n), ty)
        ft = e.rd(st, ("f", THIS, "first_training_layer_"), T("ptr", el=T("struct", name="Conv::TrainingLayer"))); st.assume(z3.Not(ft.null))
        for g in ("stat_aggloss_", "stat_qp_caseA_", "stat_qp_caseB_", "stat_qp_caseC_", "stat_qp_caseM_", "stat_sps_", "stat_fps_", "stat_aggregator"):
            e.init[("g", g)] = PtrV("obj", ("glob", g), IV(0), FALSE)
        self.sc, self.sb = fld(e, st, "sample_count_"), self.set("sbatchsize", U32); self.method = self.set("optimization_method", I32); self.first = fld(e, st, "first_iteration", BL)
        e.axioms += [z3.Or(self.method == 0, self.method == 1)]; st.assume(self.sc > 0); st.assume(self.sb > 0)
    def heap0(self, e, n): return e.init[("b", hb(n))]
    def dpkey(self, e, L):
        """the running number of the parameter set: the local the innermost loops do not change"""
        ints = [k for k, (o, nv) in L.scal.items() if k[0] == "v" and isinstance(nv, z3.ExprRef) and nv.sort() == I and k not in {c[0] for c in L.counters}]
        inner = [m["keys"] for m in e.loopmods.values() if any(k[0] == "b" for k in m["keys"])]
        c = [k for k in ints if any(k not in m for m in inner)]
        return c[0] if len(c) == 1 else None

class Apply(TR):
    qual = CLS + "::ApplyGradients"
    def pre(self, e, st): self.world(e, st); self.lr = list(e.param.values())[0]
    def cell(self, e, i):
        """(weight, remembered step, remembered slope) after one step of the configured optimizer"""
        S = self.set; W, A, Ld, Lg = [self.heap0(e, h)[i] for h in ("W", "ACC", "STEP", "SLOPE")]; lr, rate = self.lr, LRATE(i)
        n = z3.ToReal(self.sc * self.sb); delta = rate * (A / n * self.p) + rate * (S("l2_weight") * W + S("l1_weight") * sgn(W))
        step = lr * delta + S("momentum") * Ld
        mu = S("mu"); dif = Lg - delta; flat = absr(delta) <= z3.Q(1, 10 ** 15)
        quad = z3.If(z3.And(absr(delta) < absr(mu * dif), sgn(Ld) != sgn(dif)), Ld * delta / dif, mu * Ld)
        q = z3.If(self.first, z3.Q(-1, 10) * delta, z3.If(flat, -delta * lr, z3.If(sgn(delta) == sgn(Lg), quad - lr * delta, quad)))
        gd = self.method == 0
        return z3.If(gd, W - step, W + q), z3.If(gd, step, q), z3.If(gd, Lg, delta)
    def done(self, e, st, hi, i):
        """what the arrays hold when the weights below hi have been stepped"""
        return z3.And([e.arr(st, hb(h))[i] == z3.If(z3.And(0 <= i, i < hi), v, self.heap0(e, h)[i]) for h, v in zip(("W", "STEP", "SLOPE"), self.cell(e, i))])
    def loop_inv(self, e, L, st):
        ch = chain(L); cs = [ctr(e, st, l) for l in ch]; k = PB(cs[0]) + (cs[1] if len(cs) > 1 else 0); out = []
        dp = self.dpkey(e, ch[0])
        if dp is not None: out.append(("running parameter number", e.rd(st, dp) == k))
        hi = BASE(k) + (cs[2] if len(cs) > 2 else 0); i = z3.Int("i")
        for h, v in zip(("W", "STEP", "SLOPE"), self.cell(e, i)):
            A = e.arr(st, hb(h)); b = A[i] == z3.If(z3.And(0 <= i, i < hi), v, self.heap0(e, h)[i])
            out.append(("weights below the running number stepped (%s)" % h, z3.ForAll([i], b, patterns=[A[i]]) if z3.is_const(A) else z3.ForAll([i], b)))
        return out
    def post(self, e, st, ret, kind):
        i = z3.Int("i"); inr = z3.And(0 <= i, i < self.TOT); W, Ld, Lg = self.cell(e, i); cur = lambda h: e.arr(st, hb(h))[i]; A = self.heap0(e, "ACC")
        for m, nm in ((0, "gradient descent"), (1, "quickprop")):
            on = z3.And(inr, self.method == m)
            post(e, st, z3.ForAll([i], z3.Implies(on, cur("W") == W)), "every weight takes the configured %s step" % nm)
            post(e, st, z3.ForAll([i], z3.Implies(on, cur("STEP") == Ld)), "every %s step is remembered" % nm)
            post(e, st, z3.ForAll([i], z3.Implies(on, cur("SLOPE") == Lg)), "the slopes remembered for %s" % nm)
        post(e, st, z3.ForAll([i], z3.Implies(z3.And(inr, LRATE(i) == 0, self.heap0(e, "STEP")[i] == 0), cur("W") == self.heap0(e, "W")[i])), "parameters of untrained parts are untouched")
        for h in ("ACC", "D"): post(e, st, e.arr(st, hb(h)) == self.heap0(e, h), "%s unchanged" % h)
        post(e, st, fld(e, st, "first_iteration", BL) == z3.And(self.first, self.method == 0), "the first quickprop step ends the first iteration")
        post(e, st, fld(e, st, "epoch_") == e.rd(e.entry, ("f", THIS, "epoch_"), U32), "epoch unchanged")

class LR(TR):
    qual = CLS + "::CalculateLR"
    def pre(self, e, st): self.world(e, st)
    def post(self, e, st, ret, kind):
        S = self.set; it = list(e.param.values())[0]
        post(e, st, ret == S("learning_rate") * POW(1 + S("gamma") * z3.ToReal(it), -S("exponent")), "the learning rate follows the decay formula")

class Reset(TR):
    qual = CLS + "::Reset"
    def pre(self, e, st): self.world(e, st)
    def before_loop(self, e, st): pass
    def loop_inv(self, e, L, st):
        k = ctr(e, st, L); i = z3.Int("i"); out = []
        for b in L.writes:
            if b[0] != "heap": continue
            A, E = e.arr(st, b), e.arr(L.entry, b); f = A[i] == z3.If(z3.And(0 <= i, i < BASE(k)), 0, E[i])
            out.append(("cleared up to the running number", z3.ForAll([i], f, patterns=[A[i]]) if z3.is_const(A) else z3.ForAll([i], f)))
        return out
    def post(self, e, st, ret, kind):
        i = z3.Int("i")
        for h in ("STEP", "SLOPE"): post(e, st, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.TOT), e.arr(st, hb(h))[i] == 0)), "%s is back to zero" % h)
        for h in ("W", "ACC", "D"): post(e, st, e.arr(st, hb(h)) == self.heap0(e, h), "%s unchanged" % h)
        post(e, st, fld(e, st, "first_iteration", BL), "the next step is a first step")

class SetEpoch(Reset):
    qual = CLS + "::SetEpoch"
    def post(self, e, st, ret, kind): Reset.post(self, e, st, ret, kind); post(e, st, fld(e, st, "epoch_") == list(e.param.values())[0], "the epoch is set")

MODE = ("ghost", "mode"); KB = z3.Function("backward_passes_before_iteration", I, I); GSUM = z3.Function("gradient_sum", I, I, I, R)
class Run(TR):
    """functions that run the network; ghost counters: forward passes, backward passes, optimizer steps, epochs; ghost mode of every training layer"""
    def ghost(self, e, st, n): return e.rd(st, ("f", THIS, n), I32)
    def setg(self, e, st, n, v): e.wr(st, ("f", THIS, n), v)
    def world(self, e, st):
        TR.world(self, e, st)
        for g in ("$ff", "$bp", "$ap", "$ep"): e.init[("f", THIS, g)] = IV(0)
        self.nt, self.nl, self.ns = z3.Ints("training_nodes loss_nodes stat_nodes"); st.assume(z3.And(self.nt >= 0, self.nl >= 0, self.ns >= 0)); e.newbuf(MODE, I32, self.nt)
        for v, n in (("training_nodes_", self.nt), ("loss_nodes_", self.nl), ("stat_nodes_", self.ns)):
            vo = ("fld", G, v); e.init[("f", vo, "$size")] = n
            def fam(e_, s_, k, o): e.init[o[1]] = PtrV("obj", o, IV(0), FALSE); lo = ("layer", o); e.init[("f", o, "layer")] = PtrV("obj", lo, IV(0), FALSE); e.init[("f", lo, "$number")] = k
            e.families[vo] = fam
        self.train, self.test, self.batch = z3.Ints("training_samples testing_samples batch_size"); st.assume(z3.And(self.train >= 0, self.test >= 0, self.batch > 0))
        self.ep0 = fld(e, st, "epoch_"); k, b, i = z3.Ints("k b i")
        e.axioms += [KB(0) == 0, z3.ForAll([k], z3.Implies(k >= 0, KB(k + 1) == KB(k) + self.sb), patterns=[z3.MultiPattern(KB(k), tick(k))]), z3.ForAll([k, i], GSUM(k, 0, i) == 0, patterns=[GSUM(k, 0, i)]),
                     z3.ForAll([k, b, i], z3.Implies(b >= 0, GSUM(k, b + 1, i) == GSUM(k, b, i) + GARR(k + b)[i]), patterns=[z3.MultiPattern(GSUM(k, b, i), tick(b)), z3.MultiPattern(GSUM(k, b + 1, i), tick(b))])]
    def handlers(self):
        def ff(e, st, n, oid, av):
            if av: return NotImplemented
            i = z3.Int("i"); e.obl(st, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.nt), e.arr(st, MODE)[i] == self.want)), "%s: every training layer is in the right mode during a pass" % e.fname, "postcondition", n)
            self.setg(e, st, "$ff", self.ghost(e, st, "$ff") + 1); return OPAQUE
        def bp(e, st, n, oid, av):
            if av: return NotImplemented
            k = self.ghost(e, st, "$bp"); e.obl(st, self.ghost(e, st, "$ff") == k + 1, "%s: each backward pass follows its forward pass" % e.fname, "postcondition", n)
            N = fresh("gradients", ARRS); st.assume(N == GARR(k)); e.set_arr(st, hb("D"), N); self.setg(e, st, "$bp", k + 1); return OPAQUE
        def mode(e, st, n, oid, av): e.wr_arr(st, MODE, e.rd(st, ("f", oid, "$number"), I32), z3.If(av[0], IV(1), IV(0))); return OPAQUE
        g = lambda n: (lambda e, st, nd, oid, av: getattr(self, n))
        T_ = "Conv::TrainingLayer::"
        return dict(TR.handlers(self), **{"Conv::NetGraph::FeedForward": ff, "Conv::NetGraph::BackPropagate": bp, T_ + "SetTestingMode": mode, T_ + "GetSamplesInTrainingSet": g("train"), T_ + "GetSamplesInTestingSet": g("test"), T_ + "GetBatchSize": g("batch"),
            "Conv::LossFunctionLayer::CalculateLossFunction": lambda e, st, n, oid, av: fresh("loss", R), "Conv::StatLayer::UpdateAll": nop, "Conv::StatLayer::Print": nop, "Conv::NetGraph::SetStatLayersEnabled": nop, "Conv::StatAggregator::Snapshot": nop})
    def mode_inv(self, e, L, st, v):
        A, E, c, i = e.arr(st, MODE), e.arr(L.entry, MODE), ctr(e, st, L), z3.Int("i"); b = A[i] == z3.If(z3.And(0 <= i, i < c), v, E[i])
        return [("mode of the training layers", z3.ForAll([i], b, patterns=[A[i]]) if z3.is_const(A) else z3.ForAll([i], b))]
    def modes(self, e, st, v): i = z3.Int("i"); return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.nt), e.arr(st, MODE)[i] == v))

class Epoch(Run):
    qual = CLS + "::Epoch"; want = 0
    def handlers(self):
        def apply(e, st, n, oid, av):
            """ApplyGradients (proved above)"""
            a, i = self.ghost(e, st, "$ap"), z3.Int("i"); S = self.set; A = e.arr(st, hb("ACC"))
            e.obl(st, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.TOT), A[i] == GSUM(KB(a), self.sb, i))), "Trainer::Epoch: the accumulated gradients are those of the step's own passes", "postcondition", n)
            e.obl(st, self.ghost(e, st, "$bp") == KB(a) + self.sb, "Trainer::Epoch: every step follows sbatchsize passes", "postcondition", n)
            e.obl(st, av[0] == S("learning_rate") * POW(1 + S("gamma") * z3.ToReal(self.ep0 * self.iters + a), -S("exponent")), "Trainer::Epoch: the learning rate is that of the iteration", "postcondition", n)
            for h in ("W", "STEP", "SLOPE"): e.set_arr(st, hb(h), fresh("stepped", ARRS))
            e.wr(st, ("f", THIS, "first_iteration"), fresh("first", B)); self.setg(e, st, "$ap", a + 1); return OPAQUE
        return dict(Run.handlers(self), **{CLS + "::ApplyGradients": apply})
    def pre(self, e, st):
        self.world(e, st); it = self.set("iterations", U32); ratio = self.set("epoch_training_ratio"); st.assume(ratio >= 0)
        self.iters = e.to_int(z3.ToReal(z3.If(it == 0, self.train, it)) * ratio)
    def loop_inv(self, e, L, st):
        if MODE in L.writes: return self.mode_inv(e, L, st, 0)
        ch = chain(L); wr = lambda l, h: hb(h) in l.writes; i = z3.Int("i"); out = []
        if not wr(ch[0], "ACC"): return []
        it = ctr(e, st, ch[0]); g = lambda n: self.ghost(e, st, n); A = e.arr(st, hb("ACC")); allc = lambda b: z3.ForAll([i], b, patterns=[A[i]]) if z3.is_const(A) else z3.ForAll([i], b)
        if len(ch) == 1: return [("passes and steps so far", z3.And(g("$bp") == KB(it), g("$ff") == KB(it), g("$ap") == it, KB(it) >= 0)), ("epoch", fld(e, st, "epoch_") == self.ep0), ("modes", self.modes(e, st, 0))]
        if len(ch) == 2 and not wr(ch[1], "D"):
            c = ctr(e, st, ch[1]); E = e.arr(L.entry, hb("ACC")); return [("accumulators cleared", allc(A[i] == z3.If(z3.And(0 <= i, i < BASE(c)), 0, E[i])))] if wr(ch[1], "ACC") else []
        if not wr(ch[1], "D"): return []
        b = ctr(e, st, ch[1])
        if len(ch) == 2: return [("passes of this step", z3.And(g("$bp") == KB(it) + b, g("$ff") == KB(it) + b)), ("sum of the gradients", allc(z3.Implies(z3.And(0 <= i, i < self.TOT), A[i] == GSUM(KB(it), b, i))))]
        if not wr(ch[2], "ACC"): return []
        cs = [ctr(e, st, l) for l in ch[2:]]; k = PB(cs[0]) + (cs[1] if len(cs) > 1 else 0); hi = BASE(k) + (cs[2] if len(cs) > 2 else 0)
        dp = self.dpkey(e, ch[2])
        if dp is not None: out.append(("running parameter number", e.rd(st, dp) == k))
        E, Dn = e.arr(ch[2].entry, hb("ACC")), e.arr(st, hb("D"))
        return out + [("gradients added below the running number", allc(A[i] == z3.If(z3.And(0 <= i, i < hi), E[i] + Dn[i], E[i])))]
    def hints(self, e, L, st): return [tick(ctr(e, st, L))] if L.counter is not None else []
    def post(self, e, st, ret, kind):
        g = lambda n: self.ghost(e, st, n)
        post(e, st, g("$ap") == self.iters, "an epoch is the configured number of steps")
        post(e, st, z3.And(g("$bp") == KB(self.iters), g("$ff") == KB(self.iters)), "every step consists of sbatchsize forward and backward passes")
        post(e, st, fld(e, st, "epoch_") == self.ep0 + 1, "the epoch counter advances by one"); post(e, st, self.modes(e, st, 0), "training layers stay in training mode")

class Test(Run):
    qual = CLS + "::Test"; want = 1
    def pre(self, e, st):
        self.world(e, st); ratio = self.set("testing_ratio"); st.assume(ratio >= 0); self.iters = e.to_int(z3.ToReal(self.test / self.batch + 1) * ratio)
        for p in ("$ff",): pass
    def loop_inv(self, e, L, st):
        if MODE in L.writes: return self.mode_inv(e, L, st, 1 if e.arr(L.entry, MODE).eq(e.init[("b", MODE)]) else 0)
        if ("f", THIS, "$ff") in L.scal and len(chain(L)) == 1: return [("passes so far", z3.And(self.ghost(e, st, "$ff") == ctr(e, st, L), self.ghost(e, st, "$bp") == 0)), ("modes", self.modes(e, st, 1))]
        return []
    def post(self, e, st, ret, kind):
        for h in HEAPS.values(): post(e, st, e.arr(st, hb(h)) == self.heap0(e, h), "%s unchanged by testing" % h)
        post(e, st, z3.And(self.ghost(e, st, "$ff") == self.iters, self.ghost(e, st, "$bp") == 0), "the configured number of forward passes and no backward pass")
        for f, ty in (("epoch_", U32), ("first_iteration", BL)): post(e, st, fld(e, st, f, ty) == e.rd(e.entry, ("f", THIS, f), ty), "%s unchanged by testing" % f)
        post(e, st, self.modes(e, st, 0), "all training layers are back in training mode")

class Train(Run):
    qual = CLS + "::Train"; want = 0
    def handlers(self):
        def epoch(e, st, n, oid, av):
            """Epoch (proved above)"""
            e.obl(st, z3.Not(e.rd(st, ("f", G, "is_testing_"), BL)), "Trainer::Train: epochs run with the network in training mode", "postcondition", n)
            e.wr(st, ("f", THIS, "epoch_"), fld(e, st, "epoch_") + 1); self.setg(e, st, "$ep", self.ghost(e, st, "$ep") + 1)
            for h in HEAPS.values(): e.set_arr(st, hb(h), fresh("trained", ARRS))
            return OPAQUE
        return dict(Run.handlers(self), **{CLS + "::Epoch": epoch})
    def pre(self, e, st): self.world(e, st); self.n = list(e.param.values())[0]
    def loop_inv(self, e, L, st):
        c = ctr(e, st, L); return [("epochs so far", z3.And(self.ghost(e, st, "$ep") == c, fld(e, st, "epoch_") == self.ep0 + c)), ("training mode", z3.Not(e.rd(st, ("f", G, "is_testing_"), BL)))]
    def post(self, e, st, ret, kind):
        post(e, st, self.ghost(e, st, "$ep") == self.n, "the requested number of epochs is run"); post(e, st, fld(e, st, "epoch_") == self.ep0 + self.n, "the epoch counter advances by that number")

def FNS(): return [Apply(), LR(), Reset(), SetEpoch(), Epoch(), Test(), Train()]
