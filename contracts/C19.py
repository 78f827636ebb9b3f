"""C19: the statistics aggregator: what every call does in every state, as one transition function per method."""
from lib import *
SOURCES = ["src/util/StatAggregator.cpp"]
CLS = "Conv::StatAggregator"; THIS = "this"
STOPPED, RECORDING, INIT = 0, 1, 2
U32, U64, I32, BL, DBL = T("int", 32, False), T("int", 64, False), T("int", 32, True), T("bool"), T("real", name="double")
RB = [R, B]
# what the functions of statistic k do, as functions of its value, null flag (and the user value / the built-in counters)
UPDV, UPDN = z3.Function("update_value", I, R, B, R, R), z3.Function("update_null", I, R, B, R, B)
INIV, ININ = z3.Function("init_value", I, R, B, R), z3.Function("init_null", I, R, B, B)
HC = [R, I, I, I, B]
OUTV, OUTN = z3.Function("output_value", I, *(HC + [R, B, R])), z3.Function("output_null", I, *(HC + [R, B, B]))
HCF = [("seconds_elapsed", DBL), ("iterations", U64), ("weights", U64), ("epoch", U64), ("is_training", BL)]
ST, DE, SI, H = [("fld", THIS, n) for n in ("stats_", "stat_descriptors_", "stat_sinks_", "hardcoded_stats_")]
VAL, NUL, IDS = ("stat", "value"), ("stat", "is_null"), ("descriptor", "stat_id")
PROC, INITS, EXPS = ("sink", "reports"), ("sink", "initialised"), ("sink", "experiments")

class Agg(Fn):
    assumptions = ("the functions of a statistic read and change only that statistic; sinks change nothing in the aggregator", "every registered descriptor is a different object")
    def __init__(self, name): self.qual = CLS + "::" + name
    def world(self, e, st):
        n, m = self.n, self.m = fld(e, st, "stat_descriptor_count_"), fld(e, st, "stat_sink_count_"); st.assume(z3.And(n < 2 ** 31, m < 2 ** 31))
        for v, k in ((ST, n), (DE, n), (SI, m)): e.init[("f", v, "$size")] = k
        e.newbuf(VAL, DBL, n); e.newbuf(NUL, BL, n); e.newbuf(IDS, U32, n); e.soavec[ST] = {"value": VAL, "is_null": NUL}
        def dfam(e_, s_, k, o): d = ("H", "descriptor", str(k)); d = ("descr", str(k)); e_.soa[d] = ({"stat_id": IDS}, k); e_.init[o[1]] = PtrV("obj", d, IV(0), FALSE)
        def sfam(e_, s_, k, o): d = ("sinkobj", str(k)); e_.soa[d] = ({}, k); e_.init[o[1]] = PtrV("obj", d, IV(0), FALSE)
        e.families[DE] = dfam; e.families[SI] = sfam
        for g in (PROC, INITS, EXPS): e.newbuf(g, I32, m)
        e.heap_class(st, "Conv::Stat", {"value": DBL, "is_null": BL})
        self.now = z3.Real("time_of_the_call"); self.t0 = fld(e, st, "start_time_", DBL); st.assume(self.now >= self.t0)
        s = self.s0 = fld(e, st, "state_", I32); st.assume(z3.And(0 <= s, s <= 2)); self.V0, self.N0, self.I0 = [e.init[("b", b)] for b in (VAL, NUL, IDS)]
        self.hc0 = self.hc(e, st); k = z3.Int("k"); st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), self.I0[k] == k), patterns=[self.I0[k]]))   # class invariant: statistic k has id k
    def hc(self, e, st): return [e.rd(st, ("f", H, f), ty) for f, ty in HCF]
    def sinkbuf(self, e, st, b): return e.arr(st, b)
    def handlers(self):
        def call(e, st, n, o, args):
            f = args[0]
            while f["kind"] != "MemberExpr": f = e.inner(f)[0]
            bv = e.rv(e.inner(f)[0], st); d = e.deref(st, bv, None, n).oid if isinstance(bv, PtrV) else bv.oid; k = e.soa[d][1]
            x = e.rv(args[2 if f["name"] == "output_function" else 1], st); g = lambda q, t: e.load(st, e.field(st, x.oid, q, t), n)
            v, z = g("value", DBL), g("is_null", BL)
            def put(v, z): e.store(st, e.field(st, x.oid, "value", DBL), v, n); e.store(st, e.field(st, x.oid, "is_null", BL), z, n)
            if f["name"] == "update_function":
                u = e.to_real(e.rv(args[2], st)); put(UPDV(k, v, z, u), UPDN(k, v, z, u)); return OPAQUE
            if f["name"] == "init_function": put(INIV(k, v, z), ININ(k, v, z)); return OPAQUE
            if f["name"] != "output_function": raise ExtractionError("call of " + f["name"])
            hv = e.rv(args[1], st); h = [e.load(st, e.field(st, hv.oid, q, t), n) for q, t in HCF]; o2 = ("tmp", e.callpath, n["id"])
            e.store(st, e.field(st, o2, "value", DBL), OUTV(k, *(h + [v, z]))); e.store(st, e.field(st, o2, "is_null", BL), OUTN(k, *(h + [v, z]))); return StructV(o2, T("struct", name="Conv::Stat"))
        def bump(buf):
            def h(e, st, n, o, av):
                k = e.soa[o][1]; e.wr_arr(st, buf, k, e.arr(st, buf)[k] + 1); self.on(e, st, n, buf, k, av); return OPAQUE
            return h
        S = "Conv::StatSink::"
        return {"std::operator()": call, S + "Process": bump(PROC), S + "Initialize": bump(INITS), S + "SetCurrentExperiment": bump(EXPS), "std::now": lambda e, st, n, o, av=None: self.now,
                "std::operator-": lambda e, st, n, o, a: e.to_real(e.rv(a[0], st)) - e.to_real(e.rv(a[1], st)), "method:count": lambda e, st, n, bv, a: bv}
    def on(self, e, st, n, buf, k, av):
        if buf is PROC:
            hc, v = av[0], av[1]; size = e.rd(st, ("f", v.oid, "$size"), U64)
            e.obl(st, size == self.n, "%s: a report has one value per registered statistic" % e.fname, "postcondition", n)
            q = z3.Int("q"); P = e.arr(st, ("vec", v.oid)) if ("b", ("vec", v.oid)) in e.init else z3.K(I, IV(0)); fs = e.heap["Conv::Stat"][0]
            X, Y = e.arr(st, fs["value"]), e.arr(st, fs["is_null"]); V, N = e.arr(st, VAL), e.arr(st, NUL); h = self.hc(e, st)
            e.obl(st, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < self.n), z3.And(X[P[q]] == OUTV(q, *(h + [V[q], N[q]])), Y[P[q]] == OUTN(q, *(h + [V[q], N[q]]))))), "%s: value q of a report is the output of statistic q" % e.fname, "postcondition", n)
            if not (isinstance(hc, StructV) and hc.oid == H): e.obl(st, FALSE, "%s: the report carries the aggregator's counters" % e.fname, "postcondition", n)
    # ---- what a function leaves as it was / sets
    def sinks_all(self, e, st, buf, L=None):
        """every sink below the counter was called once"""
        A, A0 = e.arr(st, buf), e.init[("b", buf)] if L is None else e.arr(L.entry, buf); k = z3.Int("k"); hi = self.m if L is None else ctr(e, st, L)
        b = A[k] == z3.If(z3.And(0 <= k, k < hi), A0[k] + 1, A0[k]); return z3.ForAll([k], b, patterns=[A[k]]) if z3.is_const(A) else z3.ForAll([k], b)
    def reset_upto(self, e, st, A0s, hi):
        k = z3.Int("k"); out = []
        for b, F, o in ((VAL, INIV, 0), (NUL, ININ, 1)):
            A = e.arr(st, b); f = A[k] == z3.If(z3.And(0 <= k, k < hi), F(k, A0s[0][k], A0s[1][k]), A0s[o][k]); out.append(z3.ForAll([k], f, patterns=[A[k]]) if z3.is_const(A) else z3.ForAll([k], f))
        return out
    def pre(self, e, st): self.world(e, st)
    def same(self, e, st, what, cond=TRUE):
        """parts of the aggregator that the call does not change"""
        P = lambda g, n: post(e, st, z3.Implies(cond, g), n)
        if "state" in what: P(fld(e, st, "state_", I32) == self.s0, "state unchanged")
        if "start" in what: P(fld(e, st, "start_time_", DBL) == self.t0, "start of the recording unchanged")
        if "stats" in what: P(z3.And(e.arr(st, VAL) == self.V0, e.arr(st, NUL) == self.N0), "no statistic changed")
        if "hc" in what: P(z3.And([a == b for a, b in zip(self.hc(e, st), self.hc0)]), "built-in counters unchanged")
        if "ids" in what: P(e.arr(st, IDS) == self.I0, "ids kept")
        if "reg" in what: P(z3.And(fld(e, st, "stat_descriptor_count_") == self.n, fld(e, st, "stat_sink_count_") == self.m, *[e.rd(st, ("f", v, "$size"), U64) == k for v, k in ((ST, self.n), (DE, self.n), (SI, self.m))]), "nothing registered or removed")
        for nm, b in (("reports", PROC), ("initialised", INITS), ("experiments", EXPS)):
            if nm in what: P(e.arr(st, b) == e.init[("b", b)], "no sink called: " + nm)
    ALL = ("state", "start", "stats", "hc", "ids", "reg", "reports", "initialised", "experiments")
    def but(self, *a): return [x for x in self.ALL if x not in a]

class RegStat(Agg):
    def pre(self, e, st):
        self.world(e, st); p = list(e.param.values())[0]; d = self.d = p.target; st.assume(z3.Not(p.null)); e.soa[d] = ({"stat_id": IDS}, self.n); e.blen[IDS] = self.n + 1
    def post(self, e, st, ret, kind):
        n = self.n; k = z3.Int("k"); post(e, st, ret == n, "the id is the number of statistics so far")
        post(e, st, e.arr(st, IDS)[n] == n, "the descriptor holds its id"); post(e, st, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), e.arr(st, IDS)[k] == k)), "earlier statistics keep their ids")
        post(e, st, fld(e, st, "stat_descriptor_count_") == n + 1, "one statistic more"); post(e, st, z3.And(*[e.rd(st, ("f", v, "$size"), U64) == n + 1 for v in (ST, DE)]), "one value and one descriptor per statistic")
        post(e, st, fld(e, st, "stat_sink_count_") == self.m, "sinks kept"); post(e, st, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(e.arr(st, VAL)[k] == self.V0[k], e.arr(st, NUL)[k] == self.N0[k]))), "values of earlier statistics kept")
        x = e.rd(st, ("f", DE, "[%s]" % z3.simplify(n))); post(e, st, z3.BoolVal(isinstance(x, PtrV) and x.target == self.d), "the descriptor is stored under its id")
        self.same(e, st, ["state", "start", "hc", "reports", "initialised", "experiments"])
class RegSink(Agg):
    def post(self, e, st, ret, kind):
        post(e, st, ret == self.m, "the sink's id"); post(e, st, z3.And(fld(e, st, "stat_sink_count_") == self.m + 1, e.rd(st, ("f", SI, "$size"), U64) == self.m + 1, fld(e, st, "stat_descriptor_count_") == self.n), "one sink more")
        x = e.rd(st, ("f", SI, "[%s]" % z3.simplify(self.m))); p = list(e.param.values())[0]; post(e, st, z3.BoolVal(isinstance(x, PtrV) and isinstance(p, PtrV) and x.target == p.target), "the sink is stored"); self.same(e, st, self.but("reg"))
class Update(Agg):
    def pre(self, e, st): self.world(e, st); self.id, self.u = list(e.param.values())[:2]
    def post(self, e, st, ret, kind):
        i, V0, N0, u = self.id, self.V0, self.N0, self.u; on = z3.And(self.s0 == RECORDING, i < self.n); k = z3.Int("k")
        post(e, st, z3.Implies(on, z3.And(e.arr(st, VAL)[i] == UPDV(i, V0[i], N0[i], u), e.arr(st, NUL)[i] == UPDN(i, V0[i], N0[i], u))), "while recording the named statistic is updated with the value")
        post(e, st, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.n, k != i), z3.And(e.arr(st, VAL)[k] == V0[k], e.arr(st, NUL)[k] == N0[k]))), "no other statistic changes")
        self.same(e, st, ["stats"], z3.Not(on)); self.same(e, st, self.but("stats"))
class Reset(Agg):
    def loop_inv(self, e, L, st):
        if VAL not in L.writes: return []
        return [("statistics below the counter reset", x) for x in self.reset_upto(e, st, (e.arr(L.entry, VAL), e.arr(L.entry, NUL)), ctr(e, st, L))]
    def is_reset(self, e, st, cond, hc0):
        k = z3.Int("k"); inr = z3.And(cond, 0 <= k, k < self.n); h = self.hc(e, st)
        post(e, st, z3.ForAll([k], z3.Implies(inr, z3.And(e.arr(st, VAL)[k] == INIV(k, self.V0[k], self.N0[k]), e.arr(st, NUL)[k] == ININ(k, self.V0[k], self.N0[k])))), "every statistic is freshly initialised")
        post(e, st, z3.Implies(cond, z3.And(h[0] == 0, h[1] == 0, h[2] == 0)), "the built-in counters are zero"); post(e, st, z3.And(h[3] == hc0[3], h[4] == hc0[4]), "epoch and mode kept")
    def post(self, e, st, ret, kind):
        on = self.s0 == STOPPED; self.is_reset(e, st, on, self.hc0); self.same(e, st, ["stats", "hc"], z3.Not(on)); self.same(e, st, self.but("stats", "hc"))
class Start(Agg):
    def post(self, e, st, ret, kind): post(e, st, fld(e, st, "state_", I32) == z3.If(self.s0 == STOPPED, RECORDING, self.s0), "recording starts exactly when stopped"); post(e, st, fld(e, st, "start_time_", DBL) == z3.If(self.s0 == STOPPED, self.now, self.t0), "the clock starts exactly when stopped"); self.same(e, st, self.but("state", "start"))
class Stop(Agg):
    def post(self, e, st, ret, kind):
        post(e, st, fld(e, st, "state_", I32) == z3.If(self.s0 == RECORDING, STOPPED, self.s0), "recording stops exactly when recording"); h = self.hc(e, st)
        post(e, st, z3.And(h[0] == self.hc0[0] + z3.If(self.s0 == RECORDING, self.now - self.t0, 0), *[a == b for a, b in list(zip(h, self.hc0))[1:]]), "only the elapsed time grows, by the recorded time, only when recording stops"); self.same(e, st, self.but("state", "hc"))
class Experiment(Agg):
    def loop_inv(self, e, L, st): return [("sinks below the counter told", self.sinks_all(e, st, EXPS, L))]
    def post(self, e, st, ret, kind):
        post(e, st, z3.Implies(self.s0 == STOPPED, self.sinks_all(e, st, EXPS)), "every sink is told the experiment once"); self.same(e, st, ["experiments"], self.s0 != STOPPED); self.same(e, st, self.but("experiments"))
class Initialize(Reset):
    def loop_inv(self, e, L, st):
        out = Reset.loop_inv(self, e, L, st)
        for b in (EXPS, INITS):
            if b in L.writes: out.append(("sinks below the counter called", self.sinks_all(e, st, b, L)))
        return out
    def post(self, e, st, ret, kind):
        on = self.s0 == INIT; post(e, st, fld(e, st, "state_", I32) == z3.If(on, STOPPED, self.s0), "initialising stops, once"); self.is_reset(e, st, on, self.hc0)
        post(e, st, z3.Implies(on, z3.And(self.sinks_all(e, st, INITS), self.sinks_all(e, st, EXPS))), "every sink is initialised and told the experiment once"); self.same(e, st, ["stats", "hc", "initialised", "experiments"], z3.Not(on)); self.same(e, st, ["ids", "reg", "reports", "start"])
class Generate(Agg):
    def loop_inv(self, e, L, st):
        S = "Conv::Stat"; bufs, al, n0 = e.heap[S]; nx = e.heap_next(st, S); A = e.arr(st, al); out = []; k = z3.Int("k"); c = ctr(e, st, L) if L.counter is not None else None
        if c is None: return []
        vecs = [b[1] for b in L.writes if b[0] == "vec"] or [v for v in e.ptrvec]; Q = lambda b, P: z3.ForAll([k], b, patterns=[P]) if z3.is_const(P.arg(0)) else z3.ForAll([k], b)
        if ("g", "$next", S) in L.scal:     # the loop that makes the values
            h = self.hc(e, st); V, N = e.arr(st, VAL), e.arr(st, NUL); out.append(("objects made", nx == n0 + c)); inr = z3.And(0 <= k, k < c)
            for b, F in ((bufs["value"], OUTV), (bufs["is_null"], OUTN)): X = e.arr(st, b); out.append(("outputs of the statistics so far", z3.ForAll([k], z3.Implies(inr, X[n0 + k] == F(k, *(h + [V[k], N[k]]))))))
            out.append(("alive", Q(z3.Implies(z3.And(n0 <= k, k < n0 + c), A[k] == 1), A[k])))
            for v in self.lvecs(e, st): out += [("values so far", e.rd(st, ("f", v, "$size"), U64) == c)] + [("in order", Q(z3.Implies(inr, P[k] == n0 + k), P[k])) for P in [e.arr(st, ("vec", v))] if True]
        elif PROC in L.writes: out.append(("sinks below the counter processed", self.sinks_all(e, st, PROC, L)))
        elif al in L.writes: out += [("freed so far", Q(z3.Implies(z3.And(n0 <= k, k < n0 + self.n), A[k] == z3.If(k < n0 + c, IV(0), IV(1))), A[k]))]
        return out
    def lvecs(self, e, st): return list(e.ptrvec)
    def post(self, e, st, ret, kind):
        S = "Conv::Stat"; bufs, al, n0 = e.heap[S]; k = z3.Int("k"); nx = e.heap_next(st, S)
        post(e, st, self.sinks_all(e, st, PROC), "every sink gets the report once"); post(e, st, z3.ForAll([k], z3.Implies(z3.And(n0 <= k, k < nx), e.arr(st, al)[k] == 0)), "everything allocated is freed"); self.same(e, st, self.but("reports"))
class Snapshot(Agg):
    """Generate, Reset, StartRecording, StopRecording are inlined or taken by contract"""
    def handlers(self):
        def gen(e, st, n, o, av):
            """Generate (proved above)"""
            self.gens += 1; A0 = e.arr(st, PROC); N = fresh("reports", A0.sort()); k = z3.Int("k"); st.assume(z3.ForAll([k], N[k] == z3.If(z3.And(0 <= k, k < self.m), A0[k] + 1, A0[k]), patterns=[N[k]])); e.set_arr(st, PROC, N)
            e.obl(st, z3.And(e.arr(st, VAL) == self.V0, e.arr(st, NUL) == self.N0, *[a == b for a, b in list(zip(self.hc(e, st), self.hc0))[1:]], self.hc(e, st)[0] == self.hc0[0] + (self.now - self.t0)), "StatAggregator::Snapshot: the report holds the values collected so far", "postcondition", n); return OPAQUE
        self.gens = 0; return dict(Agg.handlers(self), **{CLS + "::Generate": gen})
    loop_inv = Reset.loop_inv; is_reset = Reset.is_reset
    def post(self, e, st, ret, kind):
        on = self.s0 == RECORDING; self.is_reset(e, st, on, self.hc0); post(e, st, z3.Implies(on, self.sinks_all(e, st, PROC)), "every sink gets one report"); self.same(e, st, ["stats", "hc", "reports"], z3.Not(on)); post(e, st, fld(e, st, "start_time_", DBL) == z3.If(on, self.now, self.t0), "the clock starts anew"); self.same(e, st, self.but("stats", "hc", "reports", "start"))

def FNS(): return [RegStat("RegisterStat"), RegSink("RegisterSink"), Update("Update"), Reset("Reset"), Start("StartRecording"), Stop("StopRecording"), Experiment("SetCurrentExperiment"), Initialize("Initialize"), Generate("Generate"), Snapshot("Snapshot")]
