"""C21: execution of a network: every node once, in dependency order; registration of nodes; completeness."""
from lib import *
SOURCES = ["src/net/NetGraph.cpp"] + TSRC
CLS = "Conv::NetGraph"; THIS = "this"; NODE = "Conv::NetGraphNode"; LAYER = "Conv::Layer"; TENSOR = "Conv::CombinedTensor"
f2 = lambda n, s=I: z3.Function(n, I, I, s)
IN, INBUF, INBP, INNULL = f2("source"), f2("source_buffer"), f2("connection_backprop", B), f2("connection_is_null", B)     # connection c of node a
NIN, NOUT, OUTS, DST = z3.Function("connections", I, I), z3.Function("gradient_sources", I, I), z3.Function("output_buffers", I, I), f2("gradient_source")
ANYBP = f2("some_connection_before_wants_gradients", B)
RANK = z3.Function("rank", I, I)
RUNS = ("ghost", "runs")
NV = ("fld", THIS, "nodes_")
FIELDS = {"flag_ff_visited": BL, "flag_bp_visited": BL, "is_input": BL, "is_output": BL, "initialized": BL}

class Net(Fn):
    """nodes are numbers; nodes_[k] is node k; a complete acyclic network: sources are nodes of the network with smaller rank"""
    assumptions = ("the network is complete and acyclic: connections lead to nodes of the network, along which a rank decreases; every node has a layer", "a layer's FeedForward / BackPropagate does not change the network", "the layer view is off")
    closed = True; order = None
    def world(self, e, st):
        n = self.n = z3.Int("nodes"); st.assume(z3.And(0 <= n, n < 2 ** 31)); k = z3.Int("k")
        for cls, fs in ((NODE, FIELDS), (LAYER, {}), (TENSOR, {})): e.heap_class(st, cls, fs); al = e.arr(st, ("alive", cls)); st.assume(z3.ForAll([k], al[k] == 1, patterns=[al[k]]))
        e.init[("f", NV, "$size")] = n; e.init[("f", THIS, "layerview_enabled_")] = FALSE
        self.bufs = e.heap[NODE][0]; e.newbuf(RUNS, I32, n); orig = e.heapptr; made = set()
        def heapptr(cls, a):
            p = orig(cls, a)
            if cls == NODE and p.target not in made: made.add(p.target); self.node_facts(e, p.target, e.soa[p.target][1])
            return p
        e.heapptr = heapptr
        if self.closed:
            def fam(e_, s_, l, o): e.init[o[1]] = e.heapptr(NODE, l)
            e.families[NV] = fam
        if self.order:
            F, N = self.order; c, a = z3.Ints("c a")
            e.axioms.append(z3.ForAll([a, c], z3.Implies(z3.And(0 <= a, a < n, 0 <= c, c < N(a)), z3.And(0 <= F(a, c), F(a, c) < n, RANK(F(a, c)) < RANK(a))), patterns=[F(a, c)]))
    def node_facts(self, e, o, a):
        l = e.heapptr(LAYER, a); e.init[("f", o, "layer")] = PtrV("obj", l.target, IV(0), self.layer_null(e, o))
        ic, bc, ob = [("fld", o, x) for x in ("input_connections", "backprop_connections", "output_buffers")]
        e.init[("f", ic, "$size")], e.init[("f", bc, "$size")], e.init[("f", ob, "$size")] = NIN(a), NOUT(a), OUTS(a); e.axioms += [NIN(a) >= 0, NOUT(a) >= 0, OUTS(a) >= 0]
        def fin(e_, s_, c, q):
            p = e.heapptr(NODE, IN(a, c)); e.init[("f", q, "node")] = PtrV("obj", p.target, IV(0), FALSE if self.closed else INNULL(a, c)); e.init[("f", q, "buffer")] = INBUF(a, c); e.axioms.append(INBUF(a, c) >= 0)
            self.connection(e, a, c, q)
        def fout(e_, s_, c, q): e.init[("f", q, "node")] = e.heapptr(NODE, DST(a, c)); e.init[("f", q, "buffer")] = z3.Function("gradient_source_buffer", I, I, I)(a, c)
        e.families[ic] = fin; e.families[bc] = fout; self.buffers(e, a, ob)
    def buffers(self, e, a, ob): pass
    def layer_null(self, e, o): return FALSE
    def connection(self, e, a, c, q): e.init[("f", q, "backprop")] = INBP(a, c); e.axioms += [z3.Not(ANYBP(a, 0)), z3.Implies(c >= 0, ANYBP(a, c + 1) == z3.Or(ANYBP(a, c), INBP(a, c)))]

class Pass(Net):
    """one forward (backward) pass over the flags flag_ff_visited (flag_bp_visited)"""
    def __init__(self, fwd):
        self.fwd = fwd; self.name = "FeedForward" if fwd else "BackPropagate"; self.qual = CLS + "::" + self.name
        self.flag = "flag_ff_visited" if fwd else "flag_bp_visited"; self.order = (IN, NIN) if fwd else (DST, NOUT)
    def handlers(self): return {self.qual: self.recursive, "Conv::Layer::" + self.name: self.run}
    def V(self, e, st): return e.arr(st, self.bufs[self.flag])
    def R(self, e, st): return e.arr(st, RUNS)
    def inv(self, e, st):
        V, Rn = self.V(e, st), self.R(e, st); b, c = z3.Ints("b c"); F, N = self.order
        p1 = [Rn[b]] if z3.is_const(Rn) else []; p1 = ([z3.MultiPattern(Rn[b])] + ([V[b]] if z3.is_const(V) else [])) if p1 else []
        return [("a node was run once if visited and not at all otherwise", z3.ForAll([b], z3.Implies(z3.And(0 <= b, b < self.n), Rn[b] == z3.If(V[b], IV(1), IV(0))), **({"patterns": p1} if p1 else {}))),
                ("everything a visited node depends on is visited", z3.ForAll([b, c], z3.Implies(z3.And(0 <= b, b < self.n, 0 <= c, c < N(b), V[b]), V[F(b, c)]), patterns=[F(b, c)]))]
    def mono(self, e, st, V0): V = self.V(e, st); b = z3.Int("b"); return z3.ForAll([b], z3.Implies(V0[b], V[b]), **({"patterns": [V[b]]} if z3.is_const(V) else {}))
    def frame(self, e, st, V0, R0, a):
        """nodes of the same or higher rank other than a are not touched"""
        V, Rn = self.V(e, st), self.R(e, st); b = z3.Int("b"); f = z3.ForAll([b], z3.Implies(z3.And(b != a, RANK(b) >= RANK(a)), z3.And(V[b] == V0[b], Rn[b] == R0[b])), **({"patterns": [V[b], Rn[b]]} if z3.is_const(V) and z3.is_const(Rn) else {}))
        return f
    def recursive(self, e, st, n, oid, av):
        if not (len(av) == 1 and isinstance(av[0], PtrV)): return NotImplemented
        p = av[0]; e.deref(st, p, None, n); a = e.soa[p.target][1]; e.obl(st, z3.And(0 <= a, a < self.n), "%s: the node is one of the network" % e.fname, "precondition", n)
        if self.me is not None: e.obl(st, RANK(a) < RANK(self.me), "%s: recursion descends" % e.fname, "termination", n)
        for nm, f in self.inv(e, st): e.obl(st, f, "%s: before a call: %s" % (e.fname, nm), "precondition", n)
        V0, R0 = self.V(e, st), self.R(e, st)
        for buf in (self.bufs[self.flag], RUNS): e.set_arr(st, buf, fresh("visit", e.arr(st, buf).sort()))
        for nm, f in self.inv(e, st): st.assume(f)
        st.assume(z3.And(self.V(e, st)[a], self.mono(e, st, V0), self.frame(e, st, V0, R0, a))); return OPAQUE
    def run(self, e, st, n, oid, av):
        a = e.soa[oid][1]; V = self.V(e, st); c = z3.Int("c"); F, N = self.order
        e.obl(st, self.R(e, st)[a] == 0, "%s: the layer has not run yet in this pass" % e.fname, "postcondition", n)
        e.obl(st, z3.ForAll([c], z3.Implies(z3.And(0 <= c, c < N(a)), self.R(e, st)[F(a, c)] == 1)), "%s: every layer it depends on has run" % e.fname, "postcondition", n)
        if not self.fwd: e.obl(st, e.rd(st, ("f", oid, "backprop_enabled_"), BL) == ANYBP(a, NIN(a)), "%s: the layer computes gradients exactly if a connection wants them" % e.fname, "postcondition", n)
        e.wr_arr(st, RUNS, a, self.R(e, st)[a] + 1); return OPAQUE

class Visit(Pass):
    def label(self): return "NetGraph::%s (node)" % self.name
    def node(self, prog): return [x for x in prog.byqual[self.qual] if len(params(x)) == 1 and body(x) is not None][0]
    def pre(self, e, st):
        self.world(e, st); a = self.me = z3.Int("a_node"); st.assume(z3.And(0 <= a, a < self.n)); fix_param(e, st, list(e.param)[0], e.heapptr(NODE, a))
        for _, f in self.inv(e, st): st.assume(f)
        self.V0, self.R0 = self.V(e, st), self.R(e, st); e.axioms.append(z3.Not(ANYBP(a, 0)))
    def loop_inv(self, e, L, st):
        c = ctr(e, st, L)
        if RUNS in L.writes or self.bufs[self.flag] in L.writes:
            F, N = self.order; k = z3.Int("k"); V = self.V(e, st)
            return self.inv(e, st) + [("dependencies so far are visited", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < c), V[F(self.me, k)]), patterns=[F(self.me, k)])), ("visited stays visited", self.mono(e, st, self.V0)),
                    ("nodes of higher rank not touched", self.frame(e, st, self.V0, self.R0, self.me)), ("this node has not run", z3.And(z3.Not(V[self.me]), self.R(e, st)[self.me] == 0))]
        bs = e.accs(L, st, B)
        return [("some connection so far wants gradients", bs[0] == ANYBP(self.me, c))] if len(bs) == 1 else []
    def post(self, e, st, ret, kind):
        for nm, f in self.inv(e, st): post(e, st, f, nm)
        post(e, st, self.V(e, st)[self.me], "the node is visited"); post(e, st, self.mono(e, st, self.V0), "visited stays visited"); post(e, st, self.frame(e, st, self.V0, self.R0, self.me), "nodes of the same or higher rank are not touched")

class All(Pass):
    me = None
    def label(self): return "NetGraph::%s" % self.name
    def node(self, prog): return [x for x in prog.byqual[self.qual] if len(params(x)) == 0 and body(x) is not None][0]
    def pre(self, e, st):
        self.world(e, st); k = z3.Int("k"); Rn = self.R(e, st); st.assume(z3.ForAll([k], Rn[k] == 0, patterns=[Rn[k]]))
    def loop_inv(self, e, L, st):
        V = self.V(e, st); k = z3.Int("k"); c = ctr(e, st, L); q = lambda want: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < c), V[k] if want else z3.Not(V[k])), **({"patterns": [V[k]]} if z3.is_const(V) else {}))
        if RUNS in L.writes: return self.inv(e, st) + [("nodes below the counter visited", q(True))]
        return [("flags below the counter cleared", q(False))]
    def post(self, e, st, ret, kind):
        b = z3.Int("b"); post(e, st, z3.ForAll([b], z3.Implies(z3.And(0 <= b, b < self.n), self.R(e, st)[b] == 1)), "every layer ran exactly once")

# ---- setting up: every layer is connected once, to the outputs its connections name
OB, MADE = z3.Function("first_buffer_of_node", I, I), z3.Function("tensor_made", I, I, I); TEN = ("ghost", "combined_tensors"); OKC, OKO = z3.Function("layer_connects", I, B), z3.Function("layer_makes_outputs", I, B)
class Deep(Pass):
    """the recursions that visit a node after everything it depends on, by one of the flags"""
    def run(self, e, st, n, oid, av):
        a = e.soa[oid][1]; V = self.V(e, st); c = z3.Int("c"); F, N = self.order
        e.obl(st, self.R(e, st)[a] == 0, "%s: the layer is set up for the first time" % e.fname, "postcondition", n); e.obl(st, z3.ForAll([c], z3.Implies(z3.And(0 <= c, c < N(a)), self.R(e, st)[F(a, c)] == 1)), "%s: every layer it depends on is set up" % e.fname, "postcondition", n)
        e.wr_arr(st, RUNS, a, self.R(e, st)[a] + 1); return self.given(e, st, n, a, av)
    def vec(self, e, st, v): return e.rd(st, ("f", v.oid, "$size"), U64), e.arr(st, ("vec", v.oid)) if ("b", ("vec", v.oid)) in e.init else z3.K(I, IV(0))
class InitNode(Deep, Visit):
    assumptions = Net.assumptions[:1] + ("CreateOutputs makes some number of tensors; it and Connect change nothing in the network", "connections name existing outputs (IsComplete)")
    def __init__(self): self.fwd = True; self.flag, self.order, self.name, self.qual = "initialized", (IN, NIN), "InitializeNode", CLS + "::InitializeNode"
    def handlers(self): return {self.qual: self.recursive, "Conv::Layer::CreateOutputs": self.create, "Conv::Layer::Connect": self.run}
    def world(self, e, st):
        Net.world(self, e, st); self.total = z3.Int("buffers"); e.newbuf(TEN, T("int", 64, True), self.total); e.ptrbuf[TEN] = TENSOR; a, c = z3.Ints("a c")
        e.axioms.append(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < self.n), z3.And(OB(a) >= 0, OUTS(a) >= 0, OB(a + 1) == OB(a) + OUTS(a), OB(a + 1) <= self.total)), patterns=[OB(a)])); b = z3.Int("b")
        e.axioms.append(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < self.n), OB(a) + OUTS(a) <= OB(b)), patterns=[z3.MultiPattern(OB(a), OB(b))])); e.axioms.append(z3.ForAll([a, c], MADE(a, c) >= 0, patterns=[MADE(a, c)]))
        e.axioms.append(z3.ForAll([a, c], z3.Implies(z3.And(0 <= a, a < self.n, 0 <= c, c < NIN(a)), z3.And(0 <= INBUF(a, c), INBUF(a, c) < OUTS(IN(a, c)))), patterns=[INBUF(a, c)]))
    def buffers(self, e, a, ob):
        def fam(e_, s_, b, q): e.soa[q] = ({"combined_tensor": TEN}, z3.simplify(OB(a) + b)); e.axioms.append(OB(a) == OB(a))
        e.families[ob] = fam
    def inv(self, e, st):
        V, X = self.V(e, st), e.arr(st, TEN); a, b = z3.Ints("b c")
        return Pass.inv(self, e, st) + [("the buffers of a set up node hold the tensors its layer made", z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < self.n, V[a], 0 <= b, b < OUTS(a)), X[OB(a) + b] == MADE(a, b)), patterns=[MADE(a, b)]))]
    def recursive(self, e, st, n, oid, av):
        old = e.arr(st, TEN); e.set_arr(st, TEN, fresh("ten", old.sort())) if False else None
        p = av[0]; e.deref(st, p, None, n); a = e.soa[p.target][1]
        e.obl(st, z3.And(0 <= a, a < self.n), "%s: the node is one of the network" % e.fname, "precondition", n); e.obl(st, RANK(a) < RANK(self.me), "%s: recursion descends" % e.fname, "termination", n)
        for nm, f in self.inv(e, st): e.obl(st, f, "%s: before a call: %s" % (e.fname, nm), "precondition", n)
        V0, R0, X0 = self.V(e, st), self.R(e, st), e.arr(st, TEN)
        for buf in (self.bufs[self.flag], RUNS, TEN): e.set_arr(st, buf, fresh("visit", e.arr(st, buf).sort()))
        for nm, f in self.inv(e, st): st.assume(f)
        st.assume(z3.And(self.V(e, st)[a], self.mono(e, st, V0), self.frame(e, st, V0, R0, a))); return OPAQUE
    def inputs(self, e, st, n, a, v, what):
        s, A = self.vec(e, st, v); c = z3.Int("c"); e.obl(st, z3.And(s == NIN(a), z3.ForAll([c], z3.Implies(z3.And(0 <= c, c < NIN(a)), A[c] == MADE(IN(a, c), INBUF(a, c))), patterns=[INBUF(a, c)])), "%s: %s gets the outputs the connections name, in order" % (e.fname, what), "postcondition", n)
    def create(self, e, st, n, oid, av):
        a = e.soa[oid][1]; self.inputs(e, st, n, a, av[0], "the layer"); o = av[1].oid; s = fresh("made", I); st.assume(s >= 0); b = ("vec", o); k = z3.Int("k")
        e.newbuf(b, T("int", 64, True), s); e.ptrvec[o] = TENSOR; e.wr(st, ("f", o, "$size"), s); A = fresh("outputs", e.arr(st, b).sort()); st.assume(z3.ForAll([k], A[k] == MADE(a, k), patterns=[A[k]])); e.wr(st, ("b", b), A); self.made = A
        return OKO(a)
    def given(self, e, st, n, a, av):
        self.inputs(e, st, n, a, av[0], "Connect"); s, A = self.vec(e, st, av[1]); k = z3.Int("k"); e.obl(st, z3.And(s == OUTS(a), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < s), A[k] == MADE(a, k)))), "%s: Connect gets the tensors the layer made" % e.fname, "postcondition", n)
        return OKC(a)
    def loop_inv(self, e, L, st):
        a = self.me; k = z3.Int("k"); c = ctr(e, st, L)
        if RUNS in L.writes:
            out = Visit.loop_inv(self, e, L, st)
            for v in e.ptrvec:
                if v[0] == "loc" and ("b", ("vec", v)) in L.scal or (v[0] == "loc" and ("vec", v) in L.writes):
                    A = e.arr(st, ("vec", v)); out.append(("inputs so far", z3.And(e.rd(st, ("f", v, "$size"), U64) == c, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < c), A[k] == MADE(IN(a, k), INBUF(a, k)))))))
            return out
        if TEN in L.writes:
            X, X0 = e.arr(st, TEN), e.arr(L.entry, TEN); b = OB(a); f = X[k] == z3.If(z3.And(b <= k, k < b + c), MADE(a, k - b), X0[k]); return [("buffers so far", z3.ForAll([k], f, **({"patterns": [X[k]]} if z3.is_const(X) else {})))]
        return []
class InitWeights(Deep, Visit):
    assumptions = Net.assumptions[:1] + ("a layer's OnLayerConnect changes nothing in the network",)
    def __init__(self): self.fwd = True; self.flag, self.order, self.name, self.qual = "flag_bp_visited", (DST, NOUT), "InitializeWeights", CLS + "::InitializeWeights"
    def handlers(self): return {self.qual: self.recursive, "Conv::Layer::OnLayerConnect": self.run}
    def given(self, e, st, n, a, av):
        s, A = self.vec(e, st, av[0]); c = z3.Int("c"); e.obl(st, z3.And(s == NOUT(a), z3.ForAll([c], z3.Implies(z3.And(0 <= c, c < NOUT(a)), A[c] == DST(a, c)))), "%s: the layer is told the layers behind it" % e.fname, "postcondition", n); return OPAQUE
    def loop_inv(self, e, L, st):
        out = Visit.loop_inv(self, e, L, st); c = ctr(e, st, L); k = z3.Int("k")
        for v in e.ptrvec:
            if v[0] == "loc": A = e.arr(st, ("vec", v)); out.append(("layers so far", z3.And(e.rd(st, ("f", v, "$size"), U64) == c, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < c), A[k] == DST(self.me, k))))))
        return out
class AllWeights(Deep, All):
    def __init__(self): self.fwd = True; self.flag, self.order, self.name, self.qual = "flag_bp_visited", (DST, NOUT), "InitializeWeights", CLS + "::InitializeWeights"
    def handlers(self): return {self.qual: self.recursive}
    def loop_inv(self, e, L, st):
        if RUNS in L.writes or self.bufs[self.flag] not in L.writes or any(RUNS == b for b in L.writes): return All.loop_inv(self, e, L, st)
        return All.loop_inv(self, e, L, st)

# ---- registration and completeness
def h_index(e, st, n, bv, args): return IV(0)
def h_size(e, st, n, bv, args): return e.rd(st, ("f", bv.oid, "$size"), U64)
class Reg(Net):
    closed = False
    assumptions = ("a graph's registered nodes are not null and have layers (AddNode refuses others)",)
    def world(self, e, st):
        Net.world(self, e, st); b = ("vec", NV); e.newbuf(b, T("int", 64, True), self.n); e.ptrvec[NV] = NODE; self.N0 = e.arr(st, b); self.vecs = {}
    def handlers(self):
        it = lambda eq: (lambda e, st, n, o, a: (lambda x, y: x == y if eq else x != y)(e.rv(a[0], st), e.rv(a[1], st)))
        return {"method:begin": h_index, "method:end": h_size, "std::find": self.find, "std::operator!=": it(False), "std::operator==": it(True), "method:length": self.length, "method:push_back": self.push, "std::operator=": self.assign, "dynamic_cast": self.dyn, "method:size": lambda e, st, n, bv, a: self.length(e, st, n, bv, a) if isinstance(bv, StructV) and bv.oid[0] == "fld" and bv.oid[2] == "unique_name" else NotImplemented,
                "method:empty": lambda e, st, n, bv, a: self.length(e, st, n, bv, a) == 0 if isinstance(bv, StructV) and bv.oid[0] == "fld" and bv.oid[2] == "unique_name" else NotImplemented}
    def find(self, e, st, n, o, args):
        lo, hi, p = [e.rv(a, st) for a in args]; a = e.soa[p.target][1]; A = e.arr(st, ("vec", NV)); r = fresh("found", I); k = z3.Int("k")
        e.obl(st, z3.And(lo == 0, hi == e.rd(st, ("f", NV, "$size"), U64)), "%s: the whole list is searched" % e.fname, "precondition", n)
        st.assume(z3.And(lo <= r, r <= hi, z3.Implies(r < hi, A[r] == a), z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < r), A[k] != a), patterns=[A[k]]))); return r
    def length(self, e, st, n, bv, args):
        v = e.rd(st, ("f", bv.oid, "$length"), U64); return v
    def push(self, e, st, n, bv, args): return NotImplemented
    def assign(self, e, st, n, o, args):
        d = e.ev(args[0], st)
        if isinstance(d, StructV) and d.oid[0] == "fld" and d.oid[2] == "unique_name":
            v = fresh("name", I); st.assume(v > 0); e.wr(st, ("f", d.oid, "$length"), v); return d
        return e.struct_assign(n, st, args)
    def dyn(self, e, st, n, v, t): return v

KINDS = ("StatLayer", "LossFunctionLayer", "TrainingLayer")
ISA = {k: z3.Function("is_" + k, I, B) for k in KINDS}
LOG = [("ghost", x) for x in ("record_at", "record_node", "record_buffer")]; LOGN = ("f", THIS, "$records")
CNT = z3.Function("gradient_connections_before", I, I); BPV = ("ghost", "backprop_flags")

class Add(Reg):
    qual = CLS + "::AddNode"
    LISTS = {"nodes_": lambda s, e, a: TRUE, "input_nodes_": lambda s, e, a: s.F["is_input"][a], "output_nodes_": lambda s, e, a: s.F["is_output"][a],
             "stat_nodes_": lambda s, e, a: ISA["StatLayer"](a), "loss_nodes_": lambda s, e, a: ISA["LossFunctionLayer"](a), "training_nodes_": lambda s, e, a: ISA["TrainingLayer"](a)}
    def pre(self, e, st):
        self.lnull = z3.Bool("layer_is_null"); self.pnull = z3.Bool("node_is_null"); self.world(e, st); a = self.a = z3.Int("a_node"); st.assume(a >= 0)
        p = e.heapptr(NODE, a); fix_param(e, st, list(e.param)[0], PtrV("obj", p.target, IV(0), self.pnull)); self.F = {f: e.init[("b", b)] for f, b in self.bufs.items()}
        self.len0 = {}; self.arr0 = {}
        for v in self.LISTS:
            o = ("fld", THIS, v); s = self.len0[v] = e.rd(st, ("f", o, "$size"), U64); st.assume(s < 2 ** 31)
            if ("b", ("vec", o)) not in e.init: e.newbuf(("vec", o), T("int", 64, True), s); e.ptrvec[o] = NODE
            self.arr0[v] = e.init[("b", ("vec", o))]
        for b in LOG: e.newbuf(b, T("int", 64, True), IV(2 ** 62))
        self.l0 = e.rd(st, LOGN, U64); e.axioms.append(CNT(0) == 0); self.name0 = e.rd(st, ("f", ("fld", p.target, "unique_name"), "$length"), U64); self.p = p
        self.uid0 = fld(e, st, "last_uid", I32); self.log0 = [e.init[("b", b)] for b in LOG]; j, k = z3.Ints("j k")
        st.assume(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < self.n), self.N0[j] != self.N0[k]), patterns=[z3.MultiPattern(self.N0[j], self.N0[k])]))
    def layer_null(self, e, o): return self.lnull if e.soa[o][1].eq(z3.Int("a_node")) else FALSE
    def sends(self, c): a = self.a; return z3.And(INBP(a, c), z3.Not(INNULL(a, c)), z3.Not(self.F["is_input"][IN(a, c)]))
    def node_facts(self, e, o, a):
        Net.node_facts(self, e, o, a)
        if a.eq(z3.Int("a_node")):
            v = ("fld", o, "input_connections"); e.newbuf(BPV, BL, NIN(a)); e.soavec[v] = {"backprop": BPV}; k = z3.Int("k"); A = self.B0 = e.init[("b", BPV)]; e.axioms.append(z3.ForAll([k], A[k] == INBP(a, k), patterns=[A[k]]))
    def connection(self, e, a, c, q):
        if a.eq(z3.Int("a_node")): e.axioms.append(z3.Implies(c >= 0, CNT(c + 1) == CNT(c) + z3.If(self.sends(c), 1, 0)))
    def dyn(self, e, st, n, v, t):
        k = t.el.name.split("::")[-1]
        if k not in ISA: raise ExtractionError("type test " + k)
        return PtrV("obj", v.target, v.off, z3.Or(v.null, z3.Not(ISA[k](e.soa[v.target][1]))))
    def push(self, e, st, n, bv, args):
        if not (isinstance(bv, StructV) and bv.oid[0] == "fld" and bv.oid[2] == "backprop_connections"): return NotImplemented
        x = e.rv(args[0], st); to = e.soa[bv.oid[1]][1]; nd = e.rd(st, ("f", x.oid, "node")); l = e.rd(st, LOGN, U64)
        for b, v in zip(LOG, (to, e.soa[nd.target][1], e.rd(st, ("f", x.oid, "buffer"), U32))): e.wr_arr(st, b, l, v)
        e.obl(st, z3.Not(nd.null), "%s: the recorded node exists" % e.fname, "postcondition", n); e.wr(st, LOGN, z3.simplify(l + 1)); return OPAQUE
    def recorded(self, e, st, c):
        a = self.a; k = z3.Int("k"); x, y, z = [e.arr(st, b) for b in LOG]; B_ = e.arr(st, BPV); at = self.l0 + CNT(k); inr = z3.And(0 <= k, k < c)
        def fa(f, *p): p = [q for q in p if all(z3.is_const(q.arg(0)) for _ in (0,))]; return z3.ForAll([k], f, **({"patterns": p} if p else {}))
        keep = lambda A, A0: z3.ForAll([k], z3.Implies(k < self.l0, A[k] == A0[k]), **({"patterns": [A[k]]} if z3.is_const(A) else {}))
        return [("number of records", e.rd(st, LOGN, U64) == self.l0 + CNT(c)), ("count", z3.ForAll([k], z3.Implies(inr, z3.And(CNT(k) >= 0, CNT(k) + z3.If(self.sends(k), 1, 0) <= CNT(c))), patterns=[CNT(k)])), ("count not negative", CNT(c) >= 0),
                ("each connection that sends gradients is recorded at its source", z3.ForAll([k], z3.Implies(z3.And(inr, self.sends(k)), z3.And(x[at] == IN(a, k), y[at] == a, z[at] == INBUF(a, k))), patterns=[CNT(k)])), ("earlier records stay", z3.And([keep(A, A0) for A, A0 in zip((x, y, z), self.log0)])),
                ("gradients never flow into input nodes", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < NIN(a)), B_[k] == z3.If(k < c, z3.And(INBP(a, k), z3.Or(INNULL(a, k), z3.Not(self.F["is_input"][IN(a, k)]))), INBP(a, k))), **({"patterns": [B_[k]]} if z3.is_const(B_) else {})))]
    def loop_inv(self, e, L, st): return self.recorded(e, st, ctr(e, st, L))
    def post(self, e, st, ret, kind):
        a = self.a; n, N0 = self.n, self.N0; k = z3.Int("k"); present = z3.Exists([k], z3.And(0 <= k, k < n, N0[k] == a))
        n1 = e.rd(st, ("f", NV, "$size"), U64); post(e, st, z3.And(z3.Not(self.pnull), z3.Not(self.lnull)), "null nodes and nodes without layer are refused")
        post(e, st, z3.Implies(n1 == n, present), "a node that is not registered is added"); post(e, st, z3.Implies(n1 != n, z3.Not(present)), "a registered node is not added again")
        new = n1 != n
        for v, cond in self.LISTS.items():
            o = ("fld", THIS, v); s0, s1 = self.len0[v], e.rd(st, ("f", o, "$size"), U64); A, A0 = e.arr(st, ("vec", o)), self.arr0[v]; c = z3.And(new, cond(self, e, a))
            post(e, st, z3.And(s1 == s0 + z3.If(c, 1, 0), z3.Implies(c, A[s0] == a), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < s0), A[k] == A0[k]))), "%s: the node is appended exactly if it belongs there" % v)
        for nm, f in self.recorded(e, st, NIN(a)):
            if nm not in ("count", "count not negative"): post(e, st, z3.Implies(new, f), nm)
        post(e, st, z3.Implies(z3.Not(new), z3.And(e.rd(st, LOGN, U64) == self.l0, e.arr(st, BPV) == self.B0)), "adding a node again changes no connection")
        l1 = e.rd(st, ("f", ("fld", self.p.target, "unique_name"), "$length"), U64); post(e, st, z3.Implies(new, l1 > 0), "the node has a name")
        post(e, st, fld(e, st, "last_uid", I32) == self.uid0 + z3.If(z3.And(new, self.name0 == 0), 1, 0), "a new number for every name made")

MEMBER, WIT = z3.Function("in_network", I, B), z3.Function("position_of", I, I)
GOODC, GOOD = f2("connections_good", B), z3.Function("nodes_good", I, B)
CIN, COUT = z3.Function("inputs_before", I, I), z3.Function("outputs_before", I, I); NAMELEN = z3.Function("name_length", I, I)

class Complete(Reg):
    qual = CLS + "::IsComplete"
    def node_facts(self, e, o, a):
        Net.node_facts(self, e, o, a); e.init[("f", ("fld", o, "unique_name"), "$length")] = NAMELEN(a); e.axioms += [NAMELEN(a) >= 0, GOODC(a, 0)]
        x = z3.And(0 <= WIT(a), WIT(a) < self.n, self.N0_(e)[WIT(a)] == a); e.axioms.append(z3.Implies(MEMBER(a), x))
    def N0_(self, e): return e.init[("b", ("vec", NV))]
    def connection(self, e, a, c, q):
        b = IN(a, c); ok = z3.And(z3.Not(INNULL(a, c)), MEMBER(b), INBUF(a, c) < OUTS(b)); e.init[("f", q, "backprop")] = INBP(a, c)
        e.axioms.append(z3.Implies(c >= 0, GOODC(a, c + 1) == z3.And(GOODC(a, c), ok)))
    def pre(self, e, st):
        self.world(e, st); F = self.F = {f: e.init[("b", b)] for f, b in self.bufs.items()}; N0 = self.N0; k = z3.Int("k")
        e.axioms += [GOOD(0), CIN(0) == 0, COUT(0) == 0, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.n), MEMBER(N0[k])), patterns=[N0[k]])]
        a = N0[k]; fine = z3.And(GOODC(a, NIN(a)), NAMELEN(a) > 0, z3.Not(z3.And(F["is_input"][a], F["is_output"][a])))
        self.step = lambda l: z3.substitute(z3.And(GOOD(k + 1) == z3.And(GOOD(k), fine), CIN(k + 1) == CIN(k) + z3.If(F["is_input"][a], 1, 0), COUT(k + 1) == COUT(k) + z3.If(F["is_output"][a], 1, 0), CIN(k) >= 0, COUT(k) >= 0), (k, l))
    def hints(self, e, L, st): return [self.step(ctr(e, st, chain(L)[0]))]
    def tells(self, L, key, field):
        """the local changed where the code asks for the field"""
        hit = lambda n, f: any(f(x) for x in walk(n))
        for x in walk(L.node):
            if x["kind"] == "IfStmt":
                cond, then = [c for c in x["inner"] if c][:2]; mem = {y.get("name") for y in walk(cond) if y["kind"] == "MemberExpr"}
                if field in mem and not ({"is_input", "is_output"} - {field}) & mem and hit(then, lambda y: y["kind"] == "DeclRefExpr" and (y.get("referencedDecl") or {}).get("id") == key[2]): return True
        return False
    def loop_inv(self, e, L, st):
        ch = chain(L); l = ctr(e, st, ch[0]); cs = {c[0] for c in L.counters}
        if len(ch) > 1:
            bs = e.accs(L, st, B); a = e.arr(st, ("vec", NV))[l]; e0 = [L.scal[k][0] for k in L.scal if is_bool(L.scal[k][0])]
            return [("connections so far", bs[0] == z3.And(e0[0], GOODC(a, ctr(e, st, L))))] if len(bs) == 1 else []
        out = [("count", z3.And(CIN(l) >= 0, COUT(l) >= 0))]; bs = e.accs(L, st, B)
        if len(bs) == 1: out.append(("nodes so far", bs[0] == GOOD(l)))
        for k, (o, nv) in L.scal.items():
            if k in cs or not is_int(nv): continue
            for f, C in (("is_input", CIN), ("is_output", COUT)):
                if self.tells(L, k, f): out.append(("counted so far", e.rd(st, k) == C(l)))
        return out
    def post(self, e, st, ret, kind): post(e, st, e.to_bool(ret) == z3.And(GOOD(self.n), CIN(self.n) > 0, COUT(self.n) > 0), "complete exactly if every node is good, and there is an input and an output")

def FNS(): return [Visit(True), Visit(False), All(True), All(False), Add(), Complete(), InitNode(), InitWeights(), AllWeights()]
def LEMMAS(): return []
