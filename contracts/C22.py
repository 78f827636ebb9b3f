"""C22: saving, loading and listing the parameters of a network: parameter set k (k-th in node order) is record k of the file."""
from lib import *
SOURCES = ["src/net/NetGraph.cpp"] + TSRC
CLS = "Conv::NetGraph"; THIS = "this"; CTN = "Conv::CombinedTensor"
NP, PB = [z3.Function(n, I, I) for n in ("sets_of_node", "first_set_of_node")]
DONE = ("f", THIS, "$records")

class Walkp(Fn):
    assumptions = ("every node has a layer and every parameter set exists; they are different objects", "Tensor::Serialize / Deserialize write and read one record (C05); the stream holds the records that are read")
    def handlers(self):
        ok = lambda v: (lambda e, st, n, bv, a: v)
        return {"Conv::Tensor::Serialize": self.record, "Conv::Tensor::Deserialize": self.record, "method:good": ok(TRUE), "method:eof": ok(FALSE), "method:peek": ok(OPAQUE)}
    def pre(self, e, st):
        self.nn, self.P = z3.Ints("nodes sets"); st.assume(z3.And(1 <= self.nn, self.nn < 2 ** 31, self.P >= 0, self.P < 2 ** 31))
        l, m = z3.Ints("l m"); e.axioms += [PB(0) == 0, PB(self.nn) == self.P, z3.ForAll([l, m], z3.Implies(z3.And(0 <= l, l <= m, m <= self.nn), PB(l) <= PB(m)), patterns=[z3.MultiPattern(PB(l), PB(m))])]
        e.heap_class(st, CTN, {}); al = e.arr(st, ("alive", CTN)); st.assume(z3.ForAll([l], al[l] == 1, patterns=[al[l]]))
        nodes = ("fld", THIS, "nodes_"); e.init[("f", nodes, "$size")] = self.nn
        def fam_node(e_, s_, l, o):
            e.init[o[1]] = PtrV("obj", o, IV(0), FALSE); lo = ("layer", o); e.init[("f", o, "layer")] = PtrV("obj", lo, IV(0), FALSE)
            e.axioms.append(z3.Implies(z3.And(0 <= l, l < self.nn), z3.And(PB(l) >= 0, NP(l) >= 0, PB(l + 1) == PB(l) + NP(l), PB(l + 1) <= self.P)))
            pv = ("fld", lo, "parameters_"); e.init[("f", pv, "$size")] = NP(l)
            def fam_par(e2, s2, p, q): e.init[q[1]] = e.heapptr(CTN, PB(l) + p)
            e.families[pv] = fam_par
        e.families[nodes] = fam_node
        e.wr(st, DONE, IV(0)); e.init[DONE] = IV(0); self.setup(e, st)
    def setup(self, e, st): pass
    def record(self, e, st, n, oid, av):
        k = e.soa[oid[1]][1]; c = e.rd(st, DONE, U64)
        if not (isinstance(av[0], StructV) and av[0].oid == ("param", list(e.param)[0])): raise ExtractionError("record on another stream")
        if not (oid[0] == "fld" and oid[2] == "data"): e.obl(st, FALSE, "%s: the parameter values are transferred" % e.fname, "postcondition", n)
        for a in av[1:]:
            if a is not None and is_bool(a): e.obl(st, z3.Not(a), "%s: whole native records are transferred" % e.fname, "postcondition", n)
        e.obl(st, c == k, "%s: record number c is parameter set c" % e.fname, "postcondition", n)
        e.wr(st, DONE, c + 1); return OPAQUE
    def loop_inv(self, e, L, st):
        ch = chain(L); c = [ctr(e, st, l) for l in ch]; at = PB(c[0]) + (c[1] if len(c) > 1 else 0)
        return [("records so far", e.rd(st, DONE, U64) == at)] + self.more(e, L, st, at) + [("position in range", z3.And(0 <= PB(c[0]), c[0] <= self.nn, at <= self.P))]
    def more(self, e, L, st, at): return []

class Save(Walkp):
    qual = CLS + "::SerializeParameters"
    def post(self, e, st, ret, kind): post(e, st, e.rd(st, DONE, U64) == self.P, "every parameter set is saved")

class Load(Walkp):
    qual = CLS + "::DeserializeParameters"
    def setup(self, e, st): self.last = list(e.param.values())[1]
    def post(self, e, st, ret, kind):
        last = z3.If(z3.Or(self.last == 0, self.last >= self.nn), self.nn - 1, self.last)
        post(e, st, e.rd(st, DONE, U64) == PB(last + 1), "exactly the parameters up to the given layer are loaded")

class Params(Walkp):
    qual = CLS + "::GetParameters"
    def setup(self, e, st):
        v = self.v = ("param", list(e.param)[0]); self.s0 = vec_size(e, st, v); b = ("vec", v); e.newbuf(b, T("int", 64, True), self.s0); e.ptrvec[v] = CTN; st.assume(self.s0 < 2 ** 31)
        self.A0 = e.init[("b", b)]
    def upto(self, e, st, at):
        k = z3.Int("k"); A = e.arr(st, ("vec", self.v)); b = A[k] == z3.If(z3.And(self.s0 <= k, k < self.s0 + at), k - self.s0, self.A0[k])
        return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.s0 + at), b))
    def loop_inv(self, e, L, st):
        ch = chain(L); c = [ctr(e, st, l) for l in ch]; at = PB(c[0]) + (c[1] if len(c) > 1 else 0)
        return [("listed so far", z3.And(vec_size(e, st, self.v) == self.s0 + at, self.upto(e, st, at))), ("position in range", z3.And(0 <= PB(c[0]), c[0] <= self.nn, at <= self.P))]
    def post(self, e, st, ret, kind):
        post(e, st, vec_size(e, st, self.v) == self.s0 + self.P, "one entry per parameter set"); post(e, st, self.upto(e, st, self.P), "the parameter sets in order, behind what the list held")

def FNS(): return [Save(), Load(), Params()]
def LEMMAS():
    f, g, k, n = z3.Function("saved_set_of_record", I, I), z3.Function("loaded_set_of_record", I, I), z3.Int("k"), z3.Int("n")
    q = z3.Int("q"); r = lambda f: z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), f(q) == q))
    return [("round trip: the record a set is loaded from is the one it was saved to", [r(f), r(g), 0 <= k, k < n], f(k) == g(k))]
