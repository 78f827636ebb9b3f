"""C03: CopyMap and CopySample."""
from lib import *
SOURCES = TSRC

def sized(t): return z3.And(t.N > 0, t.w > 0, t.h > 0, t.M > 0, t.S > 0)

def map_ok(s, t, ss, ts): return z3.And(ss < s.S, ts < t.S, t.w >= s.w, t.h >= s.h)

class CopyMap(Fn):
    qual = "Conv::Tensor::CopyMap"; nparams = 6
    def pre(self, e, st):
        p = e.param
        s = self.s = param_tensor(e, st, "source"); t = self.t = param_tensor(e, st, "target")
        st.assume(sized(s)); st.assume(sized(t))
        sm, tm, ss, ts = p["source_map"], p["target_map"], p["source_sample"], p["target_sample"]
        st.assume(z3.And(sm < s.M, tm < t.M))
        for x in (s, t): block_axioms(e, x.shape)
        sh, ssh = t.shape, s.shape
        B = A0(e, s)
        e.cells[t.buf] = Cells(e, t.buf, sh, lambda i: z3.And(0 <= i, i < t.N, sh.um(i) == tm, sh.us(i) == ts),
            lambda i, q: e.arr(q, t.buf)[i] == z3.If(z3.And(sh.ux(i) < s.w, sh.uy(i) < s.h), B[ssh.off(sh.ux(i), sh.uy(i), sm, ss)], 0), "target")
    def post(self, e, st, ret, kind):
        p = e.param; s, t = self.s, self.t
        ok = map_ok(s, t, p["source_sample"], p["target_sample"])
        r = e.to_bool(ret)
        post(e, st, r == ok, "reports success exactly when the copy is possible")
        post(e, st, z3.Implies(z3.Not(r), unchanged(e, st, t)), "a refused copy changes nothing")
        st2 = st.fork(); st2.assume(r)
        post(e, st2, e.cells[t.buf].post(st2), "the map holds the source map, zero padded; every other element is unchanged")
        post(e, st, unchanged(e, st, s), "source unchanged")
        for f in ("width_", "height_", "maps_", "samples_", "elements_"):
            for x in (s, t): post(e, st, e.rd(st, ("f", x.oid, f), U64) == e.init[("f", x.oid, f)], "shapes unchanged")

class CopySample(Fn):
    qual = "Conv::Tensor::CopySample"; nparams = 4
    def handlers(self): return {"Conv::Tensor::CopyMap": h_copymap}
    def pre(self, e, st):
        p = e.param
        s = self.s = param_tensor(e, st, "source"); t = self.t = param_tensor(e, st, "target")
        st.assume(sized(s)); st.assume(sized(t))
        ss, ts = p["source_sample"], p["target_sample"]
        sh, ssh = t.shape, s.shape; B = A0(e, s)
        self.ok = z3.And(map_ok(s, t, ss, ts), s.M == t.M)
        e.cells[t.buf] = Cells(e, t.buf, sh, lambda i: z3.And(self.ok, 0 <= i, i < t.N, sh.us(i) == ts),
            lambda i, q: e.arr(q, t.buf)[i] == z3.If(z3.And(sh.ux(i) < s.w, sh.uy(i) < s.h), B[ssh.off(sh.ux(i), sh.uy(i), sh.um(i), ss)], 0), "target")
    def loop_inv(self, e, L, st):
        bs = e.accs(L, st, B)
        if len(bs) == 1: return [("result so far", bs[0] == z3.Or(L.cnt0 == e.cval(st, L.counter), self.ok))]
        if not bs and L.counters: return [("every map so far was copied", z3.Or(L.cnt0 == e.cval(st, L.counter), self.ok))]
        return []
    def post(self, e, st, ret, kind):
        s, t = self.s, self.t
        r = e.to_bool(ret)
        post(e, st, r == self.ok, "reports success exactly when the copy is possible")
        post(e, st, e.cells[t.buf].post(st), "the sample holds the source sample, zero padded; every other element is unchanged")
        post(e, st, unchanged(e, st, s), "source unchanged")

def FNS(): return [CopyMap(), CopySample()]
def LEMMAS(): return layout_lemmas() + block_lemmas()
