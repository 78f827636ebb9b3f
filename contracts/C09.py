"""C09: SMS, DOWN, UP, ADD."""
from lib import *
SOURCES = ["src/math/TensorMath.cpp"] + TSRC

def dims_pos(t): return z3.And(t.w > 0, t.h > 0, t.M > 0, t.S > 0)

class Sms(Fn):
    qual = "Conv::TensorMath::SMS"; nparams = 2
    def pre(self, e, st):
        s = self.s = param_tensor(e, st, "source", nonempty=True); t = self.t = param_tensor(e, st, "target", nonempty=True)
        st.assume(z3.And(dims_pos(s), dims_pos(t), s.w == t.w, s.h == t.h, s.M == t.S, s.S == t.M))
        for x in (s, t): block_axioms(e, x.shape)
        sh, ss = t.shape, s.shape; A = A0(e, s)
        e.cells[t.buf] = NestCells(e, t.buf, inN(t), lambda i, q: e.arr(q, t.buf)[i] == A[ss.off(sh.ux(i), sh.uy(i), sh.us(i), sh.um(i))], [sh.us, sh.um], "target", exts=[t.S, t.M])
    def post(self, e, st, ret, kind):
        post(e, st, e.cells[self.t.buf].post(st), "element (x,y,m,s) moved to (x,y,s,m)")
        post(e, st, unchanged(e, st, self.s), "source unchanged")

class Down(Fn):
    qual = "Conv::TensorMath::DOWN"; nparams = 5
    def pre(self, e, st):
        p = e.param; s = self.s = param_tensor(e, st, "source", nonempty=True); t = self.t = param_tensor(e, st, "target", nonempty=True)
        rw, rh = p["region_width"], p["region_height"]
        st.assume(z3.And(dims_pos(s), dims_pos(t), rw > 0, rh > 0, s.w >= rw * t.w, s.h >= rh * t.h, s.M == t.M, s.S == t.S))
        sh, ss = t.shape, s.shape; A = A0(e, s)
        self.row, self.sum = down_sums(e, s, rw, rh)
        e.cells[t.buf] = NestCells(e, t.buf, inN(t), lambda i, q: e.arr(q, t.buf)[i] == self.sum(sh.ux(i), sh.uy(i), sh.um(i), sh.us(i), rh) * p["target_factor"],
                                   [sh.us, sh.um, sh.uy, sh.ux], "target", exts=[t.S, t.M, t.h, t.w])
    def hints(self, e, L, st):
        p = e.param; ch = chain(L); out = [tick(ctr(e, st, L))]; t = self.t
        if len(ch) >= 4:
            n, m, y, x = e.cells[t.buf].ctrs(st, ch[:4])
            out += [mono(x + 1, t.w, p["region_width"]), mono(y + 1, t.h, p["region_height"]), mono(IV(0), x, p["region_width"]), mono(IV(0), y, p["region_height"])]
        return out
    def loop_inv(self, e, L, st):
        ch = chain(L)
        if len(ch) < 5: return []
        a = e.accs(L, st, R)
        if len(a) != 1: raise ExtractionError("accumulator not recognised")
        n, m, y, x, ry = e.cells[self.t.buf].ctrs(st, ch[:5])
        v = self.sum(x, y, m, n, ry)
        if len(ch) == 6: v = v + self.row(x, y, m, n, ry, ctr(e, st, ch[5]))
        return [("partial region sum", a[0] == v)]
    def post(self, e, st, ret, kind):
        post(e, st, e.cells[self.t.buf].post(st), "each target element is its region's sum times the factor")
        post(e, st, unchanged(e, st, self.s), "source unchanged")

class Up(Fn):
    qual = "Conv::TensorMath::UP"; nparams = 5
    def pre(self, e, st):
        p = e.param; s = self.s = param_tensor(e, st, "source", nonempty=True); t = self.t = param_tensor(e, st, "target", nonempty=True)
        rw, rh = p["region_width"], p["region_height"]; self.rw, self.rh = rw, rh
        st.assume(z3.And(dims_pos(s), dims_pos(t), rw > 0, rh > 0, t.w >= rw * s.w, t.h >= rh * s.h, s.M == t.M, s.S == t.S))
        sh, ss = t.shape, s.shape; A = A0(e, s)
        self.X = Split(e, "x", sh, sh.ux, rw); self.Y = Split(e, "y", sh, sh.uy, rh); X, Y = self.X, self.Y
        D = lambda i: z3.And(0 <= i, i < t.N, X.Q(i) < s.w, Y.Q(i) < s.h)
        e.cells[t.buf] = NestCells(e, t.buf, D, lambda i, q: e.arr(q, t.buf)[i] == A[ss.off(X.Q(i), Y.Q(i), sh.um(i), sh.us(i))] * p["target_factor"],
                                   [sh.us, sh.um, Y.Q, X.Q, Y.M, X.M], "target", exts=[s.S, s.M, s.h, s.w, rh, rw])
    def hints(self, e, L, st):
        ch = chain(L); out = []; s, t = self.s, self.t
        if len(ch) == 6:
            n, m, y, x, ry, rx = e.cells[t.buf].ctrs(st, ch)
            a, b = self.rw * x + rx, self.rh * y + ry
            c = t.shape.off(a, b, m, n)
            out += [mono(x + 1, s.w, self.rw), mono(y + 1, s.h, self.rh), mono(IV(0), x, self.rw), mono(IV(0), y, self.rh),
                    self.X.inst(c, x, rx), self.Y.inst(c, y, ry)]
        return out
    def post(self, e, st, ret, kind):
        post(e, st, e.cells[self.t.buf].post(st), "every element of a target region is the source element times the factor; nothing outside the described range is written")
        post(e, st, unchanged(e, st, self.s), "source unchanged")

class Add(Fn):
    qual = "Conv::TensorMath::ADD"; nparams = 3
    def pre(self, e, st):
        a = self.a = param_tensor(e, st, "source_a", nonempty=True); b = self.b = param_tensor(e, st, "source_b", nonempty=True); t = self.t = param_tensor(e, st, "target", nonempty=True)
        x, y = A0(e, a), A0(e, b)
        e.cells[t.buf] = Cells(e, t.buf, t.shape, inN(t), lambda i, q: e.arr(q, t.buf)[i] == x[i] + y[i], "target", flat=True)
    def post(self, e, st, ret, kind):
        post(e, st, e.cells[self.t.buf].post(st), "every element is the sum")
        for x in (self.a, self.b): post(e, st, unchanged(e, st, x), "sources unchanged")

def FNS(): return [Sms(), Down(), Up(), Add()]
def LEMMAS(): return layout_lemmas() + block_lemmas() + split_lemmas()
