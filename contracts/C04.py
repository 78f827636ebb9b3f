"""C04: Maximum / PixelMaximum / AbsMaximum."""
from lib import *
SOURCES = TSRC

def first_max(get, lo, n, r, val=None):
    """r is the first index in [0,n) whose value no other exceeds"""
    k = z3.Int("k")
    return z3.And(0 <= r, r < n, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), get(k) <= get(r))), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < r), get(k) < get(r))))

def scan_inv(get, cnt, mx, idx, floor):
    k = z3.Int("k")
    return [("largest so far", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < cnt), get(k) <= mx))),
            ("first position so far", z3.And(mx >= floor, z3.Or(z3.And(idx == 0, mx == floor),
                z3.And(0 <= idx, idx < cnt, get(idx) == mx, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < idx), get(k) < mx))))))]

class Maximum(Fn):
    qual = "Conv::Tensor::Maximum"; nparams = 1; poly = True
    assumptions = ("every element is >= numeric_limits<datum>::lowest() (finite values)",)
    def pre(self, e, st):
        t = self.t = wf_tensor(e, st, "this", nonempty=True); s = e.param["sample"]
        V = self.V = t.w * t.h * t.M
        st.assume(z3.And(s < t.S, t.N == t.S * V, V > 0, mono(s + 1, t.S, V), mono(0, s, V)))
        finite_above(e, st, t)
        b = self.b = z3.Int("sample_base"); st.assume(b == s * V)    # name for the start of the sample
    def loop_inv(self, e, L, st):
        mx = e.accs(L, st, R); ix = e.accs(L, st, I)
        if len(mx) != 1 or len(ix) != 1: raise ExtractionError("running maximum not recognised")
        mx, idx = mx[0], ix[0]; cnt = e.cval(st, L.counter); b, a = self.b, self.t.a; j = z3.Int("j")
        return [("largest so far", z3.ForAll([j], z3.Implies(z3.And(b <= j, j < b + cnt), a[j] <= mx), patterns=[a[j]])),
                ("first position so far", z3.And(mx >= LOWEST, z3.Or(z3.And(idx == 0, mx == LOWEST),
                    z3.And(0 <= idx, idx < cnt, a[b + idx] == mx, z3.ForAll([j], z3.Implies(z3.And(b <= j, j < b + idx), a[j] < mx), patterns=[a[j]])))))]
    def post(self, e, st, ret, kind):
        b, a = self.b, self.t.a; j = z3.Int("j")
        post(e, st, z3.And(0 <= ret, ret < self.V, z3.ForAll([j], z3.Implies(z3.And(b <= j, j < b + self.V), a[j] <= a[b + ret])),
                           z3.ForAll([j], z3.Implies(z3.And(b <= j, j < b + ret), a[j] < a[b + ret]))), "position of the sample's first largest element")
        post(e, st, unchanged(e, st, self.t), "tensor unchanged")

class AbsMaximum(Fn):
    qual = "Conv::Tensor::AbsMaximum"; nparams = 0
    def pre(self, e, st):
        t = self.t = wf_tensor(e, st, "this", nonempty=True)
        self.get = lambda k: z3.If(t.a[k] >= 0, t.a[k], -t.a[k])
    def loop_inv(self, e, L, st):
        mx = e.accs(L, st, R); ix = e.accs(L, st, I)
        if len(mx) != 1 or len(ix) != 1: raise ExtractionError("running maximum not recognised")
        return scan_inv(self.get, e.cval(st, L.counter), mx[0], ix[0], z3.RealVal(0))
    def post(self, e, st, ret, kind):
        post(e, st, first_max(self.get, 0, self.t.N, ret), "position of the first element of largest magnitude")
        post(e, st, unchanged(e, st, self.t), "tensor unchanged")

class PixelMaximum(Fn):
    qual = "Conv::Tensor::PixelMaximum"; nparams = 3
    assumptions = ("every element is >= numeric_limits<datum>::lowest() (finite values)",)
    def pre(self, e, st):
        t = self.t = wf_tensor(e, st, "this", nonempty=True); p = e.param
        st.assume(z3.And(p["x"] < t.w, p["y"] < t.h, p["sample"] < t.S, t.M > 0))
        finite_above(e, st, t)
        self.get = lambda k: t.a[t.shape.off(p["x"], p["y"], k, p["sample"])]
    def loop_inv(self, e, L, st):
        mx = e.accs(L, st, R); ix = e.accs(L, st, I)
        if len(mx) != 1 or len(ix) != 1: raise ExtractionError("running maximum not recognised")
        return scan_inv(self.get, e.cval(st, L.counter), mx[0], ix[0], LOWEST)
    def post(self, e, st, ret, kind):
        post(e, st, first_max(self.get, 0, self.t.M, ret), "first map with the pixel's largest value")
        post(e, st, unchanged(e, st, self.t), "tensor unchanged")

def FNS(): return [Maximum(), AbsMaximum(), PixelMaximum()]
def LEMMAS(): return mul_lemmas()
