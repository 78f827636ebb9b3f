"""C23: DatasetInputLayer: order of the samples delivered and what a batch slot holds."""
from lib import *
SOURCES = ["src/net/DatasetInputLayer.cpp"] + TSRC
CLS = "Conv::DatasetInputLayer"; ARR = z3.ArraySort(I, I); ds = ("fld", "this", "dataset_"); PV = ("fld", "this", "perm_")
# contents of the samples of the data set: kind (data, label, helper, weight), test set?, number, position
CONT = z3.Function("sample", I, B, I, I, I, I, R)
PERM = z3.Function("order_of_pass", I, ARR)             # the order of pass p (ghost)
PASS, POS = z3.Function("pass", I, I), z3.Function("position", I, I)   # pass and position of the k-th sample from now on
SIG, SINV = z3.Function("shuffle", I, I, I, I), z3.Function("shuffle_inverse", I, I, I, I)   # generator state, length, position
SEED, NEXT = z3.Function("seeded", I, I), z3.Function("next_state", I, I, I)
FCN, PATCH = z3.Int("FCN"), z3.Int("PATCH")

class DL(Fn):
    assumptions = ("the data set answers its sizes consistently; Get*Sample fills slot `sample` of the four tensors from sample `index` and refuses exactly the indices outside the set (C24, C25)",)
    def enums(self, e):
        v = {}
        for t in e.prog.tus:
            for i, nd in t.byid.items():
                if nd.get("kind") == "EnumConstantDecl" and nd.get("name") in ("FCN", "PATCH"): v.setdefault(nd["name"], nd["id"]); 
            if len(v) == 2:
                old = getattr(e, "tu", None); e.tu = t
                try: return e.enumval(v["FCN"], "FCN"), e.enumval(v["PATCH"], "PATCH")
                finally: e.tu = old
        raise ExtractionError("enumeration Method")
    def dataset(self, e, st):
        f, p = self.enums(e); self.method = z3.Int("method"); self.fcn = self.method == f
        st.assume(z3.Or(self.method == f, self.method == p))
        self.dw, self.dh, self.tr, self.te = z3.Ints("ds_width ds_height ds_training ds_testing"); self.im, self.lm = z3.Ints("ds_input_maps ds_label_maps")
        st.assume(z3.And([z3.And(0 < x, x < 2 ** 24) for x in (self.dw, self.dh, self.im, self.lm)])); st.assume(z3.And(0 <= self.tr, self.tr < 2 ** 31, 0 <= self.te, self.te < 2 ** 31))
    def gen(self, e, st): return e.rd(st, ("f", "this", "$gen"), T("int", 64, True))
    def setgen(self, e, st, v): e.wr(st, ("f", "this", "$gen"), v)
    def handlers(self):
        g = lambda n: (lambda e, st, nd, oid, av: getattr(self, n))
        D = "Conv::Dataset::"
        h = {D + "GetMethod": g("method"), D + "GetWidth": g("dw"), D + "GetHeight": g("dh"), D + "GetInputMaps": g("im"), D + "GetLabelMaps": g("lm"), D + "GetTrainingSamples": g("tr"), D + "GetTestingSamples": g("te"),
             D + "GetTrainingSample": self.h_get(False), D + "GetTestingSample": self.h_get(True), "method:begin": lambda e, st, n, bv, a: ("it", bv.oid, IV(0)), "method:end": lambda e, st, n, bv, a: ("it", bv.oid, vec_size(e, st, bv.oid)),
             "std::shuffle": self.h_shuffle, "std::operator()": self.h_draw}
        return dict(H_TENSOR, **h)
    def h_get(self, test):
        def h(e, st, n, oid, av):
            s, el = av[4], av[5]; cnt = self.te if test else self.tr
            e.obl(st, z3.And(0 <= el, el < cnt), "%s: sample number inside the data set" % e.fname, "precondition", n)
            for k in range(4):
                t = TensorView(e, st, av[k].oid); sh = t.shape; reg_shape(e, sh)
                e.obl(st, z3.And(0 <= s, s < sh.S), "%s: batch slot inside the tensors" % e.fname, "precondition", n)
                set_cells(e, st, t, lambda i, sh=sh: z3.And(0 <= i, i < sh.N, sh.us(i) == s), lambda i, sh=sh, k=k: CONT(k, z3.BoolVal(test), el, sh.ux(i), sh.uy(i), sh.um(i)))
            return TRUE
        return h
    def h_shuffle(self, e, st, n, oid, args):
        a, b = [e.rv(x, st) for x in args[:2]]; g = e.ev(args[2], st)
        if not (isinstance(a, tuple) and a[0] == "it" and isinstance(b, tuple) and b[1] == a[1] and g.oid == ("fld", "this", "generator_")): raise ExtractionError("arguments of std::shuffle")
        buf = ("vec", a[1]); A = e.arr(st, buf); m = b[2]; e.obl(st, z3.And(a[2] == 0), "%s: the whole order is shuffled" % e.fname, "postcondition", n)
        s = self.gen(e, st); N = fresh("shuffled", ARR); i = z3.Int("i")
        st.assume(z3.ForAll([i], N[i] == z3.If(z3.And(0 <= i, i < m), A[SIG(s, m, i)], A[i]), patterns=[N[i]]))
        e.set_arr(st, buf, N); self.setgen(e, st, NEXT(s, m)); return OPAQUE
    def h_draw(self, e, st, n, oid, args):
        d, g = [e.ev(x, st) for x in args[:2]]
        if g.oid != ("fld", "this", "generator_"): raise ExtractionError("random source")
        r = fresh("uniform", R); st.assume(z3.And(r >= 0, r < 1)); self.setgen(e, st, NEXT(self.gen(e, st), IV(-1))); return r
    def sigma(self, e, s, m):
        """std::shuffle permutes: every position of the range occurs exactly once (assumption on the library)"""
        i = z3.Int("i")
        e.axioms.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(0 <= SIG(s, m, i), SIG(s, m, i) < m, SINV(s, m, SIG(s, m, i)) == i)), patterns=[SIG(s, m, i)]))
        e.axioms.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(0 <= SINV(s, m, i), SINV(s, m, i) < m, SIG(s, m, SINV(s, m, i)) == i)), patterns=[SINV(s, m, i)]))
    def perm(self, e, st, n):
        b = ("vec", PV); e.newbuf(b, T("int", 32, False), n); return b

class Redo(DL):
    """RedoPermutation: the order is permuted, the layer is otherwise unchanged"""
    qual = CLS + "::RedoPermutation"
    def pre(self, e, st):
        self.dataset(e, st); n = self.n = vec_size(e, st, PV); self.b = self.perm(e, st, n); self.g0 = self.gen(e, st); self.sigma(e, self.g0, n)
    def post(self, e, st, ret, kind):
        A, A0, n = e.arr(st, self.b), e.init[("b", self.b)], self.n; i, j = z3.Ints("i j"); inr = lambda x: z3.And(0 <= x, x < n)
        post(e, st, vec_size(e, st, PV) == n, "the order keeps its length")
        post(e, st, z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(SIG(self.g0, n, i)), A[i] == A0[SIG(self.g0, n, i)]))), "every entry is one of the previous order")
        post(e, st, z3.ForAll([i], z3.Implies(inr(i), A[SINV(self.g0, n, i)] == A0[i])), "every previous entry is kept")
        post(e, st, z3.ForAll([i, j], z3.Implies(z3.And(inr(i), inr(j), SIG(self.g0, n, i) == SIG(self.g0, n, j)), i == j)), "no entry is kept twice")
        for f in ("current_element_", "current_element_testing_"): post(e, st, fld(e, st, f) == e.rd(e.entry, ("f", "this", f), U32), "%s unchanged" % f)

class Feed(DL):
    qual = CLS + "::FeedForward"
    def handlers(self):
        def redo(e, st, n, oid, av):
            p = e.rd(st, ("f", "this", "$pass"), T("int", 64, True)); e.wr(st, ("f", "this", "$pass"), p + 1)
            N = fresh("perm", ARR); st.assume(N == PERM(p + 1)); e.set_arr(st, ("vec", PV), N); self.setgen(e, st, NEXT(self.gen(e, st), self.n)); return OPAQUE
        return dict(DL.handlers(self), **{CLS + "::RedoPermutation": redo})
    def pre(self, e, st):
        self.dataset(e, st); n = self.n = vec_size(e, st, PV); self.b = self.perm(e, st, n); k, p, i = z3.Ints("k p i")
        self.t = [layer_t(self, e, st, m, "data") for m in ("data_output_", "label_output_", "helper_output_", "localized_error_output_")]
        Bs = self.B = fld(e, st, "batch_size_")
        for t in self.t: st.assume(z3.And(t.S == Bs, t.w < 2 ** 24, t.h < 2 ** 24))
        st.assume(self.t[3].M == 1); st.assume(Bs < 2 ** 31)
        self.testing = fld(e, st, "testing_", BL); self.c0, self.t0 = fld(e, st, "current_element_"), fld(e, st, "current_element_testing_"); self.lp = e.rd(st, ("f", "this", "loss_sampling_p_"), RL)
        # class invariant (constructor, RedoPermutation): the order is a permutation of the training samples, the position lies inside
        st.assume(z3.And(n == self.tr, fld(e, st, "elements_training_") == self.tr, fld(e, st, "elements_testing_") == self.te))
        st.assume(z3.If(self.testing, z3.And(self.te > 0, self.t0 <= self.te), z3.And(n > 0, self.c0 < n)))
        self.p0 = e.rd(st, ("f", "this", "$pass"), T("int", 64, True)); st.assume(e.arr(st, self.b) == PERM(self.p0))
        e.axioms.append(z3.ForAll([p, i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= PERM(p)[i], PERM(p)[i] < n)), patterns=[PERM(p)[i]]))
        # k-th sample from now: the position steps through the order and wraps into the next pass
        e.axioms += [PASS(0) == self.p0, POS(0) == self.c0, z3.ForAll([k], z3.Implies(k >= 0, z3.If(POS(k) + 1 >= n, z3.And(POS(k + 1) == 0, PASS(k + 1) == PASS(k) + 1), z3.And(POS(k + 1) == POS(k) + 1, PASS(k + 1) == PASS(k)))), patterns=[z3.MultiPattern(POS(k), tick(k))])]
        self.beyond = lambda s: z3.And(self.testing, self.t0 + s >= self.te)
        self.elem = lambda s: z3.If(self.testing, z3.If(self.t0 + s < self.te, self.t0 + s, 0), PERM(PASS(s))[POS(s)])
    def val(self, k, i): sh = self.t[k].shape; return CONT(k, self.testing, self.elem(sh.us(i)), sh.ux(i), sh.uy(i), sh.um(i))
    def wok(self, A, i):
        """what slot us(i) may carry at weight cell i"""
        ws = self.t[3].shape; v = self.val(3, i)
        return z3.If(self.beyond(ws.us(i)), A[i] == 0, z3.Or(A[i] == v, z3.And(A[i] == 0, z3.Not(self.testing), self.fcn, self.lp < 1)))
    def loop_inv(self, e, L, st):
        ch = chain(L); s = ctr(e, st, ch[0]); i = z3.Int("i"); out = []; w = self.t[3]; ws = w.shape; A = e.arr(st, w.buf)
        if len(ch) == 1:
            n = self.n; c, t, p = fld(e, st, "current_element_"), fld(e, st, "current_element_testing_"), e.rd(st, ("f", "this", "$pass"), T("int", 64, True))
            out.append(("position in the order", z3.If(self.testing, z3.And(c == self.c0, p == self.p0, t == z3.If(self.t0 + s < self.te, self.t0 + s, self.te)), z3.And(c == POS(s), p == PASS(s), t == self.t0, 0 <= c, c < n))))
            out.append(("order of the pass", e.arr(st, self.b) == PERM(p)))
            for k in range(3):
                tv = self.t[k]; sh = tv.shape; Ak, A0 = e.arr(st, tv.buf), e.init[("b", tv.buf)]
                out.append(("slots of %s" % ("data", "label", "helper")[k], all_cells(Ak, z3.Implies(inN(tv)(i_), z3.If(sh.us(i_) < s, Ak[i_] == self.val(k, i_), Ak[i_] == A0[i_])))))
            out.append(("weights", all_cells(A, z3.Implies(inN(w)(i_), z3.If(ws.us(i_) < s, self.wok(A, i_), A[i_] == e.init[("b", w.buf)][i_])))))
        else:
            E0 = e.arr(L.entry, w.buf)
            out.append(("weights while sampling", all_cells(A, z3.Implies(inN(w)(i_), z3.Or(A[i_] == E0[i_], z3.And(ws.us(i_) == s, A[i_] == 0, self.lp < 1))))))
        return out
    def hints(self, e, L, st):
        if len(chain(L)) != 1: return []
        s = ctr(e, st, L); return [tick(s), seen(POS(s)), seen(PASS(s))]
    def post(self, e, st, ret, kind):
        Bs, w = self.B, self.t[3]; i = z3.Int("i"); n = self.n; Aw = e.arr(st, w.buf)
        for k in range(3):
            A = e.arr(st, self.t[k].buf); post(e, st, z3.ForAll([i], z3.Implies(inN(self.t[k])(i), A[i] == self.val(k, i))), "every slot holds the %s of its sample" % ("data", "label", "helper")[k])
        post(e, st, z3.ForAll([i], z3.Implies(inN(w)(i), self.wok(Aw, i))), "every slot holds the weight of its sample, zero beyond the test set")
        c, t = fld(e, st, "current_element_"), fld(e, st, "current_element_testing_"); p = e.rd(st, ("f", "this", "$pass"), T("int", 64, True))
        post(e, st, z3.If(self.testing, z3.And(c == self.c0, p == self.p0, t == z3.If(self.t0 + Bs < self.te, self.t0 + Bs, self.te)), z3.And(c == POS(Bs), p == PASS(Bs), t == self.t0, c < n)), "the position advances by the batch")
        post(e, st, e.arr(st, self.b) == PERM(p), "the order is that of the pass")

class Testing(DL):
    qual = CLS + "::SetTestingMode"
    def pre(self, e, st): self.dataset(e, st); self.old = fld(e, st, "testing_", BL); self.t0, self.c0 = fld(e, st, "current_element_testing_"), fld(e, st, "current_element_"); self.p = list(e.param.values())[0]
    def post(self, e, st, ret, kind):
        post(e, st, fld(e, st, "testing_", BL) == self.p, "the mode is set")
        post(e, st, fld(e, st, "current_element_testing_") == z3.If(z3.And(self.p, z3.Not(self.old)), 0, self.t0), "testing starts at the first test sample and only then")
        post(e, st, fld(e, st, "current_element_") == self.c0, "the position in the training order is kept")

class Ctor(DL):
    qual = CLS + "::DatasetInputLayer"
    def label(self): return "DatasetInputLayer constructor"
    def node(self, prog): return [n for n in prog.byqual[self.qual] if n["kind"] == "CXXConstructorDecl" and len(params(n)) == 4][0]
    def member_init(self, e, st, oid, f, args):
        if f == "generator_": self.setgen(e, st, SEED(args[0]))
    def pre(self, e, st):
        self.dataset(e, st); self.sd = e.param[list(e.param)[3]]; self.b = self.perm(e, st, IV(0)); self.g = SEED(self.sd); self.sigma(e, self.g, self.tr)
        q = self.tr; e.cells[self.b] = Cells(e, self.b, None, lambda i: z3.And(0 <= i, i < q), lambda i, s: e.arr(s, self.b)[i] == i, "ascending order", flat=True)
    def loop_inv(self, e, L, st): return [("length", vec_size(e, st, PV) == ctr(e, st, L)), ("generator", self.gen(e, st) == self.g)]
    def post(self, e, st, ret, kind):
        A = e.arr(st, self.b); i = z3.Int("i"); n = self.tr
        post(e, st, vec_size(e, st, PV) == n, "the order has one entry per training sample")
        post(e, st, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), A[i] == SIG(self.g, n, i))), "the order is a permutation of the training samples chosen by the seed")
        P = list(e.param.values())
        for f, v in (("elements_training_", self.tr), ("elements_testing_", self.te), ("current_element_", 0), ("current_element_testing_", 0), ("input_maps_", self.im), ("label_maps_", self.lm), ("batch_size_", P[1])): post(e, st, fld(e, st, f) == v, "%s is set" % f)
        post(e, st, z3.Not(fld(e, st, "testing_", BL)), "starts in training mode"); post(e, st, e.rd(st, ("f", "this", "loss_sampling_p_"), RL) == P[2], "loss_sampling_p_ is set")

class Create(DL, CreateOutputs):
    qual = CLS + "::CreateOutputs"; nin = 0
    def handlers(self): return DL.handlers(self)
    def pre(self, e, st): CreateOutputs.pre(self, e, st)
    def setup(self, e, st): self.dataset(e, st); st.assume(z3.And(fld(e, st, "input_maps_") == self.im, fld(e, st, "label_maps_") == self.lm)); st.assume(z3.And(fld(e, st, "batch_size_") > 0))
    def ok(self, e, ins): return TRUE
    def dims(self, e, ins):
        b = fld(e, e.entry, "batch_size_"); w, h = z3.If(self.fcn, self.dw, 1), z3.If(self.fcn, self.dh, 1)
        return [(b, self.dw, self.dh, self.im), (b, w, h, self.lm), (b, w, h, IV(2)), (b, w, h, IV(1))]
class Con(DL, ConnectFn):
    qual = CLS + "::Connect"; nin = 0; nout = 4; maynull = False
    def handlers(self): return DL.handlers(self)
    def pre(self, e, st): ConnectFn.pre(self, e, st)
    def setup(self, e, st): self.dataset(e, st); st.assume(self.n1 >= 4)
    def ok(self, e, ins, outs): return TRUE
    def members(self): return {"data_output_": ("out", 0), "label_output_": ("out", 1), "helper_output_": ("out", 2), "localized_error_output_": ("out", 3)}

def FNS(): return [Redo(), Feed(), Testing(), Ctor(), Create(), Con()]
def LEMMAS():
    k, n, p, pk, pk1, qk, qk1, d = z3.Ints("k n p pk pk1 qk qk1 d"); S = z3.Function("s", I, I); Q = z3.Function("perm", I, I); a, b = z3.Ints("a b")
    step = z3.If(qk + 1 >= n, z3.And(qk1 == 0, pk1 == pk + 1), z3.And(qk1 == qk + 1, pk1 == pk))
    # a pass delivers positions 0..n-1 once each: passes*n+position grows by one with every delivery
    return layout_lemmas() + [
        ("pass-1: pass*n+position counts the deliveries", [n > 0, 0 <= qk, qk < n, step, pk * n + qk == d, z3.Implies(pk1 == pk + 1, pk1 * n == pk * n + n)], z3.And(pk1 * n + qk1 == d + 1, 0 <= qk1, qk1 < n)),
        ("pass-2: two deliveries of one pass are at different positions", [pk == pk1, pk * n + qk == a, pk1 * n + qk1 == b, a != b, z3.Implies(pk == pk1, pk * n == pk1 * n)], qk != qk1),
        ("pass-3: a permuted permutation is a permutation", [0 <= a, a < n, 0 <= b, b < n, z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < n), z3.And(0 <= S(p), S(p) < n))), z3.Implies(S(a) == S(b), a == b), z3.Implies(Q(S(a)) == Q(S(b)), S(a) == S(b)), Q(S(a)) == Q(S(b))], a == b)]
