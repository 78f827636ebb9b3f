"""C25: TensorStreamPatchDataset: numbering of the patch positions and the patches returned."""
from lib import *
from C24 import BEST, h_pixmax
SOURCES = ["src/util/TensorStreamPatchDataset.cpp"] + TSRC
ARR = z3.ArraySort(I, R); CLS = "Conv::TensorStreamPatchDataset"
# the stored images: sizes, maps, contents of image k and its label tensor
W, H, M, LM = [z3.Function("image_" + n, I, I) for n in ("w", "h", "maps", "label_maps")]
DATA, LAB = z3.Function("image_data", I, ARR), z3.Function("label_data", I, ARR)

def idivs(terms):
    """all divisions of integer terms"""
    out = []; todo = list(terms); done = set()
    while todo:
        x = todo.pop()
        if x.get_id() in done: continue
        done.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_IDIV) or z3.is_app_of(x, z3.Z3_OP_MOD): out.append(x)
        if z3.is_app(x): todo += x.children()
    return out

class Patch(Fn):
    assumptions = ("every image has the maps of the first, its label tensor has its size", "fewer than 2^31 patch positions")
    def fields(self, e, st):
        self.px, self.py, self.n = fld(e, st, "patchsize_x_"), fld(e, st, "patchsize_y_"), fld(e, st, "tensors_")
        st.assume(z3.And(0 < self.px, self.px < 2 ** 24, 0 < self.py, self.py < 2 ** 24))
        k = z3.Int("k")
        for f in (W, H, M, LM): e.axioms.append(z3.ForAll([k], z3.And(0 < f(k), f(k) < 2 ** 24), patterns=[f(k)]))
        # patch positions of image k
        self.iw = lambda k: z3.If(W(k) >= self.px, W(k) - (self.px - 1), 0); self.ih = lambda k: z3.If(H(k) >= self.py, H(k) - (self.py - 1), 0)
        PC = self.PC = z3.Function("positions", I, I); e.axioms.append(z3.ForAll([k], z3.And(PC(k) == self.iw(k) * self.ih(k), PC(k) >= 0), patterns=[PC(k)]))
        # positions in the images before image k
        B = self.B = z3.Function("before", I, I)
        e.axioms.append(B(0) == 0); e.axioms.append(z3.ForAll([k], z3.Implies(k >= 0, z3.And(B(k + 1) == B(k) + PC(k), B(k) >= 0)), patterns=[z3.MultiPattern(B(k), tick(k))]))
    def family(self, e, st):
        self.idx = []
        for mem, wmaps, arr in (("data_", M, DATA), ("labels_", LM, LAB)):
            p = e.rd(st, ("f", "this", mem), T("ptr", el=T("struct", name="Tensor"))); st.assume(z3.Not(p.null))
            def fam(e, ax, ii, oid, wmaps=wmaps, arr=arr):
                t = wf_tensor(e, ax, oid, nonempty=True); self.idx.append(ii)
                ax.assume(z3.And(t.w == W(ii), t.h == H(ii), t.M == wmaps(ii), t.S > 0, e.init[("b", t.buf)] == arr(ii))); row_axioms(e, t.shape)
            e.families[p.target] = fam

class Get(Patch):
    def __init__(self, training): self.training = training; self.qual = CLS + ("::GetTrainingSample" if training else "::GetTestingSample")
    def handlers(self): return dict(H_TENSOR, **{"Conv::Tensor::PixelMaximum": h_pixmax, CLS + "::error_function_": lambda e, st, n, oid, av: self.err(*av)})
    def pre(self, e, st):
        self.fields(e, st); self.family(e, st); p = e.param; ns = list(p); self.err = z3.Function("localized_error", I, I, I, I, R)
        d, l, h, wt = self.d, self.l, self.h, self.wt = [param_tensor(e, st, n, nonempty=True) for n in ns[:4]]; smp, index = self.smp, self.index = p[ns[4]], p[ns[5]]
        IM, OM = fld(e, st, "input_maps_"), fld(e, st, "label_maps_"); n = self.n; k = z3.Int("k")
        e.axioms.append(z3.ForAll([k], z3.And(M(k) == IM, LM(k) == OM), patterns=[W(k)]))
        for t in (d, l, h, wt): st.assume(z3.And(dims_pos(t), t.S == d.S))
        st.assume(z3.And(smp < d.S, d.w == self.px, d.h == self.py, d.M == IM, l.w == 1, l.h == 1, l.M == OM, h.w == 1, h.h == 1, h.M == 2, wt.w == 1, wt.h == 1, wt.M == 1))
        row_axioms(e, d.shape)
        cw = ("fld", "this", "class_weights_"); cn = vec_size(e, st, cw); st.assume(l.M <= cn); e.newbuf(("vec", cw), T("real", name="float"), cn); self.cw = e.arr(st, ("vec", cw))
        # class invariant: last_sample_[k] counts the positions up to and including image k (established by the constructor)
        lp = e.rd(st, ("f", "this", "last_sample_"), T("ptr", el=T("int", 32, False))); st.assume(z3.Not(lp.null)); e.axioms.append(e.blen[lp.target] >= n)
        LS = self.LS = e.arr(st, lp.target); B = self.B
        st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(LS[k] == B(k + 1), seen(B(k)), tick(k))), patterns=[LS[k]]))
        nt = self.nt = z3.Int("training_images"); st.assume(z3.And(0 <= nt, nt <= n, B(n) < 2 ** 31, B(nt) <= B(n), B(nt) >= 0))
        ct, ce = fld(e, st, "sample_count_training_"), fld(e, st, "sample_count_testing_"); st.assume(z3.And(ct == B(nt), ce == B(n) - B(nt)))
        self.ok = index < (ct if self.training else ce)
        q = self.q = z3.Int("position"); st.assume(q == (index if self.training else index + ct))
        # the image, row and column of position q (lemmas position-1..3: they exist and are unique)
        img, row, col = self.img, self.row, self.col = z3.Ints("image row col"); IW = self.IW = z3.Int("inner_width")
        first, end = (IV(0), nt) if self.training else (nt, n)
        e.axioms.append(z3.Implies(self.ok, z3.And(first <= img, img < end, B(img) <= q, q < B(img + 1), B(img + 1) == B(img) + self.PC(img), self.PC(img) == IW * self.ih(img), IW == self.iw(img), IW > 0, self.ih(img) > 0,
            q - B(img) == IW * row + col, 0 <= col, col < IW, 0 <= row, row < self.ih(img))))
        for t in (d, l, h, wt): sh = t.shape
        ish = Shape(W(img), H(img), IM, IV(1), z3.IntVal(0)); lsh = Shape(W(img), H(img), OM, IV(1), z3.IntVal(0))
        ds, ls, hs, ws = d.shape, l.shape, h.shape, wt.shape
        self.dv = lambda i: DATA(img)[off_f(W(img), H(img), M(img), col + ds.ux(i), row + ds.uy(i), ds.um(i), IV(0))]
        self.lv = lambda i: LAB(img)[off_f(W(img), H(img), LM(img), col + self.px / 2, row + self.py / 2, ls.um(i), IV(0))]
        self.hv = lambda i: z3.If(hs.um(i) == 0, z3.If(W(img) > 1, z3.ToReal(col) / z3.ToReal(W(img) - 1), 0), z3.If(H(img) > 1, z3.ToReal(row) / z3.ToReal(H(img) - 1), 0))
        self.wv = lambda i, s: self.err(col + self.px / 2, row + self.py / 2, W(img), H(img)) * self.cw[BEST(e.arr(s, l.buf), IV(0), IV(0), smp)]
        mine = lambda t: (lambda i: z3.And(inN(t)(i), t.shape.us(i) == smp)); self.mine = mine
        e.cells[d.buf] = Cells(e, d.buf, ds, mine(d), lambda i, s: e.arr(s, d.buf)[i] == self.dv(i), "patch")
        e.cells[l.buf] = Cells(e, l.buf, ls, mine(l), lambda i, s: e.arr(s, l.buf)[i] == self.lv(i), "label")
    def loop_inv(self, e, L, st):
        if L.counters or L.writes or len(chain(L)) != 1: return []
        a = e.accs(L, st, I)
        if len(a) != 1: raise ExtractionError("search for the image not recognised")
        t = a[0]; k = z3.Int("k")
        return [("image range", z3.And(0 <= t, t <= self.n)), ("images before hold earlier positions", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < t), self.LS[k] <= self.q), patterns=[self.LS[k]]))]
    def facts(self, e, st):
        """instances of lemmas: order of the images, division"""
        out = []; img, row, col, IW = self.img, self.row, self.col, self.IW
        for t in list(self.idx):
            out += [z3.Implies(z3.And(0 <= t, t < img), self.B(t + 1) <= self.B(img)), z3.Implies(z3.And(0 <= img, img < t), self.LS[img] <= self.LS[img]), seen(self.LS[t]), seen(self.LS[img]), tick(t), tick(img), seen(self.PC(t))]
        ts = [v for k, v in st.store.items() if isinstance(v, z3.ExprRef) and k[0] == "v" and v.sort() == I]
        for x in idivs(ts):
            a, b = x.children(); qq = a / b
            out += [z3.Implies(z3.And(a == b * row + col, 0 <= col, col < b), z3.And(qq == row, a % b == col)), z3.Implies(b == IW, b * row == IW * row), z3.Implies(z3.And(qq == row, b == IW), qq * b == IW * row)]
        return out
    def hints(self, e, L, st):
        if len(chain(L)) != 1 or not L.counters: return []
        return self.facts(e, st)
    def post(self, e, st, ret, kind):
        r = e.to_bool(ret); d, l, h, wt, smp = self.d, self.l, self.h, self.wt, self.smp; i = z3.Int("i")
        post(e, st, r == self.ok, "exactly the indices of patch positions are accepted")
        st2 = st.fork(); st2.assume(self.ok)
        for f in self.facts(e, st2): st2.assume(f)
        for nm, t, v in (("patch holds the image pixels at the position", d, lambda i: self.dv(i)), ("label is that of the patch centre", l, lambda i: self.lv(i)), ("helper holds the position", h, lambda i: self.hv(i)), ("weight is that of the centre and its class", wt, lambda i: self.wv(i, st2))):
            A, A0 = e.arr(st2, t.buf), e.init[("b", t.buf)]
            post(e, st2, z3.ForAll([i], z3.Implies(inN(t)(i), A[i] == z3.If(t.shape.us(i) == smp, v(i), A0[i]))), nm)
        st3 = st.fork(); st3.assume(z3.Not(self.ok))
        for t in (d, l, h, wt): post(e, st3, unchanged(e, st3, t), "nothing written when refused")

class Ctor(Patch):
    """the constructor numbers the positions as the class invariant used above says, and keeps the tensors in stored order"""
    qual = CLS + "::TensorStreamPatchDataset"
    assumptions = ("reading tensor k of a stream yields its k-th tensor, reading behind the last one an empty tensor (C05)", "fewer than 2^31 patch positions")
    def label(self): return "TensorStreamPatchDataset constructor"
    def node(self, prog): return [n for n in prog.byqual[self.qual] if n["kind"] == "CXXConstructorDecl" and len(params(n)) > 2][0]
    def pos(self, e, st, o): return e.rd(st, ("f", o, "$pos"), T("int", 64, False))
    def handlers(self):
        def eof(e, st, n, o, av): r = fresh("eof", B); st.assume(z3.Implies(r, self.pos(e, st, o) >= self.cnt[o])); return r
        def rewind(e, st, n, o, av): e.wr(st, ("f", o, "$pos"), IV(0)); return OPAQUE
        def nop(e, st, n, o, av): return OPAQUE
        q = lambda f: (lambda e, st, n, bv, args: f(e, st, n, bv.oid, args))
        h = {"method:eof": q(eof), "method:peek": q(nop), "method:clear": q(nop), "method:seekg": q(rewind), "Conv::Tensor::Deserialize": self.h_read, "Conv::Tensor::Tensor": self.h_tensor}
        return dict(H_TENSOR, **h)
    def h_tensor(self, e, st, n, oid, av):
        if av: raise ExtractionError("tensor constructor with arguments")
        for f in ("width_", "height_", "maps_", "samples_", "elements_"): e.wr(st, ("f", oid, f), IV(0))
    def h_read(self, e, st, n, oid, av):
        o = av[0].oid; p = self.pos(e, st, o); N = self.cnt[o]; src = self.src[o]
        for f, v in (("width_", self.TW[src](p)), ("height_", self.TH[src](p)), ("elements_", z3.If(p < N, self.TE[src](p), 0))): e.wr(st, ("f", oid, f), v)
        for f in ("maps_", "samples_"): e.wr(st, ("f", oid, f), fresh("dim", I))
        if oid in self.term:
            mem, ii = self.term[oid]
            e.wr_arr(st, ("ghost", mem), ii, 2 * p + src)   # ghost: which stored tensor this element holds
            if mem == "data_":
                e.obl(st, z3.And(self.TW[src](p) == W(ii), self.TH[src](p) == H(ii), p < N), "%s: image read in stored order" % e.fname, "invariant", n)
                e.wr(st, ("f", oid, "width_"), W(ii)); e.wr(st, ("f", oid, "height_"), H(ii))
        e.wr(st, ("f", o, "$pos"), p + 1); return OPAQUE
    def pre(self, e, st):
        self.fields(e, st); ps = list(e.param.values()); k = z3.Int("k"); self.term = {}
        self.px, self.py = ps[6], ps[7]; st.assume(z3.And(0 < self.px, self.px < 2 ** 24, 0 < self.py, self.py < 2 ** 24))
        a, b = ps[0].oid, ps[1].oid; self.src = {a: 0, b: 1}; Na, Nb = z3.Ints("training_tensors testing_tensors"); self.cnt = {a: Na, b: Nb}; self.Na, self.Nb = Na, Nb
        self.TW, self.TH, self.TE = [[z3.Function("stored_%s_%d" % (n, j), I, I) for j in (0, 1)] for n in "whn"]
        for f in self.TW + self.TH + self.TE: e.axioms.append(z3.ForAll([k], z3.And(0 < f(k), f(k) < 2 ** 24), patterns=[f(k)]))
        st.assume(z3.And(0 <= Na, Na < 2 ** 30, 0 <= Nb, Nb < 2 ** 30))
        for o in (a, b): e.wr(st, ("f", o, "$pos"), IV(0))
        nt = self.nt = Na / 2; n = self.n = (Na + Nb) / 2
        e.axioms.append(z3.ForAll([k], z3.And(W(k) == z3.If(k < nt, self.TW[0](2 * k), self.TW[1](2 * (k - nt))), H(k) == z3.If(k < nt, self.TH[0](2 * k), self.TH[1](2 * (k - nt)))), patterns=[W(k)]))
        st.assume(z3.And(self.B(n) < 2 ** 31, self.B(nt) < 2 ** 31))
        for mem in ("data_", "labels_"): e.newbuf(("ghost", mem), T("int", 64, False), n)
        want = lambda k, lab: z3.If(k < nt, 2 * (2 * k + lab), 2 * (2 * (k - nt) + lab) + 1)
        for j, mem in ((0, "data_"), (1, "labels_")):
            g = ("ghost", mem); e.cells[g] = Cells(e, g, None, lambda q: z3.And(0 <= q, q < n), lambda q, s, g=g, j=j: e.arr(s, g)[q] == want(q, j), "which stored tensor %s holds" % mem, flat=True)
    def lsb(self, e, st):
        p = e.rd(st, ("f", "this", "last_sample_"), T("ptr", el=T("int", 32, False))); return p.target
    def loop_inv(self, e, L, st):
        a, b = self.cnt; pa, pb = self.pos(e, st, a), self.pos(e, st, b); out = []
        if not L.counters:     # counting the tensors of one stream
            ca, cb = fld(e, st, "tensor_count_training_"), fld(e, st, "tensor_count_testing_")
            ea, eb = [fld(e, L.entry, "tensor_count_%s_" % x) for x in ("training", "testing")]
            lim = [p <= N for o, p, N in ((a, pa, self.Na), (b, pb, self.Nb)) if ("f", o, "$pos") in L.scal]
            return [("tensors counted", z3.And(*lim, ca - pa == ea - self.pos(e, L.entry, a), cb - pb == eb - self.pos(e, L.entry, b), pa >= 0, pb >= 0))]
        buf = self.lsb(e, st); t = ctr(e, st, L); first = z3.simplify(L.cnt0); t = z3.simplify(first + t)
        if buf not in e.cells:
            e.cells[buf] = Cells(e, buf, None, lambda q: z3.And(0 <= q, q < self.n), lambda q, s: e.arr(s, buf)[q] == self.B(q + 1), "positions up to an image", flat=True)
            out += e.cells[buf].loop_inv(L, st)
        st_, se = fld(e, st, "sample_count_training_"), fld(e, st, "sample_count_testing_"); B = self.B
        tr = z3.is_true(z3.simplify(first == 0))
        cur = z3.If(t < self.nt, t, self.nt)
        out += [("stream position", z3.And(pa == 2 * z3.If(t < self.nt, t, self.nt), pb == 2 * z3.If(t < self.nt, 0, t - self.nt))),
                ("positions counted", z3.And(st_ == B(cur), se == B(t) - B(cur), t >= 0))]
        return out
    def before_loop(self, e, st):
        for mem in ("data_", "labels_"):
            p = e.rd(st, ("f", "this", mem), T("ptr", el=T("struct", name="Tensor")))
            e.families.setdefault(p.target, lambda e, ax, ii, oid, mem=mem: self.term.__setitem__(oid, (mem, ii)))
    def hints(self, e, L, st):
        if not L.counters: return []
        t = z3.simplify(L.cnt0) + ctr(e, st, L); t = z3.simplify(t); PC = self.PC
        return [tick(t), seen(self.B(t)), PC(t) == self.iw(t) * self.ih(t), tick(t - 1), seen(self.B(t - 1))]
    def post(self, e, st, ret, kind):
        buf = self.lsb(e, st); LS = e.arr(st, buf); k = z3.Int("k"); B = self.B; nt, n = self.nt, self.n
        post(e, st, z3.And(self.Na % 2 == 0, self.Nb % 2 == 0, fld(e, st, "tensors_") == n, fld(e, st, "patchsize_x_") == self.px, fld(e, st, "patchsize_y_") == self.py), "images counted, odd tensor counts rejected")
        post(e, st, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), LS[k] == B(k + 1))), "last_sample_ counts the positions up to each image")
        post(e, st, z3.And(fld(e, st, "sample_count_training_") == B(nt), fld(e, st, "sample_count_testing_") == B(n) - B(nt)), "sample counts are the sums of the positions")
        for mem in ("data_", "labels_"): post(e, st, e.cells[("ghost", mem)].post(st), "%s keeps the tensors in stored order" % mem)

def FNS(): return [Get(True), Get(False), Ctor()]
def LEMMAS():
    q, w, h, r, c, r2, c2, b, b1, p = z3.Ints("q w h r c r2 c2 b b1 p")
    return layout_lemmas() + mul_lemmas() + [
        ("position-1: the counts before the images only grow (induction step)", [p >= 0, b <= b1], b <= b1 + p),
        ("position-2: every position of an image has a row and column", [w > 0, h > 0, 0 <= q, q < w * h, r == q / w, c == q % w, w * r + c == q, mono(h, r, w), mono(r + 1, 0, w)], z3.And(0 <= r, r < h, 0 <= c, c < w)),
        ("position-3: they are unique", [w > 0, q == w * r + c, 0 <= c, c < w, q == w * r2 + c2, 0 <= c2, c2 < w, mono(r + 1, r2, w), mono(r2 + 1, r, w)], z3.And(r == r2, c == c2)),
        ("position-4: the division instances used", [w > 0, q == w * r + c, 0 <= c, c < w, w * (q / w) + q % w == q, mono(r + 1, q / w, w), mono(q / w + 1, r, w)], z3.And(q / w == r, q % w == c))]
