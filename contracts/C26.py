"""C26: whole-image patch and label extraction."""
from lib import *
SOURCES = ["src/util/Segmentation.cpp"] + TSRC
ASM = ("image and patch dimensions below 2^24",)

def mirrored(p, n): return z3.If(p < 0, -p, z3.If(p >= n, 2 * n - 1 - p, p))

class Extract(Fn):
    """common part: one output sample per pixel, numbered row by row"""
    assumptions = ASM
    def handlers(self): return dict(H_TENSOR, **{"Conv::Tensor::Resize": self.h_resize})
    def h_resize(self, e, st, n, oid, av):
        r = h_resize(e, st, n, oid, av)
        if e.collect is None: self.outs[oid[-1]] = TensorView(e, st, oid); self.made(e, st, oid[-1], TensorView(e, st, oid))
        return r
    def pre(self, e, st):
        p = e.param; self.outs = {}; self.cellspec = {}
        s = self.s = param_tensor(e, st, "source", nonempty=True); st.assume(dims_pos(s))
        self.px, self.py, self.smp = p["patchsize_x"], p["patchsize_y"], p["source_sample"]
        for v in (s.w, s.h, s.M): st.assume(v < 2 ** 24)
        st.assume(z3.And(0 < self.px, self.px <= s.w, 0 < self.py, self.py <= s.h, 0 <= self.smp, self.smp < s.S))   # no larger than the image
        self.W, self.H, self.A = s.w, s.h, s.a
    def split(self, e, name, sh):
        """sample = row * width + column"""
        sp = Split(e, name, sh, sh.us, self.W); i = z3.Int("i")
        e.axioms.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < sh.N), sp.Q(i) < self.H), patterns=[sp.Q(i)]))   # lemma rows
        return sp
    def pixel_hints(self, e, L, st, tensors):
        """the sample a pixel belongs to, at the two outer loops"""
        ch = chain(L); out = [tick(ctr(e, st, L))]
        pix = self.pixel(e, ch, st)
        if pix is None: return out
        x, y = pix
        out += [mono(y + 1, self.H, self.W), mono(IV(0), y, self.W), 0 <= self.W * y, self.W * y + x < self.W * self.H]
        return out
    def pixel(self, e, ch, st):
        if len(ch) < 2: return None
        a = [(getattr(l, "bound", None), ctr(e, st, l)) for l in ch[:2]]
        # both outer loops run over the image, recognised by their extents
        if all(b is not None and z3.is_true(z3.simplify(b == w)) for (b, _), w in zip(a, (self.W, self.H))): return a[0][1], a[1][1]
        if all(b is not None and z3.is_true(z3.simplify(b == w)) for (b, _), w in zip(a, (self.H, self.W))): return a[1][1], a[0][1]
        return None

class Patches(Extract):
    qual = "Conv::Segmentation::ExtractPatches"
    def made(self, e, st, name, t):
        sh = t.shape; s = self.s
        sp = self.split(e, name, sh); self.cellspec[name] = sp
        row, col = sp.Q, sp.M
        if name == "target":
            self.t = t; V = self.V = self.px * self.py * s.M; vol_axioms(e, sh, V); self.sp = sp
            ox, oy = self.px / 2, self.py / 2; i = z3.Int("i")
            pv = self.A[s.shape.off(mirrored(col(i) + sh.ux(i) - ox, self.W), mirrored(row(i) + sh.uy(i) - oy, self.H), sh.um(i), self.smp)]
            P = self.P = z3.Function("patch_pixel", I, R)   # the (mirrored) image pixel of patch element i
            e.axioms.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < sh.N), P(i) == pv), patterns=[P(i)]))
            self.sum = Sum(e, "patch_sum", 1, lambda q, k: P(q * V + k))
            self.spec = e.cells[t.buf] = PatchCells(self, e)
        else:
            self.h = t
            def R_(i, q):
                r, c = row(i), col(i)
                v = lambda pos, half, n, ps: z3.ToReal(z3.If(z3.If(n - (ps - 1) <= pos - half, n - (ps - 1), pos - half) >= 0, z3.If(n - (ps - 1) <= pos - half, n - (ps - 1), pos - half), 0)) / z3.ToReal(n)
                return e.arr(q, t.buf)[i] == z3.If(sh.ux(i) == 0, v(r, self.py / 2, self.H, self.py), v(c, self.px / 2, self.W, self.px))
            e.cells[t.buf] = NestCells(e, t.buf, inN(t), R_, [col, row], "helper", exts=[self.W, self.H])
    def phase2(self, e, L): return not e.arr(chain(L)[0].entry, self.t.buf).eq(e.init[("b", self.t.buf)])   # the patches are already there
    def loop_inv(self, e, L, st):
        ch = chain(L)
        if not self.phase2(e, L) or len(ch) != 2: return []
        a = e.accs(L, st, R)
        if not a: return []
        return [("patch sum so far", a[0] == self.sum(ctr(e, st, ch[0]), ctr(e, st, L)))]
    def hints(self, e, L, st):
        ch = chain(L)
        if self.phase2(e, L):
            out = [tick(ctr(e, st, L))]; V = self.V; n = ctr(e, st, ch[0])
            if len(ch) == 2:
                q = n * V + ctr(e, st, L); u = self.t.shape.us(q)
                out += [mono(n + 1, self.t.S, V), mono(IV(0), n, V), mono(n + 1, u, V), mono(u + 1, n, V)]
            return out
        out = self.pixel_hints(e, L, st, [self.t, self.h]); pix = self.pixel(e, ch, st)
        if pix is not None:
            x, y = pix; el = self.W * y + x; hs = self.h.shape
            for k in (0, 1):
                o = hs.off(IV(k), IV(0), IV(0), el); out += [o == 2 * el + k, self.cellspec["helper"].inst(o, y, x)]
            if len(ch) == 5:
                c = [ctr(e, st, l) for l in ch]; o = self.t.shape.off(c[3], c[2], c[4], el); out += [seen(o), self.sp.inst(o, y, x)]
        return out
    def post(self, e, st, ret, kind):
        s, t, h = self.s, self.t, self.h; p = e.param; i = z3.Int("i")
        A, H = e.arr(st, t.buf), e.arr(st, h.buf); sub = p["substract_mean"]
        mean = self.sum(t.shape.us(i), self.V) / z3.ToReal(self.V)
        post(e, st, z3.And(t.S == self.W * self.H, t.w == self.px, t.h == self.py, t.M == s.M), "one patch of the given size per pixel, with every map")
        post(e, st, all_cells(A, z3.Implies(z3.And(0 <= i, i < t.N), A[i] == self.P(i) - z3.If(sub, mean, 0))), "every patch element is the mirrored image pixel, less the patch mean if asked for")
        post(e, st, e.cells[h.buf].post(st), "the helper holds the patch position")
        post(e, st, unchanged(e, st, s), "image unchanged")

class PatchCells(NestCells):
    def __init__(self, fn, e):
        sh = fn.t.shape; sp = fn.sp; self.fn = fn
        NestCells.__init__(self, e, fn.t.buf, inN(fn.t), lambda i, q: e.arr(q, fn.t.buf)[i] == fn.P(i), [sp.M, sp.Q, sh.uy, sh.ux, sh.um], "patches",
                           exts=[fn.W, fn.H, fn.py, fn.px, fn.s.M])
    def loop_inv(self, L, st):
        fn = self.fn; e = self.e
        if not fn.phase2(e, L): return NestCells.loop_inv(self, L, st)
        i = z3.Int("i"); A = e.arr(st, self.b); ch = chain(L); n = ctr(e, st, ch[0]); u = fn.t.shape.us(i)
        done = u < n if len(ch) == 1 else z3.Or(u < n, z3.And(u == n, i < n * fn.V + ctr(e, st, L)))
        v = fn.P(i) - z3.If(done, fn.sum(u, fn.V) / z3.ToReal(fn.V), 0)
        body = z3.Implies(self.D(i), A[i] == v)
        return [("patches less their mean", all_cells(A, body))]

class Labels(Extract):
    qual = "Conv::Segmentation::ExtractLabels"
    def made(self, e, st, name, t):
        sh = t.shape; s = self.s; sp = self.cellspec[name] = self.split(e, name, sh)
        col, row = sp.M, sp.Q; p = e.param; ig = p["ignore_class"]; ig = z3.If(ig >= 0, ig, ig + 2 ** 32)
        v = lambda i: self.A[s.shape.off(col(i), row(i), IV(0), self.smp)]
        val = (lambda i: v(i)) if name == "labels" else (lambda i: z3.If(BITS(v(i)) == ig, z3.RealVal(0), z3.RealVal(1)))
        setattr(self, name, t)
        e.cells[t.buf] = NestCells(e, t.buf, inN(t), lambda i, q: e.arr(q, t.buf)[i] == val(i), [col, row], name, exts=[self.W, self.H])
    def hints(self, e, L, st):
        ch = chain(L); out = self.pixel_hints(e, L, st, []); pix = self.pixel(e, ch, st)
        if pix is not None:
            x, y = pix; el = self.W * y + x
            for n in ("labels", "weight"):
                o = getattr(self, n).shape.off(IV(0), IV(0), IV(0), el); out += [seen(o), self.cellspec[n].inst(o, y, x)]
        return out
    def post(self, e, st, ret, kind):
        post(e, st, z3.And([z3.And(t.S == self.W * self.H, t.w == 1, t.h == 1, t.M == 1) for t in (self.labels, self.weight)]), "one label and weight per pixel")
        post(e, st, e.cells[self.labels.buf].post(st), "every label is that of its pixel")
        post(e, st, e.cells[self.weight.buf].post(st), "the weight is zero exactly at the ignored class")
        post(e, st, unchanged(e, st, self.s), "image unchanged")

def FNS(): return [Patches(), Labels()]
def LEMMAS():
    s, W, x, y = z3.Ints("s W x y")
    H, u = z3.Ints("H u")
    return layout_lemmas() + block_lemmas() + split_lemmas() + [("rows: a pixel index below height*width lies in one of the rows", [W > 0, 0 <= u, u < W * H, u == W * y + x, 0 <= x, x < W, mono(H, y, W)], y < H), ("helper layout: two elements per sample", [], s * (1 * 1 * 2) + 0 * (1 * 2) + 0 * 2 + x == 2 * s + x)]
