"""C16: the convolution layer, over the contracts of GEMM, GEMV (C07), IM2COL, COL2IM (C08) and SMS (C09)."""
from lib import *
SOURCES = ["src/net/ConvolutionLayer.cpp", "src/net/SimpleLayer.cpp"] + TSRC
ARR = z3.ArraySort(I, R)
# ghost: sum over k < n of a[pa + k*sa] * b[pb + k*sb]  (the `dot` of the C07 contracts)
DOT = z3.Function("dot", ARR, I, I, ARR, I, I, I, R)
COLSUM = z3.Function("colsum", ARR, I, R)     # what folding stores in an element (C08)
def dot1(e, a, pa, sa, b, pb, sb): e.axioms.append(DOT(a, pa, sa, b, pb, sb, IV(1)) == a[pa] * b[pb])   # the sum of one term

class Conv(Fn):
    nparams = 0
    assumptions = ("no dropout", "parameter buffers have the shapes Connect gives them")
    def handlers(self): return dict(H_TENSOR, **{"Conv::TensorMath::GEMM": self.h_gemm, "Conv::TensorMath::GEMV": self.h_gemv, "Conv::TensorMath::SMS": self.h_sms,
                                    "Conv::TensorMath::IM2COL": self.h_im2col, "Conv::TensorMath::COL2IM": self.h_col2im})
    def pre(self, e, st):
        i, d, o, od = self.i, self.d, self.o, self.od = [layer_t(self, e, st, m, w) for m, w in (("input_", "data"), ("input_", "delta"), ("output_", "data"), ("output_", "delta"))]
        W, dW, B, dB = self.W, self.dW, self.B, self.dB = [layer_t(self, e, st, m, w) for m, w in (("weights_", "data"), ("weights_", "delta"), ("bias_", "data"), ("bias_", "delta"))]
        col, sms, sms2, dx, ones = self.col, self.sms, self.sms2, self.dx, self.ones = [own_t(e, st, m) for m in ("im2col_ff_buffer", "sms_ff_buffer", "sms2_bp_buffer", "bp_deltax_buffer", "ones_")]
        kw, kh, sw, sh_, pw, ph = self.geo = [fld(e, st, n) for n in ("kernel_width_", "kernel_height_", "stride_width_", "stride_height_", "pad_width_", "pad_height_")]
        G, OM, IM, ow, oh = [fld(e, st, n) for n in ("group_", "output_maps_", "input_maps_", "output_width_", "output_height_")]
        S = i.S; self.G, self.OM, self.IM = G, OM, IM
        st.assume(z3.And(kw > 0, kh > 0, sw > 0, sh_ > 0, G > 0, same_shape(i, d), same_shape(o, od), i.w == fld(e, st, "input_width_"), i.h == fld(e, st, "input_height_"), i.M == IM,
                  o.w == ow, o.h == oh, o.M == OM, o.S == S, fld(e, st, "dropout_fraction_", RL) == 0))
        st.assume(z3.And(2 * pw + i.w >= kw, 2 * ph + i.h >= kh))   # Connect: output size as computed from the kernel
        st.assume(z3.And(ow == (2 * pw + i.w - kw) / sw + 1, oh == (2 * ph + i.h - kh) / sh_ + 1))
        og, ig, Kp = z3.Ints("maps_out_per_group maps_in_per_group kernel_elements"); self.og, self.ig, self.Kp = og, ig, Kp
        P = self.P = z3.Int("positions")
        for ax in (og > 0, ig > 0, OM == G * og, IM == G * ig, Kp == kw * kh * ig, Kp > 0, P == ow * oh * S, P > 0): e.axioms.append(ax)   # the constructor and CreateOutputs reject other map counts
        for t in (col, dx): st.assume(z3.And(t.w == ow, t.h == oh, t.M == S, t.S == G * Kp)); vol_axioms(e, t.shape, P)
        for t in (sms, sms2): st.assume(z3.And(t.w == ow, t.h == oh, t.M == S, t.S == OM)); vol_axioms(e, t.shape, P)
        st.assume(same_shape(col, dx)); st.assume(same_shape(sms, sms2)); st.assume(same_shape(W, dW)); st.assume(same_shape(B, dB))
        for t in (W, dW): st.assume(z3.And(t.w == kw, t.h == kh, t.M == ig, t.S == OM)); vol_axioms(e, t.shape, Kp)
        for t in (B, dB): st.assume(z3.And(t.w == OM, t.h == 1, t.M == 1, t.S == 1, t.N == OM)); e.axioms.append(row0(t.shape, IV(0)) == 0)
        st.assume(z3.And(ones.w == P, ones.h == 1, ones.M == 1, ones.S == 1, ones.N == P)); e.axioms.append(row0(ones.shape, IV(0)) == 0)
        k = z3.Int("i"); st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < P), ones.a[k] == 1), patterns=[ones.a[k]]))
        self.known = {}
        # rows of the buffers by group
        self.go = Split(e, "group_out", W.shape, W.shape.us, og); self.gs = Split(e, "group_sms", sms.shape, sms.shape.us, og); self.gk = Split(e, "group_row", col.shape, col.shape.us, Kp)
        net = e.rd(st, ("f", "this", "net_"), T("ptr", el=T("struct", name="NetStatus"))); st.assume(z3.Not(net.null))
        e.axioms.append(z3.And(G * Kp == kw * kh * IM))
        self.setup(e, st)
    def g(self, e, st): return ctr(e, st, e.loopstack[-1]) if e.loopstack else None
    def name(self, e, st, n, v, what):
        """replace an index expression of the code by the group arithmetic it is proved equal to"""
        g = self.g(e, st); G = self.G
        w = {"og": self.og, "Kp": self.Kp, "P": self.P, "0": IV(0), "1": IV(1), "OM": self.OM}
        if g is not None: w.update({"g*og": g * self.og, "g*Kp": g * self.Kp})
        w = w[what]
        if v.eq(w): return w
        if e.collect is None:
            st2 = st.fork()
            # instances of lemma div-exact: G > 0, a = G*b => a/G = b
            todo = [v]
            while todo:
                t = todo.pop()
                if z3.is_app_of(t, z3.Z3_OP_IDIV) and t.arg(1).eq(G): st2.assume(z3.Implies(t.arg(0) == G * w, t == w))
                todo += t.children()
            e.obl(st2, v == w, "%s: matrix index is %s" % (e.fname, what), "precondition", n)
            st.assume(v == w)
        return w
    def mat(self, e, st, n, t, sm, ld, rows, cols):
        """a rows x cols matrix with leading dimension ld, starting at sample sm, lies inside the tensor"""
        base = row0(t.shape, sm)
        V = self.P if t.S is not None and (t.shape.w.eq(self.col.shape.w) or t.shape.w.eq(self.sms.shape.w)) else self.Kp
        st2 = st.fork(); st2.assume(z3.And(mono(sm + rows, t.S, ld), mono(IV(0), sm, ld), mono(IV(1), rows, ld)))
        g = self.g(e, st)
        if g is not None:
            for b in (self.og, self.Kp): st2.assume(mono(g + 1, self.G, b))
        e.obl(st2, z3.And(sm >= 0, sm < t.S, z3.Implies(z3.And(rows > 0, cols > 0), base + ld * (rows - 1) + cols <= t.N)), "%s: matrix lies inside its tensor" % e.fname, "precondition", n)
        return base
    # roles of the tensors: (name of first row, name of leading dimension)
    def h_gemm(self, e, st, n, oid, av):
        rm, ta, tb, M, N, K, al, A, smA, ldA, B, smB, ldB, be, C, smC, ldC = av
        A, B, C = [TensorView(e, st, x.oid) for x in (A, B, C)]
        if e.collect is not None: e.set_arr(st, C.buf, fresh("prod", ARR)); return OPAQUE
        role = lambda t: [r for r, x in (("W", self.W), ("dW", self.dW), ("B", self.B), ("col", self.col), ("sms", self.sms), ("sms2", self.sms2), ("dx", self.dx), ("ones", self.ones)) if x.buf == t.buf]
        rA, rB, rC = role(A), role(B), role(C)
        if not (rA and rB and rC): raise ExtractionError("unknown matrix operand")
        rows = {"W": ("g*og", "og", "Kp"), "dW": ("g*og", "og", "Kp"), "sms": ("g*og", "og", "P"), "sms2": ("g*og", "og", "P"), "col": ("g*Kp", "Kp", "P"), "dx": ("g*Kp", "Kp", "P"), "B": ("0", "OM", "1"), "ones": ("0", "1", "P")}
        def spec(r, x):
            s0, cnt, ld = rows[r[0]]
            if self.g(e, st) is None and r[0] in ("sms", "sms2"): s0, cnt = "0", "OM"
            return s0, cnt, ld
        sA, sB, sC = spec(rA, A), spec(rB, B), spec(rC, C)
        nm = lambda v, w: self.name(e, st, n, v, w)
        smA, smB, smC = nm(smA, sA[0]), nm(smB, sB[0]), nm(smC, sC[0])
        ldA, ldB, ldC = nm(ldA, sA[2]), nm(ldB, sB[2]), nm(ldC, sC[2])
        ta, tb, rm = [z3.is_true(z3.simplify(x)) for x in (ta, tb, rm)]
        if not rm: raise ExtractionError("column major product")
        M, N = nm(M, sC[1]), nm(N, sC[2])
        K = nm(K, {"W": "og" if ta else "Kp", "sms2": "P", "B": "1"}.get(rA[0], "P"))
        al, be = e.to_real(al), e.to_real(be)
        oa = self.mat(e, st, n, A, smA, ldA, K if ta else M, M if ta else K); ob = self.mat(e, st, n, B, smB, ldB, N if tb else K, K if tb else N); oc = self.mat(e, st, n, C, smC, ldC, M, N)
        Aa, Ba, Ca = A.a, B.a, C.a; sh = C.shape
        def val(q):
            i, j = sh.us(q) - smC, q - row0(sh, sh.us(q))
            pa, sa = (oa + i, ldA) if ta else (oa + i * ldA, IV(1)); pb, sb = (ob + j * ldB, IV(1)) if tb else (ob + j, ldB)
            r = al * DOT(Aa, pa, sa, Ba, pb, sb, K)
            if K.eq(IV(1)): r = al * (Aa[pa] * Ba[pb])
            return r if z3.is_rational_value(be) and be.as_fraction() == 0 else r + be * Ca[q]
        sel = lambda q: z3.And(0 <= q, q < sh.N, smC <= sh.us(q), sh.us(q) < smC + M)
        set_cells(e, st, C, sel, val)
        return OPAQUE
    def h_gemv(self, e, st, n, oid, av):
        rm, ta, M, N, al, A, smA, ldA, X, smX, ix, be, Y, smY, iy = av
        A, X, Y = [TensorView(e, st, x.oid) for x in (A, X, Y)]
        if A.buf != self.sms2.buf or X.buf != self.ones.buf or Y.buf != self.dB.buf: raise ExtractionError("unknown operand of GEMV")
        nm = lambda v, w: self.name(e, st, n, v, w)
        e.obl(st, z3.And(rm, z3.Not(ta), smA == 0, smX == 0, smY == 0, ix == 1, iy == 1), "%s: GEMV layout" % e.fname, "precondition", n)
        M, N, ldA = nm(M, "OM"), nm(N, "P"), nm(ldA, "P")
        oa = self.mat(e, st, n, A, IV(0), ldA, M, N); al, be = e.to_real(al), e.to_real(be); Aa, Xa, Ya = A.a, X.a, Y.a
        e.obl(st, z3.And(N <= X.N, M <= Y.N), "%s: GEMV vectors lie inside their tensors" % e.fname, "precondition", n)
        set_cells(e, st, Y, lambda q: z3.And(0 <= q, q < M), lambda q: al * DOT(Aa, oa + q * ldA, IV(1), Xa, IV(0), IV(1), N) + be * Ya[q])
        return OPAQUE
    def h_sms(self, e, st, n, oid, av):
        s, t = [TensorView(e, st, x.oid) for x in av[:2]]; sh, ss = t.shape, s.shape
        e.obl(st, z3.And(s.w == t.w, s.h == t.h, s.M == t.S, s.S == t.M, s.N > 0, t.N > 0), "%s: SMS shapes" % e.fname, "precondition", n)
        a = s.a
        set_cells(e, st, t, lambda q: z3.And(0 <= q, q < sh.N), lambda q: a[ss.off(sh.ux(q), sh.uy(q), sh.us(q), sh.um(q))])
        return OPAQUE
    def geo_ok(self, e, st, n, s, t, av):
        W, H, M, S, *g = av
        e.obl(st, z3.And([s.w == W, s.h == H, s.M == M, s.S == S] + [a == b for a, b in zip(g[:6], self.geo)]), "%s: kernel geometry is the layer's" % e.fname, "precondition", n)
        e.obl(st, z3.And(t.w == self.o.w, t.h == self.o.h, t.M == s.S, t.S == self.geo[0] * self.geo[1] * s.M), "%s: column buffer has the shape of the geometry" % e.fname, "precondition", n)
    def padded(self, sh, q):
        """image pixel unfolded into cell q of the column buffer, or zero (C08)"""
        kw, kh, sw, sv, pw, ph = self.geo; s = self.i.shape; A = self.Ai; r = sh.us(q)
        ix = sh.ux(q) * sw - pw + self.KX(r); iy = sh.uy(q) * sv - ph + self.KY(r)
        return z3.If(z3.And(0 <= ix, ix < self.i.w, 0 <= iy, iy < self.i.h), A[s.off(ix, iy, self.IMf(r), sh.um(q))], 0)
    KX, KY, IMf = [z3.Function(n, I, I) for n in ("kx", "ky", "imap")]   # r = (imap*kh + ky)*kw + kx
    def h_im2col(self, e, st, n, oid, av):
        s, t = TensorView(e, st, av[0].oid), TensorView(e, st, av[11].oid); self.geo_ok(e, st, n, s, t, av[1:11])
        if s.buf != self.i.buf: raise ExtractionError("IM2COL of another tensor")
        sh = t.shape; self.Ai = s.a
        set_cells(e, st, t, lambda q: z3.And(0 <= q, q < sh.N), lambda q: self.padded(sh, q))
        return OPAQUE
    def h_col2im(self, e, st, n, oid, av):
        s, t = TensorView(e, st, av[0].oid), TensorView(e, st, av[11].oid); self.geo_ok(e, st, n, s, t, av[1:11])
        a = t.a
        set_cells(e, st, s, lambda q: z3.And(0 <= q, q < s.N), lambda q: COLSUM(a, q))
        return OPAQUE
    def hints(self, e, L, st):
        g = ctr(e, st, L); q = z3.Int("i"); out = []
        for sp, sh in ((self.gs, self.sms.shape), (self.gk, self.col.shape), (self.go, self.W.shape)):
            # lemma split-4: the rows of group g are [g*n, g*n+n)
            n = sp.r
            out.append(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < sh.N), z3.And(g * n <= sh.us(q), sh.us(q) < g * n + n) == (sp.Q(q) == g)), patterns=[sp.Q(q)]))
            out += [mono(g + 1, self.G, n), mono(IV(0), g, n), (g + 1) * n == g * n + n]
        return out
    def groups_done(self, e, st, sps):
        q = z3.Int("i")
        for sp, sh in sps:
            # lemma split-5: every row belongs to one of the G groups
            st.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < sh.N), z3.And(0 <= sp.Q(q), sp.Q(q) < self.G)), patterns=[sp.Q(q)]))
            st.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < sh.N), seen(sp.Q(q))), patterns=[sh.us(q)]))

class FF(Conv):
    qual = "Conv::ConvolutionLayer::FeedForward"
    def setup(self, e, st):
        self.W0, self.i0 = self.W.a, self.i.a; sms = self.sms; sh = sms.shape
        self.groups_done(e, st, [(self.gs, sh)])
        col = self.col
        def R_(q, s2):
            C = e.arr(s2, col.buf); m = sh.us(q)
            return e.arr(s2, sms.buf)[q] == DOT(self.W0, row0(self.W.shape, m), IV(1), C, row0(col.shape, self.gs.Q(q) * self.Kp) + (q - row0(sh, m)), self.P, self.Kp)
        e.cells[sms.buf] = NestCells(e, sms.buf, inN(sms), R_, [self.gs.Q], "products")
    def post(self, e, st, ret, kind):
        o, sh, ss = self.o, self.o.shape, self.sms.shape; C = e.arr(st, self.col.buf); out = e.arr(st, o.buf); q = z3.Int("i"); Wd, Bd, In = self.W0, self.B.a, self.i0
        def val(q):
            m = sh.um(q); c = ss.off(sh.ux(q), sh.uy(q), sh.us(q), m)   # position (x, y, sample) among the columns
            return DOT(Wd, row0(self.W.shape, m), IV(1), C, row0(self.col.shape, self.gs.Q(c) * self.Kp) + (c - row0(ss, m)), self.P, self.Kp) + Bd[m]
        post(e, st, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < o.N), out[q] == val(q)), patterns=[out[q]]), "every output element is the bias plus the sum over its group's kernel elements of weight times column")
        sc = self.col.shape; self.Ai = In
        post(e, st, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < sc.N), C[q] == self.padded(sc, q)), patterns=[C[q]]), "the columns hold the zero-padded input pixels")
        for t in (self.i, self.W, self.B, self.ones): post(e, st, unchanged(e, st, t), "input and parameters unchanged")

class BP(Conv):
    qual = "Conv::ConvolutionLayer::BackPropagate"
    def setup(self, e, st):
        self.W0, self.C0 = self.W.a, self.col.a; dx, dW, s2_ = self.dx, self.dW, self.sms2; sx, sw, ss = dx.shape, dW.shape, s2_.shape
        self.bp = e.rd(st, ("f", "this", "backprop_enabled_"), BL)
        self.groups_done(e, st, [(self.gk, sx), (self.go, sw)])
        def Rx(q, t):
            D = e.arr(t, s2_.buf); r = sx.us(q); g = self.gk.Q(q)
            return e.arr(t, dx.buf)[q] == DOT(self.W0, row0(self.W.shape, g * self.og) + (r - g * self.Kp), self.Kp, D, row0(ss, g * self.og) + (q - row0(sx, r)), self.P, self.og)
        def Rw(q, t):
            D = e.arr(t, s2_.buf); m = sw.us(q); g = self.go.Q(q)
            return e.arr(t, dW.buf)[q] == DOT(D, row0(ss, m), IV(1), self.C0, row0(self.col.shape, g * self.Kp) + (q - row0(sw, m)) * self.P, IV(1), self.P)
        self.Rx, self.Rw = Rx, Rw
        e.cells[dx.buf] = NestCells(e, dx.buf, lambda q: z3.And(inN(dx)(q), self.bp), Rx, [self.gk.Q], "column gradients")
        e.cells[dW.buf] = NestCells(e, dW.buf, inN(dW), Rw, [self.go.Q], "weight gradients")
    def post(self, e, st, ret, kind):
        ss, so = self.sms2.shape, self.od.shape; D = e.arr(st, self.sms2.buf); OD = self.od.a; q = z3.Int("i")
        post(e, st, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < ss.N), D[q] == OD[so.off(ss.ux(q), ss.uy(q), ss.us(q), ss.um(q))]), patterns=[D[q]]), "the gradient matrix holds the output gradients by map")
        A = e.arr(st, self.dW.buf)
        post(e, st, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < self.dW.N), self.Rw(q, st)), patterns=[A[q]]), "every weight gradient is the sum over all positions of output gradient times the pixel the weight saw")
        A = e.arr(st, self.dB.buf); ON = self.ones.a
        post(e, st, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < self.OM), A[q] == DOT(D, row0(ss, q), IV(1), ON, IV(0), IV(1), self.P)), patterns=[A[q]]), "every bias gradient is the sum of its map's output gradients")
        X = e.arr(st, self.dx.buf); Di = e.arr(st, self.d.buf)
        post(e, st, z3.Implies(self.bp, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < self.dx.N), self.Rx(q, st)))), "every column gradient is the sum over its group's maps of weight times output gradient")
        post(e, st, z3.Implies(self.bp, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < self.d.N), Di[q] == COLSUM(X, q)))), "every input gradient is the sum of the column gradients its pixel was unfolded to")
        for t in (self.i, self.W, self.B, self.ones, self.od, self.col): post(e, st, unchanged(e, st, t), "data, parameters and output gradient unchanged")

class Create(CreateOutputs):
    qual = "Conv::ConvolutionLayer::CreateOutputs"
    def setup(self, e, st):
        self.f = {n: fld(e, st, n) for n in ("kernel_width_", "kernel_height_", "stride_width_", "stride_height_", "pad_width_", "pad_height_", "group_", "output_maps_")}; f = self.f
        st.assume(z3.And([z3.And(v < 2 ** 24, v >= 0) for n, v in f.items()]))
        for _, t in self.ins: st.assume(z3.And(t.M < 2 ** 24, t.S < 2 ** 24))
    def size(self, t):
        f = self.f; return (2 * f["pad_width_"] + t.w - f["kernel_width_"], 2 * f["pad_height_"] + t.h - f["kernel_height_"])
    def ok(self, e, ts):
        a, b = self.size(ts[0]); f = self.f
        # a kernel that exceeds the padded input by less than one stride is rejected by Connect
        return z3.And([f[n] > 0 for n in ("kernel_width_", "kernel_height_", "stride_width_", "stride_height_", "group_")] + [f["output_maps_"] % f["group_"] == 0, a > -f["stride_width_"], b > -f["stride_height_"]])
    def dims(self, e, ts):
        t = ts[0]; a, b = self.size(t); f = self.f
        n = lambda v, s: z3.If(v >= 0, v / s, 0) + 1
        return [(t.S, n(a, f["stride_width_"]), n(b, f["stride_height_"]), f["output_maps_"])]
    def post(self, e, st, ret, kind):
        CreateOutputs.post(self, e, st, ret, kind)
        r = z3.simplify(e.to_bool(ret)); 
        if z3.is_true(r): post(e, st, self.ins[0][1].M % self.f["group_"] == 0, "accepted only if the groups divide the input maps")

class Connect(LayerConnect):
    qual = "Conv::ConvolutionLayer::Connect"; ones = ("ones_",)
    def setup(self, e, st):
        f = self.f = {n: fld(e, st, n) for n in ("kernel_width_", "kernel_height_", "stride_width_", "stride_height_", "pad_width_", "pad_height_", "group_", "output_maps_")}
        st.assume(z3.And([z3.And(v < 2 ** 24, v >= (0 if "pad" in n else 1)) for n, v in f.items()])); i = self.t[0]
        G = f["group_"]; self.ig = z3.Int("maps_in_per_group"); self.cols = z3.Int("column_rows"); self.P = z3.Int("positions"); o = self.t[1]
        for a in (i.M == G * self.ig, self.ig > 0, self.ig == i.M / G): e.axioms.append(a)   # CreateOutputs accepted the input
    def ok(self, e, i, o):
        f = self.f; a, b = 2 * f["pad_width_"] + i.w - f["kernel_width_"], 2 * f["pad_height_"] + i.h - f["kernel_height_"]
        return z3.And(a >= 0, b >= 0, o.w == a / f["stride_width_"] + 1, o.h == b / f["stride_height_"] + 1)
    def scalars(self, e, i, o): return {"input_maps_": i.M, "input_width_": i.w, "input_height_": i.h, "output_width_": o.w, "output_height_": o.h}
    def buffers(self, e, i, o):
        f = self.f; K = f["kernel_width_"] * f["kernel_height_"] * i.M; one = IV(1)
        return {"im2col_ff_buffer": (K, o.w, o.h, i.S), "bp_deltax_buffer": (K, o.w, o.h, i.S), "sms_ff_buffer": (f["output_maps_"], o.w, o.h, i.S), "sms2_bp_buffer": (f["output_maps_"], o.w, o.h, i.S),
                "ones_": (one, o.w * o.h * i.S, one, one), "dropout_mask_": (i.S, f["output_maps_"], one, one)}
    def params(self, e, i, o):
        f = self.f; return [("weights_", (f["output_maps_"], f["kernel_width_"], f["kernel_height_"], self.ig), 0), ("bias_", (IV(1), f["output_maps_"], IV(1), IV(1)), 0)]

def FNS(): return [SimpleConnect(), Connect(), Create(), FF(), BP()]
def LEMMAS():
    u, n, g, q, m, G, a, b, k = z3.Ints("u n g q m G a b k")
    return layout_lemmas() + block_lemmas() + split_lemmas() + [
        ("div-exact", [G > 0, a == G * b, (a / G) * G <= a, a < (a / G) * G + G, mono(b + 1, a / G, G), mono(a / G + 1, b, G)], a / G == b),
        ("split-4: the rows of group g are [g*n, g*n+n)", [n > 0, u == n * q + m, 0 <= m, m < n, mono(g + 1, q, n), mono(q + 1, g, n)], z3.And(g * n <= u, u < g * n + n) == (q == g)),
        ("split-5: every row belongs to one of the groups", [n > 0, 0 <= u, u < G * n, u == n * q + m, 0 <= m, m < n, mono(G, q, n), mono(q + 1, 0, n)], z3.And(0 <= q, q < G))]
