"""C28: configuration text: the value behind a key, absent keys, layer descriptions, the layers made from them."""
from lib import *
from strs import *
SOURCES = ["src/util/ConfigParsing.cpp", "src/factory/ConfigurableFactory.cpp"] + ["src/net/%s.cpp" % n for n in ("LayerFactory", "ConvolutionLayer", "MaxPoolingLayer", "AdvancedMaxPoolingLayer", "ResizeLayer", "HMaxActivationFunction", "GradientAccumulationLayer", "InputDownSamplingLayer", "UpscaleLayer", "LocalResponseNormalizationLayer", "ErrorLayer")]

class Str(Fn):
    engine = StrEngine
    def names(self, e): return [p.get("name", "?") for p in params(e.node)]
    def arg(self, e, k): return e.param[self.names(e)[k]]
    def out(self, e, st, k): return e.rd(st, ("p", self.names(e)[k]))      # reference parameter
    def out0(self, e, k): return e.init[("p", self.names(e)[k])]

def u32(v): return z3.If(v >= 0, v, v + 2 ** 32)

class StartsWith(Str):
    qual = "Conv::StartsWithIdentifier"
    def post(self, e, st, ret, kind): post(e, st, ret == z3.PrefixOf(self.arg(e, 1), self.arg(e, 0)), "true exactly for a line that begins with the identifier")

class Line(Str):
    """key=value at the start of a line: the value is the rest of the line"""
    def pre(self, e, st):
        self.l, self.k = self.arg(e, 0), self.arg(e, 1); self.key = z3.Concat(self.k, lit("=")); self.has = z3.PrefixOf(self.key, self.l)
        n = z3.Length(self.key); self.txt = z3.SubString(self.l, n, z3.Length(self.l) - n)
class LineV(Line):
    def post(self, e, st, ret, kind): post(e, st, self.out(e, st, 2) == z3.If(self.has, self.val(self.txt), self.out0(e, 2)), "the value written behind the key, unchanged if the line does not state the key")
class LineS(LineV):
    qual = "Conv::ParseStringIfPossible"
    def val(self, t): return t
class LineD(LineV):
    qual = "Conv::ParseDatumIfPossible"
    def val(self, t): return NUM(t)
class LineU(LineV):
    qual = "Conv::ParseUIntIfPossible"
    def val(self, t): return u32(ATOI(t))

def idchar(c): return z3.Or(alnum(c), c == 95)
class Param(Str):
    """key=value among the space-separated parameters of a line; K is the position of the key (-1: none)"""
    def handlers(self): return {} if self.qual == "Conv::FindParam" else {"Conv::FindParam": h_find(self)}
    def pre(self, e, st):
        l, k = self.l, self.k = self.arg(e, 0), self.arg(e, 1); self.key = z3.Concat(k, lit("=")); n = self.n = z3.Length(self.key); q = z3.Int("q")
        st.assume(z3.Not(z3.Contains(k, lit(" ")))); st.assume(z3.Length(l) < 2 ** 63)
        self.at = lambda q: z3.And(AT(l, self.key, q), z3.Or(q == 0, z3.Not(idchar(CHR(l, q - 1)))))
        K = self.K = z3.Int("key_position")
        st.assume(z3.Or(z3.And(K == -1, z3.ForAll([q], z3.Implies(q >= 0, z3.Not(self.at(q))), patterns=[AT(l, self.key, q)])),
                        z3.And(K >= 0, self.at(K), z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < K), z3.Not(self.at(q))), patterns=[AT(l, self.key, q)]))))
        # a key stands inside the line and has no space in it, so the first space from its position on is behind it
        E0 = z3.IndexOf(l, lit(" "), K); st.assume(z3.Implies(K >= 0, z3.And(K + n <= z3.Length(l), z3.Or(E0 < 0, E0 >= K + n))))
        p, m, s, t = z3.Int("p"), z3.Int("m"), z3.String("s"), z3.String("t")
        e.obls.append(Obl("%s: lemma: the first space at or behind a text without spaces is behind the text" % self.label(), [0 <= p, p + z3.Length(t) <= z3.Length(s), z3.SubString(s, p, z3.Length(t)) == t, z3.Not(z3.Contains(t, lit(" ")))],
                          z3.Or(z3.IndexOf(s, lit(" "), p) < 0, z3.IndexOf(s, lit(" "), p) >= p + z3.Length(t)), "lemma"))
        self.E = z3.If(E0 < 0, z3.Length(l), E0); self.E0 = E0
        self.txt = z3.SubString(l, K + n, self.E - (K + n))
    def loop_inv(self, e, L, st):
        pos = [e.rd(st, q) for q, (o, nv) in L.scal.items() if isinstance(nv, z3.ExprRef) and nv.sort() == I]
        if len(pos) != 1: raise ExtractionError("search for the key not recognised")
        r = pos[0]; q = z3.Int("q")
        return [("no whole key before the position reached", z3.And(0 <= r, z3.Or(r == NPOS, z3.And(AT(self.l, self.key, r), r + self.n <= z3.Length(self.l))), z3.ForAll([q], z3.Implies(z3.And(0 <= q, z3.Or(r == NPOS, q < r)), z3.Not(self.at(q))), patterns=[AT(self.l, self.key, q)])))]
class Find(Param):
    """the search for the key, where the code has it as a function of its own"""
    qual = "Conv::FindParam"
    def post(self, e, st, ret, kind): post(e, st, ret == z3.If(self.K >= 0, self.K, NPOS), "the position of the key, npos if it is absent")
def h_find(c):
    def h(e, st, n, oid, av):
        if not (av[0].eq(c.l) and av[1].eq(c.k)): return NotImplemented
        return z3.If(c.K >= 0, c.K, IV(NPOS))
    return h
class ParamV(Param):
    def post(self, e, st, ret, kind): post(e, st, self.out(e, st, 2) == z3.If(self.K >= 0, self.val(self.txt), self.out0(e, 2)), "the value written behind the key, unchanged if the key is absent")
class ParamS(ParamV):
    qual = "Conv::ParseStringParamIfPossible"
    def val(self, t): return t
class ParamD(ParamV):
    qual = "Conv::ParseDatumParamIfPossible"
    def val(self, t): return NUM(t)
class ParamU(ParamV):
    qual = "Conv::ParseCountIfPossible"
    def val(self, t): return u32(ATOI(t))
class Kernel(Param):
    qual = "Conv::ParseKernelSizeIfPossible"
    def pre(self, e, st):
        Param.pre(self, e, st); l = self.l; B = self.K + self.n; X = self.X = z3.IndexOf(l, lit("x"), B); p, q, s = z3.Int("p"), z3.Int("q"), z3.String("s"); sp = lit(" ")
        lem = lambda s, p, q: z3.Implies(z3.And(0 <= p, p <= q, q <= z3.Length(s), z3.Or(z3.IndexOf(s, sp, p) < 0, z3.IndexOf(s, sp, p) >= q)), z3.IndexOf(s, sp, q) == z3.IndexOf(s, sp, p))
        e.obls.append(Obl("%s: lemma: searching from further on, but not past the first space, finds the same space" % self.label(), [], lem(s, p, q), "lemma"))
        st.assume(lem(l, self.K, X)); self.two = z3.And(self.K >= 0, X >= 0, X < self.E)
        self.sx = z3.SubString(l, B, X - B); self.sy = z3.SubString(l, X + 1, self.E - (X + 1))
    def post(self, e, st, ret, kind):
        for k, t, nm in ((2, self.sx, "first"), (3, self.sy, "second")):
            post(e, st, z3.Implies(self.two, self.out(e, st, k) == u32(ATOI(t))), "the %s number of the value" % nm)
            post(e, st, z3.Implies(z3.Not(self.two), self.out(e, st, k) == self.out0(e, k)), "%s number unchanged if the key is absent or its value is not of the form AxB" % nm)


# ---------------------------------------------------------------- settings of a network configuration
HAS = z3.Function("states", S, S, B); VALUE = z3.Function("value_of", S, S, S); TWO = z3.Function("states_two_numbers", S, S, B)
VX, VY = z3.Function("first_number_of", S, S, I), z3.Function("second_number_of", S, S, I)
def h_if(has, val):
    """a Parse...IfPossible function by its contract: what the line states for the key replaces the variable's value"""
    def h(e, st, n, oid, av):
        lv = e.ev(e.inner(n)[3], st); old = e.load(st, lv, n); e.store(st, lv, z3.If(has(av[0], av[1]), val(av[0], av[1]), old), n); return OPAQUE
    return h
def h_two(e, st, n, oid, av):
    for k, f in ((3, VX), (4, VY)):
        lv = e.ev(e.inner(n)[k], st); e.store(st, lv, z3.If(TWO(av[0], av[1]), f(av[0], av[1]), e.load(st, lv, n)), n)
    return OPAQUE
PHAS = z3.Function("states_parameter", S, S, B); PVALUE = z3.Function("parameter_of", S, S, S)
PARSE = {"Conv::ParseDatumIfPossible": h_if(HAS, lambda l, k: NUM(VALUE(l, k))), "Conv::ParseUIntIfPossible": h_if(HAS, lambda l, k: u32(ATOI(VALUE(l, k)))), "Conv::ParseStringIfPossible": h_if(HAS, VALUE),
         "Conv::ParseDatumParamIfPossible": h_if(PHAS, lambda l, k: NUM(PVALUE(l, k))), "Conv::ParseCountIfPossible": h_if(PHAS, lambda l, k: u32(ATOI(PVALUE(l, k)))), "Conv::ParseStringParamIfPossible": h_if(PHAS, PVALUE),
         "Conv::ParseKernelSizeIfPossible": h_two}

SET = {"l1": ("l1_weight", R), "l2": ("l2_weight", R), "lr": ("learning_rate", R), "gamma": ("gamma", R), "momentum": ("momentum", R), "exponent": ("exponent", R), "eta": ("eta", R), "mu": ("mu", R),
       "iterations": ("iterations", I), "sbatchsize": ("sbatchsize", I), "pbatchsize": ("pbatchsize", I)}
class Settings(Str):
    qual = "Conv::ConfigurableFactory::InitOptimalSettings"
    assumptions = ("the configuration file is read line by line: eof() holds once the last line was read",)
    def handlers(self):
        def getline(e, st, n, oid, args):
            i = e.rd(st, self.pos); e.store(st, e.ev(args[1], st), self.line(i), n); e.wr(st, self.pos, i + 1); return OPAQUE
        def seekg(e, st, n, bv, args): e.wr(st, self.pos, IV(0)); return OPAQUE
        return dict(PARSE, **{"std::getline": getline, "method:eof": lambda e, st, n, bv, args: e.rd(st, self.pos) >= self.n, "method:seekg": seekg, "method:clear": lambda e, st, n, bv, args: OPAQUE})
    def pre(self, e, st):
        self.pos = ("f", "this", "$line"); e.init[self.pos] = fresh("old_position", I); self.n = z3.Int("lines"); st.assume(self.n >= 1); self.line = z3.Function("line_of_file", I, S); i = z3.Int("i")
        self.comment = lambda i: z3.PrefixOf(lit("#"), self.line(i)); self.F = {}
        o = ("fld", "this", "optimal_settings_"); GD, QP = [IV(e.enumval([k for k, nd in e.tu.byid.items() if nd.get("kind") == "EnumConstantDecl" and nd.get("name") == nm][0], nm)) for nm in ("GRADIENT_DESCENT", "QUICKPROP")]
        for k, (f, s) in list(SET.items()) + [("optimization", ("optimization_method", I))]:
            key = ("f", o, f); F = z3.Function("after_lines_" + f, I, s); self.F[key] = (F, f); v0 = e.rd(st, key, RL if s == R else I32 if k == "optimization" else U32); v = VALUE(self.line(i), lit(k)); has = HAS(self.line(i), lit(k))
            new = z3.If(has, NUM(v) if s == R else u32(ATOI(v)), F(i)) if k != "optimization" else z3.If(z3.And(has, z3.PrefixOf(lit("gradient_descent"), v)), GD, z3.If(z3.And(has, z3.PrefixOf(lit("quickprop"), v)), QP, F(i)))
            st.assume(F(0) == v0); st.assume(z3.ForAll([i], F(i + 1) == z3.If(self.comment(i), F(i), new), patterns=[F(i + 1)]))
    def loop_inv(self, e, L, st):
        i = e.rd(st, self.pos)
        return [("position in the file", z3.And(0 <= i, i <= self.n))] + [("%s states what the lines read so far state" % f, e.rd(st, k) == F(i)) for k, (F, f) in self.F.items()]
    def post(self, e, st, ret, kind):
        for k, (F, f) in self.F.items(): post(e, st, e.rd(st, k) == F(self.n), "%s is what the last line stating it says, unchanged if there is none" % f)

# ---------------------------------------------------------------- layer descriptions
LOW = z3.Plus(z3.Range("a", "z")); ALNUM = z3.Union(z3.Range("a", "z"), z3.Range("A", "Z"), z3.Range("0", "9"), z3.Re("."))
KV = z3.Concat(LOW, z3.Re("="), z3.Plus(ALNUM)); KVS = z3.Concat(KV, z3.Star(z3.Concat(z3.Re(" "), KV)))
VALID = z3.Union(LOW, z3.Concat(LOW, z3.Re("()")), z3.Concat(LOW, z3.Re("("), KVS, z3.Re(")")))
def lparen(d): return z3.IndexOf(d, lit("("), 0)
def dtype(d): return z3.If(lparen(d) < 0, d, z3.SubString(d, 0, lparen(d)))
def dconf(d): return z3.If(lparen(d) < 0, lit(""), z3.SubString(d, lparen(d) + 1, z3.Length(d) - lparen(d) - 2))
LF = "Conv::LayerFactory::"
class Valid(Str):
    qual = LF + "IsValidDescriptor"
    def post(self, e, st, ret, kind): post(e, st, ret == z3.InRe(self.arg(e, 0), VALID), "true exactly for a layer type, optionally followed by parentheses around key=value pairs separated by single spaces")
class ExType(Str):
    qual = LF + "ExtractLayerType"
    def pre(self, e, st): st.assume(z3.InRe(self.arg(e, 0), VALID))
    def post(self, e, st, ret, kind):
        s, g, d, lp = z3.String("s"), z3.String("g"), self.arg(e, 0), lit("(")
        lem1 = lambda g: z3.Implies(z3.InRe(g, LOW), z3.Not(z3.Contains(g, lp)))
        lem2 = lambda s, g: z3.Implies(z3.And(z3.PrefixOf(g, s), z3.Not(z3.Contains(g, lp)), z3.Or(s == g, z3.PrefixOf(z3.Concat(g, lp), s))), dtype(s) == g)
        for k, (hy, l) in enumerate(((1, lem1(g)), (2, lem2(s, g)))): e.obls.append(Obl("%s: lemma %d: a prefix without parenthesis before the first parenthesis" % (self.label(), k + 1), [], l, "lemma"))
        for goal, nm in ((z3.InRe(ret, LOW), "the type is lower-case letters"), (z3.Or(d == ret, z3.PrefixOf(z3.Concat(ret, lp), d)), "a parenthesis or nothing is behind it")): post(e, st, goal, nm); st.assume(goal)
        s2 = State(); s2.pc = [lem1(ret), lem2(d, ret), z3.InRe(ret, LOW), z3.Or(d == ret, z3.PrefixOf(z3.Concat(ret, lp), d))]
        post(e, s2, z3.PrefixOf(ret, d), "the type begins the description"); s2.assume(z3.PrefixOf(ret, d)); post(e, s2, ret == dtype(d), "what stands before the parentheses")
class ExConf(ExType):
    qual = LF + "ExtractConfiguration"
    def post(self, e, st, ret, kind): post(e, st, ret == dconf(self.arg(e, 0)), "what stands inside the parentheses")
TYPES = {"convolution": "ConvolutionLayer", "maxpooling": "MaxPoolingLayer", "amaxpooling": "AdvancedMaxPoolingLayer", "tanh": "TanhLayer", "sigm": "SigmoidLayer", "relu": "ReLULayer",
         "gradientaccumulation": "GradientAccumulationLayer", "resize": "ResizeLayer", "hmax": "HMaxActivationFunction"}
class Construct(Str):
    qual = LF + "ConstructLayer"
    def handlers(self):
        OKD, TY, CF = self.f = [z3.Function(n, S, s) for n, s in (("valid_descriptor", B), ("type_of", S), ("configuration_of", S))]
        def part(f):
            def h(e, st, n, oid, av): e.obl(st, OKD(av[0]), "%s: only valid descriptors are taken apart" % e.fname, "precondition", n); return f(av[0])
            return h
        def ctor(c):
            def h(e, st, n, oid, av): e.wr(st, ("f", oid, "$class"), lit(c)); e.wr(st, ("f", oid, "$conf"), av[0]); return OPAQUE
            return h
        return dict({"Conv::%s::%s" % (c, c): ctor(c) for c in TYPES.values()}, **{LF + "IsValidDescriptor": lambda e, st, n, oid, av: OKD(av[0]), LF + "ExtractLayerType": part(TY), LF + "ExtractConfiguration": part(CF)})
    def post(self, e, st, ret, kind):
        OKD, TY, CF = self.f; d = self.arg(e, 0); known = z3.And(OKD(d), z3.Or([TY(d) == lit(t) for t in TYPES]))
        post(e, st, known == z3.Not(ret.null), "a layer is made exactly for valid descriptions of known types")
        if ret.kind == "obj":
            c = st.store[("f", ret.target, "$class")]; post(e, st, z3.Implies(z3.Not(ret.null), z3.Or([z3.And(TY(d) == lit(t), c == lit(n)) for t, n in TYPES.items()])), "the layer is of the type described"); post(e, st, z3.Implies(z3.Not(ret.null), st.store[("f", ret.target, "$conf")] == CF(d)), "the layer is given the configuration described")

class Ctor(Str):
    """a layer made from a configuration: key -> (fields, what an absent key leaves)"""
    extra = {}
    def node(self, prog):
        c = [n for n in prog.byqual.get("Conv::%s::%s" % (self.cls, self.cls), []) if len(params(n)) == 1 and strtype(ctype(params(n)[0]))]
        if len(c) != 1: raise ExtractionError("constructor of %s from a configuration not found" % self.cls)
        return c[0]
    def label(self): return "%s::%s(configuration)" % (self.cls, self.cls)
    def handlers(self):
        def seed(e, st, n, bv, args): e.wr(st, ("f", "this", "$seed"), e.rv(args[0], st)); return OPAQUE
        return dict(PARSE, **{"method:seed": seed})
    def pre(self, e, st):
        self.member_init = self.minit; e.init[("f", "this", "$seed")] = IV(5489)
    def minit(self, e, st, oid, name, args):
        if len(args) == 1 and is_int(args[0]): e.wr(st, ("f", "this", "$seed"), args[0] % 2 ** 32)   # the engine keeps 32 bits of a seed
    def post(self, e, st, ret, kind):
        c = self.arg(e, 0)
        for f, ty, want in self.spec(c): post(e, st, e.rd(st, ("f", "this", f), ty) == want, "%s is what the configuration states" % f.strip("_$").replace("_", " "))
def two(c, k, d): return [z3.If(TWO(c, lit(k)), F(c, lit(k)), v) for F, v in zip((VX, VY), d if isinstance(d, tuple) else (d, d))]
def cnt(c, k, d): return z3.If(PHAS(c, lit(k)), u32(ATOI(PVALUE(c, lit(k)))), d)
def num(c, k, d): return z3.If(PHAS(c, lit(k)), NUM(PVALUE(c, lit(k))), d)
class ConvC(Ctor):
    cls = "ConvolutionLayer"
    def spec(self, c):
        (kx, ky), (sx, sy), (px, py) = two(c, "size", 0), two(c, "stride", 1), two(c, "pad", 0)
        return [("kernel_width_", U32, kx), ("kernel_height_", U32, ky), ("stride_width_", U32, sx), ("stride_height_", U32, sy), ("pad_width_", U32, px), ("pad_height_", U32, py), ("output_maps_", U32, cnt(c, "kernels", 0)), ("group_", U32, cnt(c, "group", 1)),
                ("dropout_fraction_", RL, num(c, "dropout", 0)), ("local_lr_", RL, num(c, "llr", 1))]
    def post(self, e, st, ret, kind):
        Ctor.post(self, e, st, ret, kind); s = e.rd(st, ("f", "this", "$seed"), U32)
        # known finding seed-ignored: the description's seed never reaches the generator, which starts from its default
        post(e, st, z3.Or(s == 5489, s == cnt(self.arg(e, 0), "seed", 0)), "the generator has the seed stated or its default")
class MaxC(Ctor):
    cls = "MaxPoolingLayer"
    def spec(self, c): x, y = two(c, "size", 1); return [("region_width_", U32, x), ("region_height_", U32, y)]
class AMaxC(Ctor):
    cls = "AdvancedMaxPoolingLayer"
    def spec(self, c): x, y = two(c, "size", 1); a, b = two(c, "stride", (x, y)); return [("region_width_", U32, x), ("region_height_", U32, y), ("stride_width_", U32, a), ("stride_height_", U32, b)]
class ResC(Ctor):
    cls = "ResizeLayer"
    def spec(self, c): x, y = two(c, "border", 0); return [("borderx_", U32, x), ("bordery_", U32, y)]
class HMaxC(Ctor):
    cls = "HMaxActivationFunction"
    def spec(self, c): return [("mu_", RL, num(c, "mu", 1)), ("loss_weight_", RL, num(c, "weight", 0))]
class GradC(Ctor):
    cls = "GradientAccumulationLayer"
    def spec(self, c): return [("output_count_", U32, cnt(c, "outputs", 0))]

class Direct(Ctor):
    """a layer made from values, as the network factory makes them: fields in the order of the parameters"""
    def __init__(self, cls, fields, refuse=None): self.cls, self.fields, self.refuse = cls, fields, refuse
    def node(self, prog):
        c = [n for n in prog.byqual.get("Conv::%s::%s" % (self.cls, self.cls), []) if len(params(n)) == len(self.fields)and not any(strtype(ctype(p)) for p in params(n)) and any(x.get("kind") == "CompoundStmt" for x in n.get("inner", []))]
        if len(c) != 1: raise ExtractionError("constructor of %s from values not found" % self.cls)
        return c[0]
    def label(self): return "%s::%s(values)" % (self.cls, self.cls)
    def pre(self, e, st):
        Ctor.pre(self, e, st)
        if self.cls.startswith("HMax"): st.assume(z3.Not(e.rd(st, ("g", "stat_aggregator"), T("ptr", el=T("struct", name="StatAggregator"))).null))   # System::Init has run
        self.v = [self.arg(e, k) for k in range(len(self.fields))]
    def handlers(self): return {"Conv::StatAggregator::RegisterStat": lambda e, st, n, oid, av: z3.FreshConst(z3.IntSort())}
    def post(self, e, st, ret, kind):
        for f, v in zip(self.fields, self.v): post(e, st, e.rd(st, ("f", "this", f), RL if z3.is_real(v) else U32) == (u32(v) if f == "$seed" else v), "%s is the value given" % f.strip("_$").replace("_", " "))
DIRECT = [("MaxPoolingLayer", ["region_width_", "region_height_"]), ("AdvancedMaxPoolingLayer", ["region_width_", "region_height_", "stride_width_", "stride_height_"]), ("InputDownSamplingLayer", ["region_width_", "region_height_"]), ("UpscaleLayer", ["region_width_", "region_height_"]), ("ResizeLayer", ["borderx_", "bordery_"]),
          ("LocalResponseNormalizationLayer", ["size_", "alpha_", "beta_", "normalization_method_"]), ("GradientAccumulationLayer", ["output_count_"]), ("ErrorLayer", ["loss_weight_"]), ("HMaxActivationFunction", ["mu_", "loss_weight_"]),
          ("ConvolutionLayer", ["kernel_width_", "kernel_height_", "output_maps_", "stride_width_", "stride_height_", "pad_width_", "pad_height_", "group_", "$seed", "dropout_fraction_"])]
PARSERS = [StartsWith, LineS, LineD, LineU, Find, ParamS, ParamD, ParamU, Kernel]
def FNS(): return [c() for c in PARSERS + [Settings, Valid, ExType, ExConf, Construct, ConvC, MaxC, AMaxC, ResC, HMaxC, GradC]] + [Direct(*d) for d in DIRECT]
