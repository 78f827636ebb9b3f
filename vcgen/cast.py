"""Loads the typed clang AST of the real sources (JSON) and indexes it.

Every run calls clang on /repo's current working tree with the reference-build configuration, so what is
verified is what the reference build compiles (macros expanded, overloads and implicit conversions resolved
by clang).  Dropped: `#pragma omp` (loops are verified sequentially), code under other configurations'
#ifdefs (BLAS, OpenCL, MKL), comments.
"""
import json, os, subprocess, concurrent.futures as cf, hashlib

REPO = os.environ.get("VERIF_REPO", "/repo")
FLAGS = ["-std=c++11", "-DBUILD_POSIX", "-DBUILD_LINUX", "-DBUILD_PNG", "-DBUILD_JPG", "-w"] + \
    ["-I%s/%s" % (REPO, p) for p in ("include", "include/cn24", "include/cn24/util", "include/cn24/net",
                                     "include/cn24/math", "include/cn24/factory", "include/private")]

class ExtractionError(Exception):
    pass

FUNCK = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl")

def _dump(path):
    cmd = ["clang++"] + FLAGS + ["-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=Conv", path]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise ExtractionError("clang failed on %s: %s" % (path, r.stderr[-400:]))
    s = r.stdout
    dec = json.JSONDecoder(); i = 0; out = []
    n = len(s)
    while True:
        i = s.find("{", i)
        if i < 0: break
        o, i = dec.raw_decode(s, i)
        out.append(o)
    return out

class TU:
    """One translation unit: id -> node, and qualified names."""
    def __init__(self, path):
        self.path = path
        self.byid = {}
        self.qual = {}     # id -> qualified name
        self.parent = {}   # id -> record name
        tops = _dump(path)
        for t in tops:
            self._walk(t, "", None)

    def _walk(self, n, q, fn):
        k = n.get("kind"); i = n.get("id")
        if i is not None:
            old = self.byid.get(i)
            if old is None or (n.get("inner") and not old.get("inner")):
                self.byid[i] = n
        nq = q
        if k in ("NamespaceDecl", "CXXRecordDecl", "EnumDecl", "ClassTemplateSpecializationDecl") and n.get("name"):
            nq = q + "::" + n["name"] if q else n["name"]
            self.qual[i] = nq
        elif k in FUNCK or k in ("FieldDecl", "VarDecl", "EnumConstantDecl"):
            par = n.get("parentDeclContextId")
            base = self.qual.get(par, q) if par else q
            self.qual[i] = (base + "::" if base else "") + (n.get("name") or "?")
            n["_tu"] = self
            if k in FUNCK:
                nq = self.qual[i]
        for c in n.get("inner", ()):
            if c: self._walk(c, nq, fn)

def omp_loops(path):
    """byte offsets of the for loops under an OpenMP directive in one source file -> clauses of the directive; the pragma is
    seen only with -fopenmp, the loop is then found by its offset in the AST of the ordinary build"""
    r = subprocess.run(["clang++"] + FLAGS + ["-fopenmp", "-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=Conv", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0: raise ExtractionError("clang -fopenmp failed on %s: %s" % (path, r.stderr[-400:]))
    s = r.stdout; dec = json.JSONDecoder(); i = 0; out = {}; src = open(path, encoding="latin-1").read()
    def find_for(n):
        if n.get("kind") == "ForStmt": return n
        for c in n.get("inner", ()):
            if c:
                f = find_for(c)
                if f is not None: return f
    def go(n, fn):
        k = n.get("kind", "")
        if k in FUNCK: fn = n.get("name")
        if k.startswith("OMP") and k.endswith("Directive"):
            r = n["range"]; text = src[r["begin"]["offset"]:r["end"]["offset"] + r["end"].get("tokLen", 1)]
            clauses = text[text.index("for") + 3:].strip()
            if k != "OMPParallelForDirective": raise ExtractionError("OpenMP directive %s in %s" % (k, fn))
            f = find_for(n); out[f["range"]["begin"]["offset"]] = (fn, clauses)
            return
        for c in n.get("inner", ()):
            if c: go(c, fn)
    while True:
        i = s.find("{", i)
        if i < 0: break
        o, i = dec.raw_decode(s, i); go(o, None)
    return out

def has_body(n):
    return any(c and c.get("kind") == "CompoundStmt" for c in n.get("inner", ()))

class Program:
    def __init__(self, sources):
        self.tus = []
        self.funcs = {}    # mangled -> node with body
        self.byqual = {}   # qualified -> [nodes]
        self.records = {}  # qualified record name -> {field: (type, init node, tu)}, bases
        with cf.ThreadPoolExecutor(8) as ex:
            tus = list(ex.map(TU, [os.path.join(REPO, s) for s in sources]))
        for t in tus: self.add(t)

    def add(self, tu):
        self.tus.append(tu)
        for i, n in tu.byid.items():
            k = n.get("kind")
            if k in FUNCK and has_body(n):
                m = n.get("mangledName") or tu.qual.get(i)
                if m not in self.funcs:
                    self.funcs[m] = n
                    self.byqual.setdefault(tu.qual[i], []).append(n)
            elif k == "CXXRecordDecl" and n.get("completeDefinition"):
                q = tu.qual.get(i)
                if q and q not in self.records:
                    fields = {}
                    for c in n.get("inner", ()):
                        if c and c.get("kind") == "FieldDecl":
                            init = [x for x in c.get("inner", ()) if x and "Comment" not in x.get("kind", "")]
                            fields[c["name"]] = (ctype(c), init[0] if init else None, tu)
                    bases = [b["type"].get("desugaredQualType", b["type"]["qualType"]) for b in n.get("bases", ())]
                    self.records[q] = (fields, bases)

    def all_fields(self, q):
        q = norm_rec(q)
        if q not in self.records: return None
        f, bases = self.records[q]
        out = {}
        for b in bases:
            sub = self.all_fields(b if b.startswith("Conv::") else "Conv::" + b)
            if sub: out.update(sub)
        out.update(f)
        return out

    def find(self, qual, nparams=None):
        c = self.byqual.get(qual, [])
        if nparams is not None:
            c = [n for n in c if len(params(n)) == nparams]
        if not c: raise ExtractionError("function %s not found" % qual)
        if len(c) > 1: raise ExtractionError("function %s ambiguous (%d)" % (qual, len(c)))
        return c[0]

def params(n):
    return [c for c in n.get("inner", ()) if c and c.get("kind") == "ParmVarDecl"]

def body(n):
    for c in n["inner"]:
        if c and c.get("kind") == "CompoundStmt": return c

def norm_rec(q):
    q = q.strip()
    for p in ("const ", "class ", "struct ", "volatile "):
        while q.startswith(p): q = q[len(p):]
    return q

# ---------------------------------------------------------------- types
class T:
    __slots__ = ("k", "w", "sg", "el", "name")
    def __init__(self, k, w=0, sg=False, el=None, name=None):
        self.k, self.w, self.sg, self.el, self.name = k, w, sg, el, name
    def __repr__(self):
        return {"int": "%sint%d" % ("" if self.sg else "u", self.w)}.get(self.k, self.k) + \
            ("<%r>" % self.el if self.el is not None else "") + ("[%s]" % self.name if self.name else "")

_INT = {"char": (8, True), "signed char": (8, True), "unsigned char": (8, False), "short": (16, True), "unsigned short": (16, False),
        "int": (32, True), "unsigned int": (32, False), "long": (64, True), "unsigned long": (64, False),
        "long long": (64, True), "unsigned long long": (64, False), "uint64_t": (64, False), "uint32_t": (32, False),
        "size_t": (64, False), "std::size_t": (64, False), "int64_t": (64, True), "int32_t": (32, True), "uint8_t": (8, False),
        "unsigned": (32, False), "std::streamoff": (64, True), "unsigned __int128": (128, False)}
_REAL = {"float", "double", "long double", "datum", "Conv::datum"}

def parse_type(s):
    s = s.strip()
    if s.endswith("&&"): return T("ref", el=parse_type(s[:-2]))
    if s.endswith("&"): return T("ref", el=parse_type(s[:-1]))
    for suf in ("const", "volatile", "restrict", "__restrict"):
        if s.endswith(" " + suf) or s.endswith("*" + suf): return parse_type(s[:-len(suf)])
    if s.endswith("*"): return T("ptr", el=parse_type(s[:-1]))
    if s.endswith("]"):
        i = s.rindex("[")
        return T("array", el=parse_type(s[:i]), name=s[i + 1:-1])
    for p in ("const ", "volatile ", "class ", "struct ", "enum "):
        if s.startswith(p):
            return parse_type(s[len(p):])
    if s in _INT:
        w, g = _INT[s]; return T("int", w, g)
    if s in ("duint", "Conv::duint"): return T("int", 32, False)
    if s == "bool" or s == "_Bool": return T("bool")
    if s == "void": return T("void")
    if s in _REAL: return T("real", name=s)
    if s.startswith(("std::chrono::time_point<", "std::chrono::duration<", "time_point<", "duration<")): return T("real", name="double")   # points in time and durations as numbers
    if s.startswith("std::vector<") or s.startswith("vector<"):
        inner = s[s.index("<") + 1:]
        depth = 0; end = 0
        for j, ch in enumerate(inner):
            if ch == "<": depth += 1
            elif ch == ">":
                if depth == 0: end = j; break
                depth -= 1
            elif ch == "," and depth == 0: end = j; break
        return T("vector", el=parse_type(inner[:end]), name=s)
    return T("struct", name=s)

def ctype(n):
    t = n.get("type", {})
    d = t.get("desugaredQualType") or t.get("qualType") or ""
    return parse_type(d)
