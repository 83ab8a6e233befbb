"""Mechanical translation of the C++ of /repo/cpp/src to Python text.

clang's JSON syntax tree of every translation unit (so: after the preprocessor,
name look-up, overload resolution and all implicit conversions) is rewritten,
node by node, into Python that means the same, which the verifier then reads as
it reads the Python of the repository.  Nothing is matched against known code: a
construct outside the subset makes that one function `cpp_unsupported(...)`.

What the text keeps: every conversion of a signed value to an unsigned type
(`cpp_u`, which the verifier obliges to be non-negative), every narrowing to
char (`cpp_char`), vector and string subscripts (`at_`, obliged to be in range),
copies of class values (`_copy`), indeterminate values (`cpp_uninit`), integer
division (`cpp_div`, `cpp_mod`).
What it drops: output to std::cout and std::cerr, destructors and delete,
const/reference/pointer distinctions of class objects (a pointer or reference
is the object), the width of int and long."""
import json, os, re, subprocess, sys
REPO = os.environ.get("VERIF_REPO", "/repo")
def units_of(repo=None):
    """every source file that is not a program of its own"""
    d = os.path.join(repo or REPO, "cpp", "src"); return [f[:-4] for f in sorted(os.listdir(d)) if f.endswith(".cpp") and not re.search(r"\bint\s+main\s*\(", open(os.path.join(d, f)).read())]

class Bad(Exception): pass

def dump(unit, repo=None):
    src = os.path.join(repo or REPO, "cpp", "src", unit + ".cpp")
    r = subprocess.run(["clang++", "-std=c++17", "-fsyntax-only", "-w", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=busy_beaver", src], capture_output=True, text=True)
    if r.returncode: raise Bad("clang: " + r.stderr[:500])
    dec = json.JSONDecoder(); s = r.stdout; i = 0; out = []
    while i < len(s):
        while i < len(s) and s[i].isspace(): i += 1
        if i < len(s): o, i = dec.raw_decode(s, i); out.append(o)
    return out

def qt(n): t = n.get("type") or {}; return t.get("desugaredQualType") or t.get("qualType") or ""
INTS = {"int", "long", "char", "bool", "unsigned long", "unsigned int", "short", "unsigned char", "long long", "unsigned long long", "size_t", "size_type", "unsigned short", "State", "Symbol", "busy_beaver::State", "busy_beaver::Symbol"}
UNS = {"unsigned long", "unsigned int", "unsigned char", "unsigned long long", "size_t", "unsigned short", "size_type"}
def strip(t):
    t = t.strip()
    while True:
        u = re.sub(r"\s*(&&|&)$", "", re.sub(r"^const\s+", "", t)).strip(); u = re.sub(r"\s+const$", "", u)
        if u == t: return t
        t = u
def is_ptr(t): return strip(t).endswith("*") or strip(t).endswith("*const")
def is_scalar(t): return strip(t) in INTS
def is_ref(t): return t.strip().endswith("&")
def is_const(n): return any(t.startswith("const ") or re.search(r" const\s*&+$", t) for t in (qt(n), (n.get("type") or {}).get("qualType", "")))
def short(t):
    """a name for a parameter type"""
    t = strip(t); t = t.replace("*const", "").replace("*", "").strip(); t = re.sub(r"<.*>", "", t); t = t.split("::")[-1]
    return {"State": "int", "Symbol": "int", "basic_string": "string", "basic_istream": "istream", "basic_ostream": "ostream"}.get(t, t).replace(" ", "")
def sig(ft):
    i = ft.find("("); d = 0; j = i                       # the first balanced group is the parameter list
    while j >= 0 and j < len(ft):
        d += {"(": 1, ")": -1}.get(ft[j], 0)
        if d == 0: break
        j += 1
    s = ft[i + 1:j] if i >= 0 else ""
    out, d, cur = [], 0, ""
    for c in s:
        if c in "<(": d += 1
        if c in ">)": d -= 1
        if c == "," and d == 0: out.append(cur); cur = ""
        else: cur += c
    if cur.strip(): out.append(cur)
    return [x.strip() for x in out if x.strip() != "void"]

class Rec:
    def __init__(s, name): s.name, s.fields, s.methods, s.bases, s.ids, s.usercopy = name, [], [], [], set(), None

class Unit:
    """one translation unit"""
    def __init__(s, tops, prog):
        s.tops, s.prog = tops, prog; s.decl = {}; s.owner = {}; s.records = {}
        for o in tops: s.index(o, None)
    def index(s, n, rec):
        k = n.get("kind")
        if "id" in n and k: s.decl.setdefault(n["id"], n)
        r = rec
        if k == "CXXRecordDecl" and n.get("completeDefinition"): r = n
        for x in n.get("inner", []):
            if x.get("kind") in ("FieldDecl", "CXXMethodDecl", "CXXConstructorDecl"):
                if k == "CXXRecordDecl": s.owner[x["id"]] = n
                else:
                    o = s.owner.get(x.get("previousDecl")) or s.decl.get(x.get("parentDeclContextId"))
                    if o is not None: s.owner[x["id"]] = o
            s.index(x, r)

class Prog:
    def __init__(s, repo=None, units=None):
        s.repo = repo or REPO; s.classes = {}; s.order = []; s.funcs = {}; s.globals = {}; s.errors = {}; s.linemap = {}
        s.overl = {}
        us = [Unit(dump(u, s.repo), s) for u in (units or units_of(s.repo))]
        for u in us:
            for o in u.tops: s.decls(u, o, None)
        for u in us:
            for o in u.tops: s.defs(u, o, None)
    # -- first pass: what exists
    def decls(s, u, n, cls):
        k = n.get("kind")
        if k == "NamespaceDecl":
            for x in n.get("inner", []): s.decls(u, x, None)
        elif k == "CXXRecordDecl" and n.get("completeDefinition"):
            nm = n["name"]
            if nm not in s.classes: s.classes[nm] = Rec(nm); s.order.append(nm)
            c = s.classes[nm]; new = not c.fields and not c.methods
            c.bases = [short(b["type"].get("desugaredQualType") or b["type"]["qualType"]) for b in n.get("bases", [])]
            for x in n.get("inner", []):
                xk = x.get("kind")
                if xk == "FieldDecl" and new: c.fields.append(x); c.unit = u
                elif xk == "CXXRecordDecl": s.decls(u, x, nm)
                elif xk in ("CXXMethodDecl", "CXXConstructorDecl") and not x.get("isImplicit"):
                    s.overl.setdefault((nm, x["name"]), {})[tuple(short(t) for t in sig(x["type"]["qualType"]))] = 1
                    if new: c.methods.append(x)
        elif k == "FunctionDecl":
            s.overl.setdefault((None, n["name"]), {})[tuple(short(t) for t in sig(n["type"]["qualType"]))] = 1
    def fname(s, cls, name, ft):
        ps = tuple(short(t) for t in sig(ft))
        if cls and name == cls: return "_ctor__" + "_".join(ps)
        if name.startswith("operator"): raise Bad("operator overload")
        if len(s.overl.get((cls, name), {})) > 1: return name + "__" + "_".join(ps)
        return name
    # -- second pass: bodies
    def defs(s, u, n, cls):
        k = n.get("kind")
        if k == "NamespaceDecl":
            for x in n.get("inner", []): s.defs(u, x, None)
        elif k == "CXXRecordDecl" and n.get("completeDefinition"):
            for x in n.get("inner", []):
                if x.get("kind") in ("CXXMethodDecl", "CXXConstructorDecl"): s.defs(u, x, n["name"])
                elif x.get("kind") == "CXXRecordDecl": s.defs(u, x, n["name"])
        elif k in ("CXXMethodDecl", "CXXConstructorDecl", "FunctionDecl"):
            if not any(x.get("kind") == "CompoundStmt" for x in n.get("inner", [])): return
            if n.get("isImplicit") or n.get("explicitlyDefaulted"): return
            c = cls
            if k != "FunctionDecl" and c is None:
                p = u.decl.get(n.get("parentDeclContextId")) or u.owner.get(n.get("previousDecl")); c = p and p.get("name")
            try: nm = s.fname(c, n["name"], n["type"]["qualType"])
            except Bad: return
            if (c, nm) in s.funcs: return
            try: s.funcs[(c, nm)] = Fn(s, u, n, c, nm).emit()
            except Bad as e: s.errors[(c, nm)] = str(e); s.funcs[(c, nm)] = s.stub(n, c, nm, str(e))
        elif k == "VarDecl" and n.get("inner"):
            try: s.globals[n["name"]] = Fn(s, u, n, None, n["name"]).ex(n["inner"][0])
            except Bad as e: pass
    def stub(s, n, c, nm, why):
        ps = [x.get("name", "_p%d" % i) for i, x in enumerate(y for y in n.get("inner", []) if y.get("kind") == "ParmVarDecl")]
        return (["def %s(%s):" % (nm, ", ".join((["self"] if c else []) + ps)), "  return cpp_unsupported(%r)" % why], [n.get("loc", {}).get("line")] * 2)
    def text(s):
        out, lines = [], []
        def put(t, l=None): out.append(t); lines.append(l)
        put("# generated from cpp/src by cppfront/translate.py")
        for g, e in s.globals.items(): put("%s = %s" % (g, e))
        for nm in s.order:
            c = s.classes[nm]; put("class %s%s:" % (nm, "(%s)" % ", ".join(c.bases) if c.bases else ""))
            put("  def __init__(self): pass")
            if not any(m.get("kind") == "CXXConstructorDecl" for m in c.methods):
                put("  def _init(self%s):" % "".join(", " + f["name"] for f in c.fields))
                for f in c.fields: put("    self.%s = %s" % (f["name"], f["name"]))
                put("    return self")
                put("  def _ctor__(self):")
                for f in c.fields: put("    self.%s = %s" % (f["name"], s.fielddefault(c, f)))
                put("    return self")
            put("  def _copy(self):"); put("    r_ = %s()" % nm)
            for f in c.fields:
                t = qt(f); put("    r_.%s = self.%s%s" % (f["name"], f["name"], "" if is_scalar(t) or is_ptr(t) or is_ref(t) else "._copy()"))
            put("    return r_")
            for (cc, fn), (ls, ln) in s.funcs.items():
                if cc == nm:
                    for l, n in zip(ls, ln): put("  " + l, n)
        for (cc, fn), (ls, ln) in s.funcs.items():
            if cc is None:
                for l, n in zip(ls, ln): put(l, n)
        s.lines = lines
        return "\n".join(out) + "\n"
    def fielddefault(s, c, f):
        ini = [x for x in f.get("inner", []) if "Attr" not in x.get("kind", "")]
        if f.get("hasInClassInitializer") and ini: return Fn(s, c.unit, f, None, "").ex(ini[-1])
        t = qt(f)
        if is_scalar(t) or is_ptr(t): return "cpp_uninit()"
        raise Bad("default value of field " + f["name"])

class Fn:
    def __init__(s, prog, u, n, cls, name):
        s.p, s.u, s.n, s.cls, s.name = prog, u, n, cls, name; s.out = []; s.ln = []; s.names = {}; s.active = []; s.cur = None; s.tmp = 0; s.conts = []
    def w(s, ind, t): s.out.append("  " * ind + t); s.ln.append(s.cur)
    def setline(s, n):
        for loc in (n.get("loc") or {}, (n.get("range") or {}).get("begin") or {}):
            for l in (loc, loc.get("expansionLoc") or {}, loc.get("spellingLoc") or {}):
                if "line" in l: s.cur = l["line"]; return
    def bind(s, d):
        nm = d["name"]
        while any(s.names[i] == nm for i in s.active): nm += "_"
        s.names[d["id"]] = nm; s.active.append(d["id"]); return nm
    # -- function
    def emit(s):
        n = s.n; s.setline(n); ps = []
        for x in n.get("inner", []):
            if x.get("kind") == "ParmVarDecl":
                t = qt(x)
                if is_ref(t) and is_scalar(t) and not is_const(x): raise Bad("reference to a scalar as parameter")
                if is_ptr(t) and is_scalar(strip(t).rstrip("*").strip()): raise Bad("pointer to a scalar")
                if "name" not in x: x["name"] = "_p%d" % len(ps)
                ps.append(s.bind(x))
        ctor = n["kind"] == "CXXConstructorDecl"
        s.w(0, "def %s(%s):" % (s.name, ", ".join((["self"] if s.cls else []) + ps)))
        body = [x for x in n["inner"] if x.get("kind") == "CompoundStmt"][0]
        if ctor: s.ctor_inits(n)
        s.block(body, 1)
        if ctor:
            if any(l.strip().startswith("return") for l in s.out): raise Bad("return in a constructor")
            s.w(1, "return self")
        elif len(s.out) == 1: s.w(1, "pass")
        return s.out, s.ln
    def ctor_inits(s, n):
        c = s.p.classes[s.cls]; done = set(); ini = [x for x in n["inner"] if x.get("kind") == "CXXCtorInitializer"]
        given = {x["anyInit"]["name"] for x in ini if "anyInit" in x}
        for f in c.fields:
            if f["name"] not in given: s.w(1, "self.%s = %s" % (f["name"], s.p.fielddefault(c, f)))
        for x in ini:
            if "baseInit" in x:
                e = s.skip(x["inner"][0]); s.w(1, "%s.%s(%s)" % (short(x["baseInit"]["qualType"]), s.p.fname(short(x["baseInit"]["qualType"]), short(x["baseInit"]["qualType"]), e["ctorType"]["qualType"]), ", ".join(["self"] + [s.ex(a) for a in e.get("inner", [])])))
            else:
                f = [f for f in c.fields if f["name"] == x["anyInit"]["name"]][0]
                v = s.p.fielddefault(c, f) if s.skip(x["inner"][0])["kind"] == "CXXDefaultInitExpr" else s.ex(x["inner"][0])
                s.w(1, "self.%s = %s" % (f["name"], v))
    # -- statements
    def block(s, n, ind):
        mark = len(s.active); k0 = len(s.out)
        for x in n.get("inner", []) if n.get("kind") == "CompoundStmt" else [n]: s.st(x, ind)
        if len(s.out) == k0: s.w(ind, "pass")
        del s.active[mark:]
    def st(s, n, ind):
        k = n.get("kind")
        if not k: return
        if "range" in n: s.setline(n)
        if k == "CompoundStmt": s.block(n, ind)
        elif k == "NullStmt": return
        elif k == "DeclStmt":
            for d in n["inner"]: s.decl(d, ind)
        elif k == "ReturnStmt": s.w(ind, "return " + (s.ex(n["inner"][0]) if n.get("inner") else "None"))
        elif k == "BreakStmt": s.w(ind, "break")
        elif k == "ContinueStmt":
            if s.conts and s.conts[-1] is None: raise Bad("continue")
            if s.conts and s.conts[-1] != "": s.st(s.conts[-1], ind)
            s.w(ind, "continue")
        elif k == "IfStmt":
            inner = list(n["inner"]); mark = len(s.active)
            if n.get("hasInit"): s.st(inner.pop(0), ind)
            if n.get("hasVar"): s.st(inner.pop(0), ind)
            s.w(ind, "if %s:" % s.ex(inner[0])); s.block(inner[1], ind + 1)
            if len(inner) > 2: s.w(ind, "else:"); s.block(inner[2], ind + 1)
            del s.active[mark:]
        elif k == "WhileStmt":
            if n.get("hasVar"): raise Bad("while with a declaration")
            s.w(ind, "while %s:" % s.ex(n["inner"][0])); s.conts.append(""); s.block(n["inner"][1], ind + 1); s.conts.pop()
        elif k == "DoStmt":
            s.w(ind, "while True:"); s.conts.append(None); s.block(n["inner"][0], ind + 1); s.conts.pop(); s.w(ind + 1, "if not (%s):" % s.ex(n["inner"][1])); s.w(ind + 2, "break")
        elif k == "ForStmt":
            init, var, cond, inc, body = (n["inner"] + [{}] * 5)[:5]; mark = len(s.active)
            if init.get("kind"): s.st(init, ind)
            if var.get("kind"): raise Bad("for with a condition variable")
            s.w(ind, "while %s:" % (s.ex(cond) if cond.get("kind") else "True")); s.conts.append(inc if inc.get("kind") else ""); s.block(body, ind + 1); s.conts.pop()
            if inc.get("kind"): s.st(inc, ind + 1)
            del s.active[mark:]
        elif k == "CXXForRangeStmt":
            inner = [x for x in n["inner"] if x.get("kind")]; mark = len(s.active)
            rng = inner[0]["inner"][0]["inner"][0]; var = [x for x in inner if x["kind"] == "DeclStmt"][-1]["inner"][0]; body = inner[-1]
            t = qt(var)
            if is_ref(t) and not is_const(var): raise Bad("range-for by mutable reference")
            nm = s.bind(var); r = s.skip(rng)
            if r["kind"] == "CXXStdInitializerListExpr":
                l = s.skip(r["inner"][0]); it = "[" + ", ".join(s.ex(x) for x in l.get("inner", [])) + "]"
            else: it = "cpp_iter(%s)" % s.ex(rng)
            if any(x.get("kind") == "CXXConstructExpr" for x in var.get("inner", [])): s.w(ind, "for %s in %s:" % (nm + "_r", it)); s.w(ind + 1, "%s = %s_r._copy()" % (nm, nm))
            else: s.w(ind, "for %s in %s:" % (nm, it))
            s.conts.append(""); s.block(body, ind + 1); s.conts.pop(); del s.active[mark:]
        else: s.exst(n, ind)
    def decl(s, d, ind):
        if d.get("kind") in ("StaticAssertDecl", "TypeAliasDecl", "TypedefDecl", "UsingDecl"): return
        if d.get("kind") != "VarDecl": raise Bad("declaration " + d.get("kind"))
        t = qt(d)
        if d.get("storageClass") == "static": raise Bad("static local")
        if is_ref(t) and not is_const(d):
            if is_scalar(t): raise Bad("reference to a scalar")
            e0 = s.skip(d["inner"][0])
            if e0["kind"] == "CXXOperatorCallExpr": raise Bad("mutable reference to an element")
        ini = [x for x in d.get("inner", []) if "Attr" not in x.get("kind", "")]
        if not ini:
            if is_scalar(t) or is_ptr(t): v = "cpp_uninit()"
            else: raise Bad("declaration without initialiser")
        else: v = s.ex(ini[0])
        s.w(ind, "%s = %s" % (s.bind(d), v))
    def lval(s, n):
        n = s.skip(n)
        if n["kind"] == "DeclRefExpr": return ("var", s.ex(n))
        if n["kind"] == "MemberExpr":
            b = s.skip(n["inner"][0])
            if b["kind"] == "CXXOperatorCallExpr" and s.opname(b) == "operator[]": raise Bad("assignment to a member of an element")
            return ("var", s.ex(n))
        if n["kind"] == "CXXOperatorCallExpr" and s.opname(n) == "operator[]": return ("elem", s.ex(n["inner"][1]), s.ex(n["inner"][2]))
        raise Bad("assignment to " + n["kind"])
    def assign(s, lv, v, ind):
        if lv[0] == "var": s.w(ind, "%s = %s" % (lv[1], v))
        else: s.w(ind, "%s.set_(%s, %s)" % (lv[1], lv[2], v))
    def get(s, lv): return lv[1] if lv[0] == "var" else "%s.at_(%s)" % (lv[1], lv[2])
    def exst(s, n, ind):
        n = s.skip(n); k = n["kind"]
        if k == "BinaryOperator" and n["opcode"] == "=": s.assign(s.lval(n["inner"][0]), s.ex(n["inner"][1]), ind)
        elif k == "BinaryOperator" and n["opcode"] == ",": s.exst(n["inner"][0], ind); s.exst(n["inner"][1], ind)
        elif k == "CompoundAssignOperator":
            lv = s.lval(n["inner"][0]); s.assign(lv, s.conv(s.arith(n["opcode"][:-1], s.conv(s.get(lv), qt(n["inner"][0]), (n["computeLHSType"].get("desugaredQualType") or n["computeLHSType"]["qualType"])), s.ex(n["inner"][1])), n["computeResultType"].get("desugaredQualType") or n["computeResultType"]["qualType"], qt(n)), ind)
        elif k == "UnaryOperator" and n["opcode"] in ("++", "--"): lv = s.lval(n["inner"][0]); s.assign(lv, "%s %s 1" % (s.get(lv), n["opcode"][0]), ind)
        elif k == "CXXOperatorCallExpr" and s.opname(n) == "operator=":
            l, r = n["inner"][1], n["inner"][2]; e = s.ex(r)
            if not s.temp(r) and not is_ptr(qt(r)): e += "._copy()"
            lv = s.lval(l); L = s.skip(l)
            if L["kind"] == "DeclRefExpr" and s.aliased(L["referencedDecl"]["id"]): raise Bad("assignment to an aliased object")
            s.assign(lv, e, ind)
        elif k == "CXXOperatorCallExpr" and s.opname(n) == "operator<<" and s.diag(n): s.w(ind, "pass")
        elif k == "CXXDeleteExpr": s.w(ind, "pass")
        elif k == "CXXMemberCallExpr" and s.skip(n["inner"][0]).get("name") == "reset" and "unique_ptr" in qt(s.skip(n["inner"][0])["inner"][0]):
            s.assign(s.lval(s.skip(n["inner"][0])["inner"][0]), s.ex(n["inner"][1]) if len(n["inner"]) > 1 and n["inner"][1].get("kind") != "CXXDefaultArgExpr" else "None", ind)
        else: s.w(ind, s.ex(n))
    def aliased(s, i):
        def walk(n):
            if n.get("kind") == "UnaryOperator" and n.get("opcode") == "&" and (n["inner"][0].get("referencedDecl") or {}).get("id") == i: return True
            if n.get("kind") == "VarDecl" and is_ref(qt(n)) and any((x.get("referencedDecl") or {}).get("id") == i for x in n.get("inner", [])): return True
            return any(walk(x) for x in n.get("inner", []))
        return walk(s.n)
    def diag(s, n):
        while n["kind"] == "CXXOperatorCallExpr": n = s.skip(n["inner"][1])
        return n["kind"] == "DeclRefExpr" and n["referencedDecl"]["name"] in ("cout", "cerr") and not any(True for _ in ())
    def opname(s, n): return s.skip(n["inner"][0])["referencedDecl"]["name"]
    def temp(s, n):
        n = s.skip(n); return n["kind"] in ("InitListExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr", "CallExpr", "CXXMemberCallExpr") and n.get("valueCategory") != "lvalue"
    # -- expressions
    SKIP = {"ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ParenExpr", "ConstantExpr", "FullExpr", "SubstNonTypeTemplateParmExpr"}
    def skip(s, n):
        while n.get("kind") in s.SKIP or n.get("kind") == "ImplicitCastExpr" and n.get("castKind") in ("LValueToRValue", "NoOp", "FunctionToPointerDecay", "DerivedToBase", "UncheckedDerivedToBase", "ConstructorConversion", "ArrayToPointerDecay", "BuiltinFnToFnPtr"): n = n["inner"][0]
        return n
    def conv(s, e, src, dst):
        a, b = strip(src), strip(dst)
        if b in UNS and a not in UNS and a != "bool": return e if re.fullmatch(r"\d+", e) else "cpp_u(%s)" % e
        if b == "char" and a != "char": return "cpp_char(%s)" % e
        return e
    def arith(s, op, a, b):
        if op in ("+", "-", "*"): return "(%s %s %s)" % (a, op, b)
        if op == "/": return "cpp_div(%s, %s)" % (a, b)
        if op == "%": return "cpp_mod(%s, %s)" % (a, b)
        raise Bad("operator " + op)
    def ex(s, n):
        n = s.skip(n); k = n.get("kind"); I = n.get("inner", [])
        m = getattr(s, "x_" + (k or ""), None)
        if m is None: raise Bad("expression " + str(k))
        return m(n, I)
    def x_IntegerLiteral(s, n, I): return str(n["value"])
    def x_FloatingLiteral(s, n, I): return "cpp_float(%r)" % str(n["value"])
    def x_CharacterLiteral(s, n, I): return str(n["value"])
    def x_CXXBoolLiteralExpr(s, n, I): return "True" if n["value"] else "False"
    def x_CXXNullPtrLiteralExpr(s, n, I): return "None"
    def x_ImplicitValueInitExpr(s, n, I): return "False" if strip(qt(n)) == "bool" else "0"
    def x_StringLiteral(s, n, I): return "cpp_str(%r)" % json.loads(n["value"])
    def x_CXXThisExpr(s, n, I): return "self"
    def x_CXXDefaultInitExpr(s, n, I): raise Bad("default member initialiser")
    def x_ImplicitCastExpr(s, n, I):
        c = n["castKind"]; e = I[0]
        if c == "IntegralCast": return s.conv(s.ex(e), qt(e), qt(n))
        if c == "IntegralToBoolean": return "(%s != 0)" % s.ex(e)
        if c == "PointerToBoolean": return "(%s is not None)" % s.ex(e)
        if c == "UserDefinedConversion": return "cpp_bool(%s)" % s.ex(e["inner"][0]["inner"][0] if s.skip(e)["kind"] == "CXXMemberCallExpr" else e)
        if c == "NullToPointer": return "None"
        raise Bad("cast " + c)
    def x_CXXStaticCastExpr(s, n, I):
        if is_scalar(qt(n)) and is_scalar(qt(I[0])):
            if strip(qt(n)) == "bool" and strip(qt(I[0])) != "bool": return "(%s != 0)" % s.ex(I[0])
            return s.conv(s.ex(I[0]), qt(I[0]), qt(n))
        raise Bad("cast")
    x_CStyleCastExpr = x_CXXFunctionalCastExpr = x_CXXStaticCastExpr
    def x_DeclRefExpr(s, n, I):
        d = n["referencedDecl"]
        if d["id"] in s.names: return s.names[d["id"]]
        if d["kind"] == "VarDecl" and d["name"] in s.p.globals: return d["name"]
        if d["name"] in ("cout", "cerr", "cin"): return "cpp_stream(%r)" % d["name"]
        if d["name"] == "npos": return "cpp_npos()"
        if d["name"] in ("in", "out", "binary", "app", "trunc", "ate") and "Openmode" in (d.get("type") or {}).get("qualType", "") + qt(n) or "openmode" in (d.get("type") or {}).get("qualType", ""): return "cpp_mode(%r)" % d["name"]
        if d["kind"] == "VarDecl":
            g = s.u.decl.get(d["id"])
            if g is not None and g.get("inner"): return s.ex(g["inner"][0])
        raise Bad("name " + d["name"])
    def x_MemberExpr(s, n, I): return "%s.%s" % (s.ex(I[0]), n["name"])
    def x_UnaryOperator(s, n, I):
        o = n["opcode"]; e = I[0]
        if o in ("++", "--"): raise Bad("increment inside an expression")
        if o == "!": return "(not %s)" % s.ex(e)
        if o == "-": return "(-%s)" % s.ex(e)
        if o == "+": return s.ex(e)
        if o in ("&", "*"):
            t = qt(e)
            if o == "&" and is_scalar(t): raise Bad("address of a scalar")
            if o == "&" and s.skip(e)["kind"] == "CXXOperatorCallExpr" and s.opname(s.skip(e)) == "operator[]": raise Bad("address of an element")
            return s.ex(e)
        raise Bad("operator " + o)
    def x_BinaryOperator(s, n, I):
        o = n["opcode"]
        if o in ("&&", "||"): return "(%s %s %s)" % (s.ex(I[0]), {"&&": "and", "||": "or"}[o], s.ex(I[1]))
        if o in ("==", "!=", "<", "<=", ">", ">="):
            a, b = s.ex(I[0]), s.ex(I[1])
            if is_ptr(qt(I[0])) or is_ptr(qt(I[1])): return "(%s %s %s)" % (a, {"==": "is", "!=": "is not"}[o], b)
            return "(%s %s %s)" % (a, o, b)
        if o == "=" or o == ",": raise Bad("operator %s inside an expression" % o)
        return s.arith(o, s.ex(I[0]), s.ex(I[1]))
    def x_ConditionalOperator(s, n, I): return "(%s if %s else %s)" % (s.ex(I[1]), s.ex(I[0]), s.ex(I[2]))
    def x_InitListExpr(s, n, I):
        t = strip(qt(n)); c = s.p.classes.get(short(t))
        if is_scalar(t) and len(I) == 1: return s.ex(I[0])
        if c is None: raise Bad("initialiser list of " + t)
        out = []
        for f, x in zip(c.fields, I): out.append(s.p.fielddefault(c, f) if s.skip(x)["kind"] == "CXXDefaultInitExpr" else s.ex(x))
        if len(out) != len(c.fields): raise Bad("initialiser list")
        return "%s()._init(%s)" % (c.name, ", ".join(out))
    def x_CXXConstructExpr(s, n, I):
        t = strip(qt(n)); args = [x for x in I if x.get("kind") != "CXXDefaultArgExpr"]; ct = n["ctorType"]["qualType"]; ps = sig(ct)
        b = t.split("<")[0].split("::")[-1]
        if n.get("elidable") and len(args) == 1: return s.ex(args[0])
        if b in s.p.classes:
            if len(ps) == 1 and short(ps[0]) == b:
                if s.temp(args[0]): return s.ex(args[0])
                if s.p.overl.get((b, b), {}).get((b,)): return "%s()._ctor__%s(%s)" % (b, b, s.ex(args[0]))
                return s.ex(args[0]) + "._copy()"
            if not ps: return "%s()._ctor__()" % b
            return "%s()._ctor__%s(%s)" % (b, "_".join(short(p) for p in ps), ", ".join(s.arg(x) for x in args))
        if b == "vector":
            el = re.match(r"^[^<]*<(.*)>$", t); depth = "Vec" if el and is_scalar(strip(el.group(1).split(", std::alloc")[0])) else "VecRec"
            if len(args) == 1 and "vector" in qt(args[0]): return s.ex(args[0]) + ("" if s.temp(args[0]) else "._copy()")
            return "cpp_vec(%r%s)" % (re.sub(r"busy_beaver::|TuringMachine::|std::", "", t), "".join(", " + s.arg(x) for x in args))
        if b in ("unique_ptr", "shared_ptr"): return s.ex(args[0]) if args else "None"
        if b in ("basic_string", "string"):
            if not args: return "cpp_str('')"
            if len(args) == 1: return s.ex(args[0]) + ("" if s.temp(args[0]) or s.skip(args[0])["kind"] == "StringLiteral" else "._copy()")
        if b in ("stack", "basic_ifstream", "basic_ofstream", "set", "Timer"): return "cpp_%s(%s)" % (b, ", ".join(s.ex(x) for x in args))
        raise Bad("constructor of " + t)
    x_CXXTemporaryObjectExpr = x_CXXConstructExpr
    def x_CXXNewExpr(s, n, I):
        for x in I:
            if s.skip(x)["kind"] in ("CXXConstructExpr", "InitListExpr"): return s.ex(x)
        raise Bad("new")
    def arg(s, x):
        """an argument; a class value passed by value is a copy (clang makes that explicit)"""
        return s.ex(x)
    def call_args(s, I): return ", ".join(s.arg(x) for x in I if x.get("kind") != "CXXDefaultArgExpr")
    def x_CallExpr(s, n, I):
        f = s.skip(I[0])
        if f["kind"] != "DeclRefExpr": raise Bad("call")
        d = f["referencedDecl"]; nm = d["name"]
        if (None, nm) in s.p.overl: return "%s(%s)" % (s.p.fname(None, nm, d["type"]["qualType"]), s.call_args(I[1:]))
        if nm in ("min", "max") and len(I) == 3 and is_scalar(qt(n)): return "%s(%s)" % (nm, s.call_args(I[1:]))
        if nm in ("abs", "labs", "llabs"): return "abs(%s)" % s.call_args(I[1:])
        if nm == "move" and len(I) == 2: return s.ex(I[1])
        if nm == "to_string": return "cpp_to_string(%s)" % s.call_args(I[1:])
        if nm in ("exit", "abort"): return "cpp_exit()"
        if nm == "getline": return "cpp_getline(%s)" % s.call_args(I[1:])
        raise Bad("call of " + nm)
    def x_CXXMemberCallExpr(s, n, I):
        m = I[0]
        while m.get("kind") in s.SKIP: m = m["inner"][0]
        if m["kind"] != "MemberExpr": raise Bad("member call")
        base = m["inner"][0]; t = strip(qt(base)).rstrip("*").strip(); t = strip(t); b = t.split("<")[0].split("::")[-1]; nm = m["name"]; A = [x for x in I[1:] if x.get("kind") != "CXXDefaultArgExpr"]; o = s.ex(base)
        if b in s.p.classes:
            d = s.u.decl.get(m["referencedMemberDecl"]); own = s.u.owner.get(m["referencedMemberDecl"])
            if d is None or own is None: raise Bad("member " + nm)
            return "%s.%s(%s)" % (o, s.p.fname(own["name"], nm, d["type"]["qualType"]), s.call_args(A))
        if b == "vector":
            if nm == "insert":
                w = s.skip(A[0])
                while w["kind"] == "CXXConstructExpr" and len(w["inner"]) == 1: w = s.skip(w["inner"][0])
                if w["kind"] == "CXXMemberCallExpr" and len(A) == 3:
                    mm = w["inner"][0]
                    if mm.get("name") in ("begin", "cbegin", "end", "cend") and s.ex(mm["inner"][0]) == o: return "%s.%s(%s, %s)" % (o, "insert_front_" if "begin" in mm["name"] else "insert_back_", s.ex(A[1]), s.ex(A[2]))
                raise Bad("vector::insert")
            if nm == "at": return "%s.at_(%s)" % (o, s.ex(A[0]))
            if nm in ("size", "empty", "push_back", "emplace_back", "resize", "back", "front", "clear", "pop_back", "assign", "reserve"): 
                a = [s.ex(x) + ("" if is_scalar(qt(x)) or s.temp(x) else "._copy()") for x in A]
                return "%s.%s_(%s)" % (o, nm, ", ".join(a))
        if b == "stack" and nm in ("push", "pop", "top", "empty", "size"): return "%s.%s_(%s)" % (o, nm, s.call_args(A))
        if b in ("unique_ptr",) and nm in ("get",): return o
        if b in ("unique_ptr",) and nm == "reset" and s.skip(base)["kind"] == "MemberExpr": raise Bad("reset")
        if b in ("basic_string", "string") and nm in ("append", "size", "length", "erase", "find_first_of", "empty", "substr", "find", "at", "push_back"): return "%s.%s(%s)" % (o, {"at": "at_"}.get(nm, nm + "_"), s.call_args(A))
        if b in ("basic_ofstream", "ofstream", "basic_ifstream", "ifstream") and nm in ("open", "close", "flush"): return "%s.%s_(%s)" % (o, nm, s.call_args(A))
        if b == "set" and nm in ("count", "insert"): return "%s.%s_(%s)" % (o, nm, s.call_args(A))
        raise Bad("call of %s::%s" % (b, nm))
    def x_CXXOperatorCallExpr(s, n, I):
        o = s.opname(n); A = I[1:]
        if o == "operator[]": return "%s.at_(%s)" % (s.ex(A[0]), s.ex(A[1]))
        if o in ("operator*", "operator->") and len(A) == 1: return s.ex(A[0])
        if o == "operator<<":
            t = strip(qt(A[1])); r = s.skip(A[1])
            if r["kind"] == "DeclRefExpr" and r["referencedDecl"]["name"] in ("endl", "flush"): return "cpp_out_str(%s, cpp_str(%r))" % (s.ex(A[0]), "\n" if r["referencedDecl"]["name"] == "endl" else "")
            f = "char" if t == "char" else "int" if is_scalar(t) and t != "bool" else "str"
            return "cpp_out_%s(%s, %s)" % (f, s.ex(A[0]), s.ex(A[1]))
        if o in ("operator==", "operator!=") and len(A) == 2: return "cpp_%s(%s, %s)" % ("eq" if o[8:] == "==" else "ne", s.ex(A[0]), s.ex(A[1]))
        if o == "operator|" and len(A) == 2 and "penmode" in qt(n): return "cpp_mode(%s, %s)" % (s.ex(A[0]), s.ex(A[1]))
        raise Bad(o)

def write(path, repo=None, units=None):
    p = Prog(repo, units); t = p.text()
    with open(path, "w") as f: f.write(t)
    return p

if __name__ == "__main__":
    p = Prog(); print(p.text()); print(p.errors, file=sys.stderr)
