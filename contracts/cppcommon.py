"""Meaning of the C++ library operations in the translated C++ (cppfront)."""
import z3
from pyvc.engine import *
from pyvc.contract import *
I = z3.IntSort()
def u(E, a, kw): E.prove("a value converted to an unsigned type is not negative", zi(a[0]) >= 0, "safety"); return a[0]
def char(E, a, kw): E.prove("a value converted to char fits", And(zi(a[0]) >= -128, zi(a[0]) <= 127), "safety"); return a[0]
def div(E, a, kw):
    x, y = zi(a[0]), zi(a[1]); E.prove("division by a positive value of a non-negative one", And(x >= 0, y > 0), "safety"); return x / y
def mod(E, a, kw):
    x, y = zi(a[0]), zi(a[1]); E.prove("remainder by a positive value of a non-negative one", And(x >= 0, y > 0), "safety"); return x % y
def unsup(E, a, kw): raise Unsupported("C++: %s" % a[0])
def xexit(E, a, kw): raise PyRaise("SystemExit", "ASSERT failed")
# ---- vector of integers -------------------------------------------------------
def mkvec(E, get, n): return Obj(E, "Vec", {"get": get, "n": n})
def inb(E, o, i, what): E.prove("%s of a vector in range" % what, And(0 <= zi(i), zi(i) < zi(o.fields["n"])), "safety")
def vec_attr(E, o, name):
    F = o.fields; g, n = F["get"], F["n"]
    if name == "at_":
        def at(E, i): inb(E, o, i, "element"); return F["get"](zi(i))
        return at
    if name == "set_":
        def st(E, i, v):
            inb(E, o, i, "element"); g = F["get"]; i, v = zi(i), zi(v); E.setfield(o, "get", lambda k: z3.If(k == i, v, g(k)))
        return st
    if name == "size_": return lambda E: F["n"]
    if name == "empty_": return lambda E: zi(F["n"]) == 0
    if name == "_copy": return lambda E: mkvec(E, F["get"], F["n"])
    if name == "insert_front_":
        def f(E, k, v):
            E.prove("count of inserted elements not negative", zi(k) >= 0, "safety"); g, k, v = F["get"], zi(k), zi(v); E.setfield(o, "get", lambda i: z3.If(i < k, v, g(i - k))); E.setfield(o, "n", zi(F["n"]) + k)
        return f
    if name in ("insert_back_", ):
        def f(E, k, v):
            E.prove("count of inserted elements not negative", zi(k) >= 0, "safety"); g, k, v, n = F["get"], zi(k), zi(v), zi(F["n"]); E.setfield(o, "get", lambda i: z3.If(i < n, g(i), v)); E.setfield(o, "n", n + k)
        return f
    if name == "push_back_":
        def f(E, v): g, v, n = F["get"], zi(v), zi(F["n"]); E.setfield(o, "get", lambda i: z3.If(i == n, v, g(i))); E.setfield(o, "n", n + 1)
        return f
    if name in ("back_", "front_"):
        def f(E): E.prove("element of a non-empty vector", zi(F["n"]) > 0, "safety"); return F["get"](zi(F["n"]) - 1 if name == "back_" else z3.IntVal(0))
        return f
    if name == "pop_back_":
        def f(E): E.prove("element of a non-empty vector", zi(F["n"]) > 0, "safety"); E.setfield(o, "n", zi(F["n"]) - 1)
        return f
    if name == "clear_": return lambda E: E.setfield(o, "n", z3.IntVal(0))
    if name == "resize_":
        def f(E, k, *v):
            E.prove("new size not negative", zi(k) >= 0, "safety"); g, k, n = F["get"], zi(k), zi(F["n"]); w = zi(v[0]) if v else z3.IntVal(0); E.setfield(o, "get", lambda i: z3.If(i < n, g(i), w)); E.setfield(o, "n", k)
        return f
    raise Unsupported("vector." + name)
def vec_havoc(E, o, field):
    if field == "get": f = E.func("vec", I, I); o.fields["get"] = lambda i: f(i); return True
    return False
def cvec(E, a, kw):
    if a[0] == "vector<int>":
        if len(a) == 3:
            E.prove("size of a new vector not negative", zi(a[1]) >= 0, "safety"); v = zi(a[2]); return mkvec(E, lambda i: v, zi(a[1]))
        if len(a) == 2: E.prove("size of a new vector not negative", zi(a[1]) >= 0, "safety"); return mkvec(E, lambda i: z3.IntVal(0), zi(a[1]))
        if len(a) == 1: return mkvec(E, lambda i: z3.IntVal(0), z3.IntVal(0))
    raise Unsupported("vector " + str(a[0]))
# ---- strings: characters and length where known ----------------------------------
def cstr(E, a, kw): v = a[0]; return Obj(E, "CStr", {"v": v, "ch": (lambda i: lit(v, i)), "n": z3.IntVal(len(v))}) if isinstance(v, str) else Obj(E, "CStr", {"v": None})
def lit(v, i):
    r = z3.IntVal(0)
    for k, c in enumerate(v): r = z3.If(i == k, z3.IntVal(ord(c)), r)
    return r
def str_attr(E, o, name):
    F = o.fields
    if name == "_copy": return lambda E: Obj(E, "CStr", dict(F))
    if name == "append_": return lambda E, x: E.setfield(o, "v", None)
    if "ch" not in F: raise Unsupported("string." + name)
    if name == "size_": return lambda E: F["n"]
    if name == "empty_": return lambda E: zi(F["n"]) == 0
    if name == "at_":
        def at(E, i): i = zi(i); E.prove("character of a string in range", And(0 <= i, i <= zi(F["n"])), "safety"); return z3.If(i < zi(F["n"]), F["ch"](i), 0)
        return at
    if name == "erase_":
        def er(E, p): E.prove("erased from within the string", And(0 <= zi(p), zi(p) <= zi(F["n"])), "safety"); E.setfield(o, "n", zi(p)); E.setfield(o, "v", None)
        return er
    if name == "find_first_of_":
        def ff(E, cs):
            v = cs.fields.get("v")
            if not isinstance(v, str): raise Unsupported("find_first_of")
            r = E.int("found"); ch, n = F["ch"], zi(F["n"]); isin = lambda c: Or(*[c == ord(x) for x in v])
            E.assume(Or(And(r == -1, True), And(0 <= r, r < n, isin(ch(r))))); E.assume(Forall([I], lambda i: Implies(And(0 <= i, i < n, Or(r == -1, i < r)), Not(isin(ch(i)))))); 
            if plainf(ch): E.assume(Implies(r == -1, And(*[Implies(And(0 <= x, x < n), Not(isin(ch(x)))) for x in E.ghost.get("marks", [])]))); E.assume(And(*[Implies(And(r >= 0, 0 <= x, x < r), Not(isin(ch(x)))) for x in E.ghost.get("marks", [])]))
            return r
        return ff
    raise Unsupported("string." + name)
def plainf(f): t = f(z3.Int("p1")); return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED
EXTS = {("builtin", "cpp_u"): u, ("builtin", "cpp_char"): char, ("builtin", "cpp_div"): div, ("builtin", "cpp_mod"): mod, ("builtin", "cpp_unsupported"): unsup, ("builtin", "cpp_exit"): xexit,
        ("builtin", "cpp_uninit"): lambda E, a, kw: E.int("uninitialised"), ("builtin", "cpp_float"): lambda E, a, kw: E.int("float"), ("builtin", "cpp_vec"): cvec,
        ("builtin", "cpp_str"): cstr, ("builtin", "cpp_to_string"): cstr, ("CStr", "attr"): str_attr, ("Vec", "attr"): vec_attr, ("Vec", "havoc"): vec_havoc}
CONTRACTS = []
