"""What the translated text means when it is run as Python (used to compare the
translation with the compiled program)."""
class Und(Exception): "undefined behaviour or a failed ASSERT"
def cpp_u(x):
    if x < 0: raise Und("negative to unsigned")
    return x
def cpp_char(x):
    if not -128 <= x < 128: raise Und("char")
    return x
def cpp_div(a, b): q = abs(a) // abs(b); return q if (a >= 0) == (b >= 0) else -q
def cpp_mod(a, b): return a - b * cpp_div(a, b)
def cpp_uninit(): return -987654321
def cpp_exit(): raise Und("exit")
def cpp_unsupported(w): raise Und("unsupported " + w)
def cpp_float(x): return float(x)
def cpp_iter(v): return list(v.a)
def cpp_bool(x): return bool(x)
def cpp_npos(): return -1
class Vec:
    def __init__(s, a): s.a = a
    def _copy(s): return Vec([x._copy() if hasattr(x, "_copy") else x for x in s.a])
    def at_(s, i):
        if not 0 <= i < len(s.a): raise Und("index")
        return s.a[i]
    def set_(s, i, v): s.at_(i); s.a[i] = v
    def size_(s): return len(s.a)
    def empty_(s): return not s.a
    def insert_front_(s, n, v): s.a[:0] = [v] * n
    def insert_back_(s, n, v): s.a += [v] * n
    def push_back_(s, x): s.a.append(x)
    def emplace_back_(s, n, v): s.a.append(Vec([v._copy() for _ in range(n)]))
    def resize_(s, n, *v):
        while len(s.a) < n: s.a.append(v[0] if v else Vec([]) if s.deep else None)
        del s.a[n:]
def cpp_vec(t, *a):
    v = Vec([a[1]._copy() if hasattr(a[1], "_copy") else a[1] for _ in range(a[0])] if len(a) > 1 else []); v.deep = "vector<vector" in t; return v
class Str:
    def __init__(s, v): s.v = v
    def _copy(s): return Str(s.v)
    def append_(s, o): s.v += o.v
    def size_(s): return len(s.v)
    def at_(s, i):
        if i == len(s.v): return 0
        if not 0 <= i < len(s.v): raise Und("index")
        return ord(s.v[i])
    def erase_(s, p): s.v = s.v[:p]
    def find_first_of_(s, cs): return next((i for i, c in enumerate(s.v) if c in cs.v), -1)
def cpp_str(x): return Str(x)
def cpp_to_string(x): return Str(str(x))
class Stack:
    def __init__(s): s.a = []
    def push_(s, x): s.a.append(x)
    def pop_(s): s.a.pop()
    def top_(s): return s.a[-1]
    def empty_(s): return not s.a
def cpp_stack(): return Stack()
class Stream:
    def __init__(s, text=""): s.t = ""; s.lines = text.splitlines()
def cpp_stream(n): return Stream()
def cpp_out_str(s, x): s.t += x.v; return s
def cpp_out_int(s, x): s.t += str(x); return s
def cpp_out_char(s, x): s.t += chr(x); return s
def cpp_getline(s, line):
    if not s.lines: return False
    line.v = s.lines.pop(0); return True
def load(repo=None):
    from .translate import Prog
    p = Prog(repo); t = p.text(); g = dict(globals()); exec(compile(t, "<cpp>", "exec"), g); g["__prog__"] = p; return g
