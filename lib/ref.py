"""Reference model of Noja: a tree-walking evaluator, written from the language's
documentation and independent of the bytecode, the heap and the object model.

Expressions (tuples):
  ('int', v) ('flt', text) ('str', s) ('id', n) ('none',) ('true',) ('false',)
  ('list', [e]) ('map', [(k, e)])  where k is an expression, or ('key', name) for the short form
  ('un', op, e)  op in + - not ?      ('bin', op, a, b)  op in * / % + - == != < <= > >= |
  ('and', a, b) ('or', a, b) ('sel', set, idx)  idx: expression or ('key', name) for the dot form
  ('call', f, [args]) ('mcall', set, name, [args]) ('fun', [param], body)
  ('asg', [target], e)   target: ('id', n) or ('sel', set, idx)
  ('pair', a, b) and ('arw', set, name): only valid in some places
Statements:
  ('expr', e) ('if', c, a, b|None) ('while', c, body) ('do', body, c) ('block', [s]) ('break',)
  ('return', [e]) ('fundef', name, [param], body)
  param: (name, type|None, default|None)
"""
import collections, math, sys
sys.setrecursionlimit(20000)

MAX_FRAMES, MAX_FRAME_STACK, MAX_ARGC, MAX_RETS, MAX_TUPLE = 16, 16, 32, 8, 32
IMIN, IMAX = -(1 << 63), (1 << 63) - 1

class Err(Exception):
    """An error which aborts the program."""
    def __init__(self, kind, msg=None):
        self.kind, self.msg = kind, msg
class Uncertain(Exception):
    """The model doesn't say what happens here."""
class Ret(Exception):
    def __init__(self, vals): self.vals = vals
class Brk(Exception):
    pass

class NList:
    __slots__ = ("items",)
    def __init__(self, items): self.items = items
class NMap:
    __slots__ = ("keys", "vals", "index")
    def __init__(self):
        self.keys, self.vals, self.index = [], [], {}
    def get(self, k):
        try: i = self.index.get(canon(k))
        except Unhashable: return None
        return None if i is None else (self.vals[i],)
    def put(self, k, v):
        try: c = canon(k)
        except Unhashable as u:
            if u.fatal: raise Err("runtime")
            raise Uncertain("list or map as key")
        i = self.index.get(c)
        if i is None:
            self.index[c] = len(self.keys)
            self.keys.append(k); self.vals.append(v)
        else:
            self.vals[i] = v
class NBuf:
    __slots__ = ("mem", "off", "len")
    def __init__(self, mem, off, n): self.mem, self.off, self.len = mem, off, n
class NFun:
    __slots__ = ("params", "body", "scope", "name")
    def __init__(self, params, body, scope, name=None): self.params, self.body, self.scope, self.name = params, body, scope, name
class NNat:
    __slots__ = ("name", "fn", "argc", "noja")
    def __init__(self, name, fn, argc, noja=False): self.name, self.fn, self.argc, self.noja = name, fn, argc, noja
class NStatic:
    __slots__ = ("name", "table")
    def __init__(self, name, table): self.name, self.table = name, table
class NType:
    __slots__ = ("name",)
    def __init__(self, name): self.name = name
class NNullable:
    __slots__ = ("item",)
    def __init__(self, item): self.item = item
class NSum:
    __slots__ = ("a", "b")
    def __init__(self, a, b): self.a, self.b = a, b
class NAny:
    pass
class NHandle:
    """A file or a directory; only what the model of the files needs."""
    def __init__(self, kind, obj): self.kind, self.obj = kind, obj

class Unhashable(Exception):
    def __init__(self, fatal): self.fatal = fatal

def canon(k):
    if k is None: return ("n",)
    t = type(k)
    if t is bool: return ("b", k)
    if t is int: return ("i", k)
    if t is float:
        if k != k: raise Unhashable(False)
        return ("f", k + 0.0 if k else 0.0)
    if t is str: return ("s", k)
    if t in (NList, NMap, NStatic): raise Unhashable(False)
    raise Unhashable(True)

T = {n: NType(n) for n in ("Type", "None", "int", "bool", "float", "String", "Buffer", "List", "Map", "File", "Directory",
                           "NullableType", "SumType", "AnyType", "function", "native function", "static map")}
ANY = NAny()

def typeof(v):
    t = type(v)
    if v is None: return T["None"]
    if t is bool: return T["bool"]
    if t is int: return T["int"]
    if t is float: return T["float"]
    if t is str: return T["String"]
    if t is NList: return T["List"]
    if t is NMap: return T["Map"]
    if t is NBuf: return T["Buffer"]
    if t is NFun: return T["function"]
    if t is NNat: return T["function"] if v.noja else T["native function"]
    if t is NStatic: return T["static map"]
    if t is NType: return T["Type"]
    if t is NNullable: return T["NullableType"]
    if t is NSum: return T["SumType"]
    if t is NAny: return T["AnyType"]
    if t is NHandle: return T[v.kind]
    raise AssertionError(t)

def isint(v): return type(v) is int
def isnum(v): return type(v) in (int, float)

def show(v, busy=()):
    """What print writes."""
    t = type(v)
    if v is None: return "none"
    if t is bool: return "true" if v else "false"
    if t is int: return str(v)
    if t is float: return "%2.2f" % v
    if t is str: return v
    if t in (NList, NMap, NSum, NNullable):
        if id(v) in busy: return "..."
        b = busy + (id(v),)
        if t is NList: return "[" + ", ".join(show(x, b) for x in v.items) + "]"
        if t is NMap: return "{" + ", ".join(show(k, b) + ": " + show(x, b) for k, x in zip(v.keys, v.vals)) + "}"
        if t is NNullable: return "?" + show(v.item, b)
        return show(v.a, b) + " | " + show(v.b, b)
    if t is NBuf: return "[" + ", ".join("%02X" % x for x in v.mem[v.off:v.off+v.len]) + "]"
    if t is NType: return v.name
    return "<%s is unprintable>" % typeof(v).name

def equal(a, b):
    if typeof(a) is not typeof(b): return False
    t = type(a)
    if a is None: return True
    if t in (bool, int, float, str): return a == b
    if t is NType: return a is b
    raise Err("runtime")

def istypeof(p, v, busy=()):
    if type(p) in (NList, NMap, NSum, NNullable):
        if id(p) in busy: raise Err("runtime")
        busy = busy + (id(p),)
    t = type(p)
    if t is NType: return typeof(v) is p
    if t is NAny: return True
    if t is NNullable: return v is None or istypeof(p.item, v, busy)
    if t is NSum: return istypeof(p.a, v, busy) or istypeof(p.b, v, busy)
    if t is NList:
        if type(v) is not NList or len(v.items) < len(p.items): return False
        return all(istypeof(q, w, busy) for q, w in zip(p.items, v.items))
    if t is NMap:
        if type(v) is not NMap: return False
        for k, q in zip(p.keys, p.vals):
            if type(k) not in (type(None), bool, int, float, str): raise Uncertain("pattern key")
            w = v.get(k)
            if w is None or not istypeof(q, w[0], busy): return False
        return True
    return False

def checked(n):
    if n < IMIN or n > IMAX: raise Err("runtime")
    return n

def cdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q

def arith(op, a, b):
    if op == "%":
        if not isint(a) or not isint(b) or b == 0: raise Err("runtime")
        return a - b * cdiv(a, b)
    if not isnum(a) or not isnum(b): raise Err("runtime")
    if op == "/":
        if b == 0: raise Err("runtime")
        if isint(a) and isint(b): return checked(cdiv(a, b))
        return float(a) / float(b)
    if isint(a) and isint(b):
        return checked(a + b if op == "+" else a - b if op == "-" else a * b)
    a, b = float(a), float(b)
    return a + b if op == "+" else a - b if op == "-" else a * b

def relate(op, a, b):
    if not isnum(a) or not isnum(b): raise Err("runtime")
    if type(a) is not type(b): a, b = float(a), float(b)
    return a < b if op == "<" else a <= b if op == "<=" else a > b if op == ">" else a >= b

def select(c, k):
    """Selection never fails: what can't be selected is none."""
    t = type(c)
    if t is NList:
        return c.items[k] if isint(k) and 0 <= k < len(c.items) else None
    if t is str:
        return c[k] if isint(k) and 0 <= k < len(c) else None
    if t is NBuf:
        return c.mem[c.off + k] if isint(k) and 0 <= k < c.len else None
    if t is NMap:
        r = c.get(k)
        return None if r is None else r[0]
    if t is NStatic:
        return c.table.get(k) if type(k) is str else None
    return None

def insert(c, k, v):
    t = type(c)
    if t is NList:
        if not isint(k) or not 0 <= k <= len(c.items): raise Err("runtime")
        if k == len(c.items): c.items.append(v)
        else: c.items[k] = v
    elif t is NMap:
        c.put(k, v)
    elif t is NBuf:
        if not isint(k) or not isint(v) or not 0 <= k < c.len or not 0 <= v <= 255: raise Err("runtime")
        c.mem[c.off + k] = v
    else:
        raise Err("runtime")

def count(c):
    t = type(c)
    if t is NList: return len(c.items)
    if t is str: return len(c)
    if t is NBuf: return c.len
    if t is NMap: return len(c.keys)
    raise Err("runtime")

def keysof(c):
    t = type(c)
    if t is NMap: return NList(list(c.keys))
    if t in (NList, str, NBuf): return NList(list(range(count(c))))
    return None

def enc(s): return s.encode("utf-8", "surrogatepass")
def dec(b):
    """Strict UTF-8, except for surrogates, which are accepted; None if invalid."""
    try: return b.decode("utf-8", "surrogatepass")
    except UnicodeDecodeError: return None

class MapVars:
    """The variables of a scope, as seen through the map that import returns."""
    def __init__(self, m): self.m = m
    def __contains__(self, n): return self.m.get(n) is not None
    def __getitem__(self, n): return self.m.get(n)[0]
    def __setitem__(self, n, v): self.m.put(n, v)

class Scope:
    __slots__ = ("vars", "up", "file")
    def __init__(self, up): self.vars, self.up, self.file = {}, up, (up.file if up else None)
    def find(self, n):
        s = self
        while s is not None:
            if n in s.vars: return s
            s = s.up
        return None

class Interp:
    def __init__(self, stdin=b"", max_steps=60000, libc=None, strict=False, files=None, main=None):
        self.strict = strict
        self.files, self.file, self.main = files, main, main
        self.out = []
        self.steps = 0
        self.max_steps = max_steps
        self.depth = 0
        self.stdin = stdin
        self.inpos = 0
        self.libc = libc
        self.trace = {}
        self.calls = collections.Counter()
        self.builtins = make_builtins(self)

    # -- running ------------------------------------------------------------
    def run(self, prog):
        """prog: list of statements. Returns (output bytes, None | Err)."""
        try:
            check_static(prog)
            self.depth = 1
            g = Scope(None)
            g.file = self.main
            self.globals = g
            try:
                self.block(prog, g)
            except Ret as r:
                if len(r.vals) > MAX_RETS: raise Err("runtime")
            return b"".join(self.out), None
        except Err as e:
            return b"".join(self.out), e

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps: raise Uncertain("too many steps")

    def note(self, k):
        self.trace[k] = self.trace.get(k, 0) + 1

    def block(self, ss, sc):
        for s in ss: self.stmt(s, sc)

    def stmt(self, s, sc):
        self.tick()
        k = s[0]
        if k == "expr":
            self.ev(s[1], sc, 0)
        elif k == "if":
            if self.cond(s[1], sc): self.stmt(s[2], sc)
            elif s[3] is not None: self.stmt(s[3], sc)
        elif k == "while":
            while self.cond(s[1], sc):
                self.tick()
                try: self.stmt(s[2], sc)
                except Brk: break
        elif k == "do":
            while True:
                self.tick()
                try: self.stmt(s[1], sc)
                except Brk: break
                if not self.cond(s[2], sc): break
        elif k == "block":
            self.block(s[1], sc)
        elif k == "break":
            raise Brk()
        elif k == "return":
            vals = []
            for i, e in enumerate(s[1]): vals.append(self.ev(e, sc, i))
            raise Ret(vals)
        elif k == "fundef":
            f = NFun(s[2], s[3], sc, s[1])
            sc.vars[s[1]] = f
        else:
            raise AssertionError(k)

    def cond(self, e, sc):
        v = self.ev(e, sc, 0)
        if type(v) is not bool: raise Err("runtime")
        self.note("cond %s" % v)
        return v

    # -- expressions: d is the number of values on the frame's stack ---------
    def room(self, d):
        # How deep an expression may get depends on how it's compiled, so by default the
        # model says nothing about those that are near the limit.
        if d >= MAX_FRAME_STACK:
            if self.strict: raise Err("runtime")
            raise Uncertain("stack limit")

    def ev(self, e, sc, d):
        self.tick()
        k = e[0]
        if k == "int": self.room(d); return e[1]
        if k == "flt": self.room(d); return float(e[1])
        if k == "str" or k == "key": self.room(d); return e[1]
        if k == "none": self.room(d); return None
        if k == "true": self.room(d); return True
        if k == "false": self.room(d); return False
        if k == "id":
            v = self.lookup(e[1], sc)
            self.room(d)
            return v
        if k == "list":
            self.room(d)
            l = NList([])
            for x in e[1]:
                self.room(d+1)
                v = self.ev(x, sc, d+2)
                l_i = len(l.items)
                # The indices are the positions in the source, whatever
                # the items' expressions did to the list.
                insert(l, l_i, v)
            return l
        if k == "map":
            self.room(d)
            m = NMap()
            for kk, x in e[1]:
                key = self.ev(kk, sc, d+1)
                v = self.ev(x, sc, d+2)
                m.put(key, v)
            return m
        if k == "un":
            v = self.ev(e[2], sc, d)
            op = e[1]
            if op == "+": return v
            if op == "-":
                if isint(v): return checked(-v)
                if type(v) is float: return -v
                raise Err("runtime")
            if op == "not":
                if type(v) is not bool: raise Err("runtime")
                return not v
            return NNullable(v)
        if k == "bin":
            a = self.ev(e[2], sc, d)
            b = self.ev(e[3], sc, d+1)
            op = e[1]
            self.note("bin %s %s %s" % (op, typeof(a).name, typeof(b).name))
            if op == "==": return equal(a, b)
            if op == "!=": return not equal(a, b)
            if op == "|": return NSum(a, b)
            if op in ("<", "<=", ">", ">="): return relate(op, a, b)
            return arith(op, a, b)
        if k in ("and", "or"):
            stop = k == "or"
            for x in e[1:]:
                v = self.ev(x, sc, d)
                if type(v) is not bool: raise Err("runtime")
                if v is stop:
                    self.room(d)
                    return stop
            self.room(d)
            return not stop
        if k == "sel":
            c = self.ev(e[1], sc, d)
            i = self.ev(e[2], sc, d+1)
            return select(c, i)
        if k == "fun":
            self.room(d)
            return NFun(e[1], e[2], sc)
        if k in ("call", "mcall"):
            return self.call(e, sc, d, 1)[0]
        if k == "asg":
            ts = e[1]
            if len(ts) == 1:
                vals = [self.ev(e[2], sc, d)]
            else:
                vals = self.call(e[2], sc, d, len(ts))
            for j in range(len(ts) - 1, -1, -1):
                self.assign(ts[j], vals[j], sc, d + j + 1)
            return vals[0]
        raise AssertionError(k)

    def assign(self, t, v, sc, d):
        if t[0] == "id":
            sc.vars[t[1]] = v
        else:
            c = self.ev(t[1], sc, d)
            k = self.ev(t[2], sc, d+1)
            insert(c, k, v)

    def lookup(self, n, sc):
        s = sc.find(n)
        if s is not None: return s.vars[n]
        if n in self.builtins: return self.builtins[n]
        raise Err("runtime", 'Reference to undefined variable "%s"' % n)

    def call(self, e, sc, d, want):
        """Evaluates a call; returns exactly `want` values."""
        if e[0] == "call": args = e[2]
        else: args = e[3]
        vals = []
        for i in range(len(args) - 1, -1, -1):
            vals.append(self.ev(args[i], sc, d + len(vals)))
        vals.reverse()
        if e[0] == "call":
            f = self.ev(e[1], sc, d + len(vals))
        else:
            c = self.ev(e[1], sc, d + len(vals))
            self.room(d + len(vals) + 1)
            f = select(c, e[2])
            vals = [c] + vals
        if len(vals) > MAX_ARGC: raise Err("internal")
        rets = self.apply(f, vals)
        if len(rets) > MAX_RETS: raise Err("runtime")
        rets = rets[:want] + [None] * (want - len(rets))
        for i in range(want): self.room(d + i)
        return rets

    def apply(self, f, args):
        self.tick()
        if type(f) is NNat:
            if f.argc >= 0:
                args = (args + [None] * f.argc)[:f.argc]
            if self.depth >= MAX_FRAMES: raise Err("internal")
            if f.noja and self.depth + 8 > MAX_FRAMES: raise Uncertain("depth of the prelude")
            self.depth += 1
            try: r = f.fn(self, args)
            finally: self.depth -= 1
            self.note("native " + f.name)
            return r
        if type(f) is not NFun: raise Err("runtime")
        self.note("call")
        self.calls[f.name, f.scope.file] += 1
        ps = f.params
        args = (args + [None] * len(ps))[:len(ps)]
        if self.depth >= MAX_FRAMES: raise Err("internal")
        self.depth += 1
        file, self.file = self.file, f.scope.file
        try:
            if len(args) > MAX_FRAME_STACK: raise Err("runtime")
            sc = Scope(f.scope)
            for i in range(len(ps) - 1, -1, -1):
                n, ty, df = ps[i]
                v = args[i]
                if df is not None:
                    self.room(i + 1); self.room(i + 2)
                    if v is None:
                        v = self.ev(df, sc, i)
                        self.note("default")
                if ty is not None:
                    t = self.ev(ty, sc, i + 1)
                    ok = istypeof(t, v)
                    self.note("checktype %s" % ok)
                    if not ok: raise Err("runtime")
                sc.vars[n] = v
            try:
                self.stmt(f.body, sc)
                return []
            except Ret as r:
                if len(r.vals) > MAX_RETS: raise Err("runtime")
                return r.vals
        finally:
            self.depth -= 1
            self.file = file

# -- what the compiler refuses -------------------------------------------------
def check_static(prog):
    for s in prog: _cs(s, False)

def _cs(s, loop):
    k = s[0]
    if k == "expr": _ce(s[1])
    elif k == "if":
        _ce(s[1]); _cs(s[2], loop)
        if s[3] is not None: _cs(s[3], loop)
    elif k == "while": _ce(s[1]); _cs(s[2], True)
    elif k == "do": _cs(s[1], True); _ce(s[2])
    elif k == "block":
        for x in s[1]: _cs(x, loop)
    elif k == "break":
        if not loop: raise Err("semantic")
    elif k == "return":
        if len(s[1]) > MAX_TUPLE: raise Err("internal")
        for x in s[1]: _ce(x)
    elif k == "fundef": _cf(s[2], s[3])

def _cf(params, body):
    for n, t, df in params:
        if df is not None: _ce(df)
        if t is not None: _ce(t)
    _cs(body, False)

def _ce(e):
    k = e[0]
    if k in ("pair", "arw"): raise Err("semantic")
    if k == "un": _ce(e[2])
    elif k == "bin": _ce(e[2]); _ce(e[3])
    elif k in ("and", "or", "sel"): _ce(e[1]); _ce(e[2])
    elif k == "list":
        for x in e[1]: _ce(x)
    elif k == "map":
        for a, b in e[1]: _ce(a); _ce(b)
    elif k == "call":
        for x in e[2]: _ce(x)
        _ce(e[1])
    elif k == "mcall":
        for x in e[3]: _ce(x)
        _ce(e[1])
    elif k == "fun": _cf(e[1], e[2])
    elif k == "asg":
        if len(e[1]) > MAX_TUPLE: raise Err("internal")
        if len(e[1]) > 1 and e[2][0] not in ("call", "mcall"): raise Err("semantic")
        _ce(e[2])
        for t in e[1]:
            if t[0] not in ("id", "sel"): raise Err("semantic")
            if t[0] == "sel": _ce(t[1]); _ce(t[2])

# -- builtins --------------------------------------------------------------------
def need(ok):
    if not ok: raise Err("runtime")

def b_print(it, a):
    for v in a: it.out.append(enc(show(v)))
    return []
def b_assert(it, a):
    for v in a:
        need(type(v) is bool)
        need(v)
    return []
def b_import(it, a):
    import os
    need(type(a[0]) is str)
    if it.files is None: raise Uncertain("import")
    if "\0" in a[0]: raise Err("unspecified")
    p = os.path.normpath(os.path.join("/" if it.file is None else os.path.dirname(it.file), a[0]))
    if p not in it.files: raise Err("unspecified")
    prog = it.files[p]
    it.note("import")
    if isinstance(prog, Err): raise prog
    check_static(prog)
    if it.depth >= MAX_FRAMES: raise Err("internal")
    it.depth += 1
    file, it.file = it.file, p
    m = NMap()
    try:
        g = Scope(None)
        g.file, g.vars = p, MapVars(m)
        it.block(prog, g)
        return [m]
    except Ret as r:
        if len(r.vals) > MAX_RETS: raise Err("runtime")
        return r.vals
    finally:
        it.file = file
        it.depth -= 1

def b_error(it, a):
    need(type(a[0]) is str)
    raise Err("runtime", a[0])
def b_input(it, a):
    if it.inpos >= len(it.stdin): return []
    j = it.stdin.find(b"\n", it.inpos)
    if j < 0: line, it.inpos = it.stdin[it.inpos:], len(it.stdin)
    else: line, it.inpos = it.stdin[it.inpos:j], j + 1
    s = dec(line)
    need(s is not None)
    return [s]
def s_ord(it, a):
    need(type(a[0]) is str and len(a[0]) > 0)
    return [ord(a[0][0])]
def s_chr(it, a):
    need(isint(a[0]) and 0 <= a[0] <= 0x10ffff)
    return [chr(a[0])]
def s_cat(it, a):
    need(all(type(x) is str for x in a))
    return ["".join(a)]
def s_slice(it, a):
    need(type(a[0]) is str)
    b = enc(a[0])
    for x in a[1:]: need(x is None or isint(x))
    off = 0 if a[1] is None else a[1]
    need(off >= 0)
    n = len(b) - off if a[2] is None else a[2]
    if a[2] is not None: need(n >= 0)
    need(off <= len(b))
    need(off + n <= len(b))
    r = dec(b[off:off+n])
    need(r is not None)
    return [r]
def s_trim(it, a):
    need(type(a[0]) is str)
    return [a[0].strip(" ")]
def s_toInt(it, a):
    need(type(a[0]) is str)
    s = a[0]
    if s == "" or any(c not in "0123456789" for c in s):
        # an overflow may be noticed before the invalid character
        return [None, ANYSTR]
    if int(s) > IMAX: return [None, ANYSTR]
    return [int(s)]
class _AnyStr(str):
    """A message whose text isn't specified."""
ANYSTR = "?"

def bf_new(it, a):
    need(isint(a[0]) and a[0] >= 0)
    if a[0] > 1 << 25: raise Uncertain("big buffer")
    return [NBuf(bytearray(a[0]), 0, a[0])]
def bf_slice(it, a):
    b, o, n = a
    need(type(b) is NBuf and isint(o) and isint(n))
    need(0 <= o < b.len and 0 <= n <= b.len - o)
    return [NBuf(b.mem, b.off + o, n)]
def bf_fromString(it, a):
    need(type(a[0]) is str)
    m = bytearray(enc(a[0]))
    return [NBuf(m, 0, len(m))]
def bf_toString(it, a):
    need(type(a[0]) is NBuf)
    b = a[0]
    s = dec(bytes(b.mem[b.off:b.off+b.len]))
    return [None, ANYSTR] if s is None else [s]

def m1(f):
    def g(it, a):
        need(type(a[0]) is float)
        try: return [f(a[0])]
        except (ValueError, OverflowError): raise Uncertain("math domain")
    return g
def m2(f):
    def g(it, a):
        need(type(a[0]) is float and type(a[1]) is float)
        try: return [f(a[0], a[1])]
        except (ValueError, OverflowError): raise Uncertain("math domain")
    return g
def rounded(f):
    def g(it, a):
        v = a[0]
        need(type(v) is float)
        need(v == v and not math.isinf(v))
        return [checked(int(f(v)))]
    return g

def r_seed(it, a):
    need(isint(a[0]))
    if it.libc is None: raise Uncertain("random")
    it.libc.srand(a[0] & 0xffffffff)
    return [None]

def p_toString(it, a):
    return [tostr(it, a[0], True if a[1] is None else a[1])]
def tostr(it, v, use):
    t = type(v)
    it.tick()
    if v is None: return "none"
    if t is bool: raise Err("runtime")
    if t is int: return str(v)
    if t is float: raise Uncertain("toString of a float")
    if t is str: return v
    if t is NType: return "Type"
    if typeof(v) is T["function"]: return "Func"
    if t is NNat: return "NFunc"
    if t in (NList, NMap):
        it.depth += 3
        try:
            if it.depth + 8 > MAX_FRAMES: raise Uncertain("depth of the prelude")
            if t is NList: return "[" + ", ".join(tostr(it, x, True) for x in v.items) + "]"
            if type(use) is not bool: raise Uncertain("can_use_method")
            m = v.get("toString")
            if use and m is not None and type(m[0]) in (NFun, NNat):
                r = it.apply(m[0], [v])
                r = r[0] if r else None
                if type(r) is not str: raise Uncertain("toString method")
                return r
            return "{" + ", ".join(tostr(it, k, True) + ": " + tostr(it, x, True) for k, x in zip(v.keys, v.vals)) + "}"
        finally:
            it.depth -= 3
    raise Err("runtime")
def p_digit(it, a):
    need(type(a[0]) is str and len(a[0]) > 0)
    r = ord(a[0][0]) - 48
    need(0 <= r <= 9)
    return [r]
def p_append(it, a):
    need(type(a[0]) is NList)
    insert(a[0], len(a[0].items), a[1])
    return []
def p_abs(it, a):
    need(isnum(a[0]))
    n = a[0]
    if n < 0: n = checked(-n) if isint(n) else -n
    return [n]
def p_min(it, a): return [a[0] if relate("<", a[0], a[1]) else a[1]]
def p_max(it, a): return [a[0] if relate(">", a[0], a[1]) else a[1]]
def p_iscallable(it, a): return [type(a[0]) in (NFun, NNat)]
def p_iter(it, a):
    s, use = a[0], True if a[1] is None else a[1]
    need(type(s) in (NList, NMap))
    if type(use) is not bool: raise Uncertain("can_use_method")
    m = s.get("iter") if use and type(s) is NMap else None
    if m is not None and type(m[0]) in (NFun, NNat): return list(it.apply(m[0], [s]))
    o = NMap()
    o.put("set", s); o.put("keys", keysof(s)); o.put("index", None)
    def nxt(it, b):
        i = b[0]
        need(type(i) is NMap)
        g = {k: i.get(k) for k in ("set", "keys", "index", "next")}
        need(all(g.values()))
        g = {k: v[0] for k, v in g.items()}
        need(type(g["set"]) is type(s) and type(g["keys"]) is NList and (g["index"] is None or isint(g["index"])) and type(g["next"]) in (NFun, NNat))
        n, ks = g["index"], g["keys"].items
        if n is None: n = 0
        elif n < len(ks): n += 1
        if n == len(ks): return [None]
        if not 0 <= n < len(ks): raise Uncertain("altered iterator")
        k = ks[n]
        i.put("index", n)
        return [select(g["set"], k), k, n]
    o.put("next", NNat("next", nxt, 1, noja=True))
    return [o]

def make_builtins(it):
    def nat(mod, **fs):
        return NStatic(mod, {n: (NNat(n, f[0], f[1]) if type(f) is tuple else f) for n, f in fs.items()})
    b = {n: T[n] for n in ("Type", "None", "int", "bool", "float", "String", "Buffer", "List", "Map", "File", "Directory", "NullableType", "SumType")}
    b["any"] = ANY
    b["string"] = nat("string", ord=(s_ord, 1), chr=(s_chr, 1), cat=(s_cat, -1), trim=(s_trim, 1), slice=(s_slice, 3), toInt=(s_toInt, 1))
    b["buffer"] = nat("buffer", new=(bf_new, 1), sliceUp=(bf_slice, 3), toString=(bf_toString, 1), fromString=(bf_fromString, 1))
    b["math"] = nat("math", PI=math.pi, E=math.e, floor=(rounded(math.floor), 1), ceil=(rounded(math.ceil), 1), sqrt=(m1(math.sqrt), 1))
    b["random"] = nat("random", seed=(r_seed, 1))
    def un(name):
        def f(it, a): raise Uncertain(name)
        return f
    for n in ("net", "files"): b[n] = nat(n)
    for n, f, c in (("type", lambda it, a: [typeof(a[0])], 1), ("print", b_print, -1), ("input", b_input, 0),
                    ("count", lambda it, a: [count(a[0])], 1), ("error", b_error, 1), ("assert", b_assert, -1),
                    ("istypeof", lambda it, a: [istypeof(a[0], a[1])], 2), ("typename", lambda it, a: [typeof(a[0]).name], 1),
                    ("keysof", lambda it, a: [keysof(a[0])], 1), ("import", b_import, 1)):
        b[n] = NNat(n, f, c)
    b["Func"], b["NFunc"] = T["function"], T["native function"]
    b["Numeric"] = NSum(T["int"], T["float"])
    b["Callable"] = NSum(b["Func"], b["NFunc"])
    b["Collection"] = NSum(T["List"], T["Map"])
    for n, f, c in (("toString", p_toString, 2), ("integerFromDigit", p_digit, 1), ("isCallable", p_iscallable, 1), ("append", p_append, 2),
                    ("abs", p_abs, 1), ("min", p_min, 2), ("max", p_max, 2), ("makeIterator", p_iter, 2)):
        b[n] = NNat(n, f, c, noja=True)
    return b
