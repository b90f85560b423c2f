"""Prints the AST of ref.py as Noja source (with random layout) and generates random programs."""
import random
from ref import IMIN, IMAX

PREC = {"|": 1, "or": 2, "and": 3, "<": 4, ">": 4, "<=": 4, ">=": 4, "==": 4, "!=": 4, "+": 5, "-": 5, "*": 6, "/": 6, "%": 6}

class Printer:
    """style: 0 plain; 1 random whitespace, comments, redundant parentheses, quotes."""
    def __init__(self, rng=None, style=0, parens=0.0):
        self.rng, self.style, self.parens = rng, style, parens
        self.toks = []

    def program(self, prog):
        self.toks = []
        for s in prog: self.stmt(s)
        return self.join()

    def t(self, *a): self.toks.extend(a)

    def join(self):
        if not self.style:
            out, col = [], 0
            for t in self.toks:
                out.append(t)
                out.append("\n" if t in (";", "}") else " ")
            return "".join(out)
        r = self.rng
        out = []
        prev = ""
        for t in self.toks:
            must = prev != "" and needs_space(prev, t)
            x = r.random()
            if must or x < 0.25:
                y = r.random()
                if y < 0.6: w = " "
                elif y < 0.75: w = "\n"
                elif y < 0.83: w = "\t"
                elif y < 0.85: w = r.choice(["\r\n", "\r", "\f", "\v", " \v", "\f\f", "\t\r\n "])
                elif y < 0.92: w = " " * r.randrange(1, 5) + "\n\t"
                elif y < 0.97: w = "#" + r.choice(["", " x", "'\"", "{ if", ";#", "\\", "fun f(", "é", "\r", "\f ]", " \v)", "\t;", "\r1", "日\x01", "##"]) + "\n"
                else: w = " # c\n\n"
                out.append(w)
            out.append(t)
            prev = t
        if r.random() < 0.3: out.append(r.choice(["\n", " ", "# end", "\t\n"]))
        return "".join(out)

    # -- statements
    def stmt(self, s):
        k = s[0]
        if k == "expr":
            e = s[1]
            if self.leads_with_brace(e):
                self.t("("); self.ex(e, 0); self.t(")")
            else:
                self.ex(e, 0)
            self.t(";")
        elif k == "if":
            self.t("if"); self.ex(s[1], 0); self.t(":")
            if s[3] is None:
                self.stmt(s[2])
            else:
                if open_if(s[2]):
                    self.t("{"); self.stmt(s[2]); self.t("}")
                else: self.stmt(s[2])
                self.t("else"); self.stmt(s[3])
        elif k == "while":
            self.t("while"); self.ex(s[1], 0); self.t(":"); self.stmt(s[2])
        elif k == "do":
            self.t("do"); self.stmt(s[1]); self.t("while"); self.ex(s[2], 0); self.t(";")
        elif k == "block":
            self.t("{")
            for x in s[1]: self.stmt(x)
            self.t("}")
        elif k == "break": self.t("break", ";")
        elif k == "return":
            self.t("return")
            if len(s[1]) == 1: self.ex(s[1][0], 0)
            else: self.tuple(s[1])
            self.t(";")
        elif k == "fundef":
            self.t("fun", s[1]); self.params(s[2]); self.stmt(s[3])
        elif k == "raw":
            self.t(s[1])
        else: raise AssertionError(k)

    def leads_with_brace(self, e):
        while True:
            k = e[0]
            if k == "map": return True
            if k == "bin": e = e[2]
            elif k in ("and", "or", "sel", "call", "mcall"): e = e[1]
            elif k == "asg":
                if e[1][0][0] == "id": return False
                e = e[1][0][1]
            else: return False

    def params(self, ps):
        self.t("(")
        for i, (n, ty, df) in enumerate(ps):
            if i: self.t(",")
            self.t(n)
            if ty is not None: self.t(":"); self.ex(ty, 1)
            if df is not None: self.t("="); self.ex(df, 0)
        self.t(")")

    def tuple(self, es):
        for i, e in enumerate(es):
            if i: self.t(",")
            self.ex(e, 8)

    # -- expressions; `min` is the lowest precedence that needs no parentheses
    def ex(self, e, min):
        p = prec(e)
        # Some things can't be put between parentheses without changing what they mean: none here.
        wrap = p < min or (self.parens and self.rng.random() < self.parens)
        if wrap: self.t("(")
        k = e[0]
        if k == "int": self.t(str(e[1]))
        elif k == "flt": self.t(e[1])
        elif k == "str": self.t(self.string(e[1]))
        elif k in ("none", "true", "false"): self.t(k)
        elif k == "id": self.t(e[1])
        elif k == "list":
            self.t("["); self.args(e[1]); self.t("]")
        elif k == "map":
            self.t("{")
            n = len(e[1])
            for i, (kk, v) in enumerate(e[1]):
                if v[0] == "fun" and kk[0] == "key":
                    self.t("fun", kk[1]); self.params(v[1]); self.stmt(v[2])
                    continue
                if kk[0] == "key": self.t(kk[1])
                elif kk[0] == "id": self.t("("); self.ex(kk, 0); self.t(")")
                else: self.ex(kk, 0)
                self.t(":"); self.ex(v, 0)
                if i < n - 1: self.t(",")
            self.t("}")
        elif k == "un":
            self.t(e[1]); self.ex(e[2], 8)
        elif k == "bin":
            q = PREC[e[1]]
            self.ex(e[2], q); self.t(e[1]); self.ex(e[3], q + 1)
        elif k in ("and", "or"):
            q = PREC[k]
            self.ex(e[1], q); self.t(k); self.ex(e[2], q + 1)
        elif k == "sel":
            self.ex(e[1], 9)
            if e[2][0] == "key": self.t(".", e[2][1])
            elif e[2][0] == "list" and len(e[2][1]) > 1 and not self.parens: # [a, b] is the list as a key
                self.t("["); self.args(e[2][1]); self.t("]")
            else: self.t("["); self.ex(e[2], 0); self.t("]")
        elif k == "call":
            self.ex(e[1], 9); self.t("("); self.args(e[2]); self.t(")")
        elif k == "mcall":
            self.ex(e[1], 9); self.t("->", e[2], "("); self.args(e[3]); self.t(")")
        elif k == "asg":
            if len(e[1]) == 1: self.target(e[1][0])
            else:
                for i, x in enumerate(e[1]):
                    if i: self.t(",")
                    self.target(x)
            self.t("="); self.ex(e[2], 0)
        elif k == "pair":
            self.ex(e[1], 7); self.t(","); self.ex(e[2], 8)
        elif k == "arw":
            self.ex(e[1], 9); self.t("->", e[2])
        else: raise AssertionError(k)
        if wrap: self.t(")")

    def target(self, x):
        s, self.parens = self.parens, 0.0
        self.ex(x, 8)
        self.parens = s

    def args(self, es):
        for i, e in enumerate(es):
            if i: self.t(",")
            self.ex(e, 0)

    def string(self, s):
        q = '"'
        if self.style and self.rng.random() < 0.4: q = "'"
        out = []
        for c in s:
            if c == "\n": out.append("\\n")
            elif c == "\t": out.append("\\t")
            elif c == "\r": out.append("\\r")
            elif c == "\\": out.append("\\\\")
            elif c == q: out.append("\\" + c)
            else: out.append(c)
        return q + "".join(out) + q

def prec(e):
    k = e[0]
    if k == "asg": return 0
    if k == "bin": return PREC[e[1]]
    if k in ("and", "or"): return PREC[k]
    if k == "pair": return 7
    if k == "un": return 8
    if k in ("sel", "call", "mcall", "arw"): return 9
    return 10

def open_if(s):
    while True:
        if s[0] == "if":
            if s[3] is None: return True
            s = s[3]
        elif s[0] == "while": s = s[2]
        elif s[0] == "fundef": s = s[3]
        else: return False

WORD = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")
OPER = set("+-*/<>!=,|%&^~?")
def needs_space(a, b):
    x, y = a[-1], b[0]
    if x in WORD and y in WORD: return True
    if x in OPER and y in OPER: return True
    if x == "." or y == ".": return (x in "0123456789" or y in "0123456789")
    return False

def source(prog, rng=None, style=0, parens=0.0):
    return Printer(rng, style, parens).program(prog)

# -- helpers to build ASTs -----------------------------------------------------------
def I(v):
    if v == IMIN: return ("bin", "-", ("un", "-", ("int", IMAX)), ("int", 1))
    return ("int", v) if v >= 0 else ("un", "-", ("int", -v))
def F(text): return ("un", "-", ("flt", text[1:])) if text.startswith("-") else ("flt", text)
def S(s): return ("str", s)
def V(n): return ("id", n)
def call(f, *a): return ("call", V(f) if isinstance(f, str) else f, list(a))
def dot(s, n): return ("sel", s if not isinstance(s, str) else V(s), ("key", n))
def asg(t, e): return ("asg", [V(t) if isinstance(t, str) else t], e)
def X(e): return ("expr", e)
def B(*s): return ("block", list(s))
def P(*a): return X(call("print", *a))
NONE, TRUE, FALSE = ("none",), ("true",), ("false",)

# -- random programs ------------------------------------------------------------------
BOUND = [0, 1, 2, 3, 7, 10, 16, 255, 256, 1000, (1 << 31) - 1, 1 << 31, (1 << 32), (1 << 32) + 1, (1 << 53) + 1, IMAX, IMAX - 1]
FLTS = ["0.0", "1.0", "0.5", "2.25", "3.14159", "100.125", "1000000.5", "0.1", "12345678.9"]
STRS = ["", "a", "b", "ab", "hello", " x ", "12", "é", "a\nb", "'", '"', "日本", "z" * 20, "0", "key", "𝄞"]

class Fn:
    def __init__(self, name, ptypes, rtypes): self.name, self.ptypes, self.rtypes = name, ptypes, rtypes

class Env:
    def __init__(self, up=None):
        self.up, self.vars, self.loop, self.infun = up, {}, 0, up is not None
        self.frozen = set()
    def all(self):
        out = {}
        e = self
        chain = []
        while e is not None: chain.append(e); e = e.up
        for e in reversed(chain): out.update(e.vars)
        return out
    def of(self, ty): return [n for n, t in self.all().items() if t == ty]
    def funs(self): return [(n, t) for n, t in self.all().items() if isinstance(t, Fn)]

class Gen:
    TYPES = ["int", "int", "int", "flt", "bool", "str", "str", "list", "map"]
    def __init__(self, rng, wild=0.02, trace=0.15, size=25):
        self.r, self.wild, self.trace, self.size = rng, wild, trace, size
        self.n = 0
        self.budget = size

    def fresh(self, p="v"):
        self.n += 1
        return f"{p}{self.n}"

    def program(self):
        env = Env()
        prog = [("fundef", "tr", [("x", None, None)], B(P(S("<"), V("x"), S(">")), ("return", [V("x")])))]
        env.vars["tr"] = "tr"
        while self.budget > 0:
            prog.append(self.stmt(env, 3))
        for n, t in list(env.all().items()):
            if t in ("int", "flt", "bool", "str", "list", "map"):
                prog.append(P(S(n + "="), V(n), S("\n")))
        return prog

    # expressions ------------------------------------------------------------
    def ty(self): return self.r.choice(self.TYPES)

    def e(self, env, ty, d):
        r = self.r
        if r.random() < self.wild: ty = self.ty()
        x = self.e2(env, ty, d)
        if r.random() < self.trace * 0.5: x = call("tr", x)
        return x

    def e2(self, env, ty, d):
        r = self.r
        vs = env.of(ty)
        if vs and r.random() < 0.35: return V(r.choice(vs))
        if d > 0 and r.random() < 0.12:
            fs = [(n, f) for n, f in env.funs() if f.rtypes and f.rtypes[0] == ty]
            if fs: return self.callf(env, *r.choice(fs), d)
        if d > 0 and r.random() < 0.04:
            free = [n for n in env.vars if env.vars[n] == ty and n not in env.frozen]
            if free: return asg(r.choice(free), self.e(env, ty, d - 1))
        if d > 0 and r.random() < 0.06:
            l = ("list", [self.e(env, ty, d - 1) for _ in range(r.randrange(1, 4))])
            return ("sel", l, ("int", r.randrange(len(l[1]))))
        if d > 0 and r.random() < 0.05:
            k = r.choice("abc")
            m = ("map", [(("key", x), self.e(env, ty, d - 1)) for x in ("abc" if r.random() < 0.3 else k)])
            return ("sel", m, ("key", k) if r.random() < 0.5 else S(k))
        if ty == "int":
            x = r.random()
            if d <= 0 or x < 0.25:
                return I(r.choice(BOUND) if r.random() < 0.06 else r.randrange(-5, 30))
            if x < 0.65:
                return ("bin", r.choice("++--*"), self.e(env, "int", d - 1), self.e(env, "int", d - 1))
            if x < 0.75:
                return ("bin", r.choice("/%"), self.e(env, "int", d - 1), I(r.choice([1, 2, 3, 5, 7, -2, -3]) if r.random() < .97 else 0))
            if x < 0.8: return ("un", r.choice("-+"), self.e(env, "int", d - 1))
            if x < 0.9: return call("count", self.e(env, r.choice(["str", "list", "map"]), d - 1))
            if x < 0.93: return call("abs", self.e(env, "int", d - 1))
            if x < 0.97: return call(r.choice(["min", "max"]), self.e(env, "int", d - 1), self.e(env, "int", d - 1))
            return call(dot("string", "ord"), ("str", r.choice([s for s in STRS if s])))
        if ty == "flt":
            x = r.random()
            if d <= 0 or x < 0.3: return F(r.choice(FLTS) if r.random() < .8 else "-" + r.choice(FLTS))
            if x < 0.7:
                a, b = self.e(env, "flt", d - 1), self.e(env, r.choice(["int", "flt"]), d - 1)
                if r.random() < 0.5: a, b = b, a
                return ("bin", r.choice("+-*"), a, b)
            if x < 0.85: return ("bin", "/", self.e(env, "flt", d - 1), r.choice([F("2.0"), F("-0.5"), I(4), I(-3)]))
            if x < 0.9: return ("un", r.choice("-+"), self.e(env, "flt", d - 1))
            return call("abs", self.e(env, "flt", d - 1))
        if ty == "bool":
            x = r.random()
            if d <= 0 or x < 0.1: return r.choice([TRUE, FALSE])
            if x < 0.4:
                return ("bin", r.choice(["<", "<=", ">", ">="]), self.e(env, r.choice(["int", "int", "flt"]), d - 1), self.e(env, r.choice(["int", "int", "flt"]), d - 1))
            if x < 0.65:
                t = r.choice(["int", "int", "str", "bool", "flt"])
                return ("bin", r.choice(["==", "!="]), self.e(env, t, d - 1), self.e(env, t if r.random() < .8 else self.ty(), d - 1))
            if x < 0.8: return (r.choice(["and", "or"]), self.e(env, "bool", d - 1), self.e(env, "bool", d - 1))
            if x < 0.87: return ("un", "not", self.e(env, "bool", d - 1))
            if x < 0.97: return call("istypeof", self.typ(d - 1), self.e(env, self.ty(), d - 1))
            return ("bin", r.choice(["==", "!="]), call("type", self.e(env, self.ty(), d - 1)), V(r.choice(["int", "float", "String", "bool", "List", "Map", "None"])))
        if ty == "str":
            x = r.random()
            if d <= 0 or x < 0.35: return S(r.choice(STRS))
            if x < 0.65: return call(dot("string", "cat"), *[self.e(env, "str", d - 1) for _ in range(r.randrange(0, 4))])
            if x < 0.8: return call("toString", self.e(env, r.choice(["int", "str", "list"]), d - 1))
            if x < 0.9: return call("typename", self.e(env, self.ty(), d - 1))
            return call(dot("string", "trim"), self.e(env, "str", d - 1))
        if ty == "list":
            x = r.random()
            if d <= 0 or x < 0.8: return ("list", [self.e(env, self.ty() if r.random() < .3 else "int", d - 1) for _ in range(r.randrange(0, 5 if d > 0 else 1))])
            return call("keysof", self.e(env, r.choice(["map", "list", "str"]), d - 1))
        if ty == "map":
            out = []
            for _ in range(r.randrange(0, 4 if d > 0 else 1)):
                y = r.random()
                k = ("key", r.choice(["a", "b", "c", "k1"])) if y < .6 else self.e(env, r.choice(["int", "str", "bool", "flt"]), d - 1) if y < .95 else NONE
                out.append((k, self.e(env, self.ty() if r.random() < .4 else "int", d - 1)))
            return ("map", out)
        raise AssertionError(ty)

    def typ(self, d):
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.5:
            return V(r.choice(["int", "float", "String", "bool", "List", "Map", "None", "any", "Numeric", "Callable", "Collection"]))
        if x < 0.65: return ("bin", "|", self.typ(d - 1), self.typ(d - 1))
        if x < 0.8: return ("un", "?", self.typ(d - 1))
        if x < 0.9: return ("list", [self.typ(d - 1) for _ in range(r.randrange(0, 3))])
        return ("map", [(("key", r.choice("abc")), self.typ(d - 1)) for _ in range(r.randrange(0, 3))])

    def callf(self, env, n, f, d):
        r = self.r
        args = [self.e(env, t, d - 1) for t in f.ptypes]
        y = r.random()
        if y < 0.05: args.append(self.e(env, self.ty(), d - 1))
        elif y < 0.06 and args: args.pop()
        return ("call", V(n), args)

    # statements --------------------------------------------------------------
    def stmt(self, env, d):
        r = self.r
        self.budget -= 1
        x = r.random()
        if d <= 0 or self.budget < -10: x = x * 0.45
        if x < 0.22:
            t = self.ty()
            free = [n for n in env.vars if env.vars[n] == t and n not in env.frozen]
            y = r.random()
            n = r.choice(free) if free and y < 0.5 else None
            if n is None:
                # Sometimes a name of an outer scope: a new local that hides it.
                outer = [m for m, q in env.all().items() if q == t and m not in env.vars and m not in env.frozen]
                n = r.choice(outer) if outer and r.random() < 0.3 else self.fresh()
            e = self.e(env, t, 3)
            env.vars[n] = t
            return X(asg(n, e))
        fs = env.funs()
        if fs and r.random() < 0.12:
            n, f = r.choice(fs[-6:])
            c = self.callf(env, n, f, 2)
            return P(c, S("\n")) if r.random() < .7 else X(c)
        if x < 0.36:
            return P(*[self.e(env, self.ty(), 3) for _ in range(r.randrange(1, 4))], S("\n"))
        if x < 0.40:
            ls = env.of("list")
            if ls:
                n = r.choice(ls)
                y = r.random()
                v = self.e(env, "int", 2)
                if y < .6: return X(("asg", [("sel", V(n), call("count", V(n)))], v))
                if y < .8: return X(call("append", V(n), v))
                return ("if", ("bin", ">", call("count", V(n)), I(0)), X(("asg", [("sel", V(n), I(0))], v)), None)
        if x < 0.43:
            ms = env.of("map")
            if ms:
                return X(("asg", [("sel", V(r.choice(ms)), ("key", r.choice("abc")) if r.random() < .5 else self.e(env, r.choice(["int", "str"]), 1))], self.e(env, "int", 2)))
        if x < 0.45:
            if env.loop and r.random() < 0.7: return ("if", self.e(env, "bool", 2), ("break",), None)
            return X(self.e(env, self.ty(), 3))
        if x < 0.58:
            c = self.e(env, "bool", 3)
            # Variables born in a branch may not exist after it.
            a = self.branch(env, d - 1)
            b = self.branch(env, d - 1) if r.random() < 0.5 else None
            return ("if", c, a, b)
        if x < 0.68:
            i = self.fresh("i")
            env.vars[i] = "int"; env.frozen.add(i)
            env.loop += 1
            body = self.branch(env, d - 1)
            env.loop -= 1
            ss = body[1] if body[0] == "block" else [body]
            lim = I(r.randrange(0, 6))
            inc = X(asg(i, ("bin", "+", V(i), I(1))))
            if r.random() < 0.7:
                return B(X(asg(i, I(0))), ("while", ("bin", "<", V(i), lim), B(inc, *ss)))
            return B(X(asg(i, I(0))), ("do", B(inc, *ss), ("bin", "<", V(i), lim)))
        if x < 0.72:
            return B(*[self.stmt(env, d - 1) for _ in range(r.randrange(0, 4))])
        if x < 0.90:
            return self.fundef(env, d)
        if x < 0.96:
            fs = [(n, f) for n, f in env.funs() if len(f.rtypes) > 1]
            if fs:
                n, f = r.choice(fs)
                k = r.randrange(2, len(f.rtypes) + 2)
                c = self.callf(env, n, f, 2)
                ts = []
                for j in range(k):
                    t = f.rtypes[j] if j < len(f.rtypes) else None
                    m = self.fresh()
                    if t: env.vars[m] = t
                    ts.append(V(m))
                return X(("asg", ts, c))
        # Method calls.
        m = self.fresh("m")
        t = self.ty()
        obj = ("map", [(("key", "n"), self.e(env, t, 2)), (("key", "get"), ("fun", [("self", None, None), ("q", None, I(3))], ("return", [dot("self", "n")])))])
        env.vars[m] = "obj"
        n = self.fresh()
        env.vars[n] = t
        return B(X(asg(m, obj)), X(asg(n, ("mcall", V(m), "get", []))), P(V(n)))

    def branch(self, env, d):
        before = dict(env.vars)
        ss = [self.stmt(env, d) for _ in range(self.r.randrange(1, 4))]
        env.vars = before
        return ss[0] if len(ss) == 1 and self.r.random() < 0.4 else B(*ss)

    def fundef(self, env, d):
        r = self.r
        name = self.fresh("f")
        sub = Env(env)
        params, pts = [], []
        for _ in range(r.randrange(0, 4)):
            t = self.ty()
            outer = [m for m, q in env.all().items() if q == t]
            n = r.choice(outer) if outer and r.random() < 0.15 else self.fresh("p")
            if any(p[0] == n for p in params): continue
            ann = {"int": "int", "flt": "float", "bool": "bool", "str": "String", "list": "List", "map": "Map"}[t]
            x = r.random()
            ty = V(ann) if x < .3 else ("un", "?", V(ann)) if x < .35 else ("bin", "|", V(ann), V("None")) if x < .4 else None
            df = self.e(env, t, 1) if r.random() < .2 else None
            params.append((n, ty, df)); pts.append(t)
            sub.vars[n] = t
        rts = [self.ty() for _ in range(r.choice([0, 1, 1, 1, 1, 2, 3]))]
        f = Fn(name, pts, rts)
        body = [self.stmt(sub, d - 1) for _ in range(r.randrange(0, 4))]
        if rts and r.random() < 0.15:
            body.append(("if", self.e(sub, "bool", 2), ("return", [self.e(sub, t, 2) for t in rts]), None))
        x = r.random()
        if rts: body.append(("return", [self.e(sub, t, 2) for t in rts]))
        if x < 0.15 and pts and pts[0] == "int" and rts:
            # A bounded recursion.
            n = params[0][0]
            rec = ("call", V(name), [("bin", "-", call("min", V(n), I(r.randrange(1, 8))), I(1))] + [V(p[0]) for p in params[1:]])
            if len(rts) == 1:
                body.insert(0, ("if", ("bin", ">", V(n), I(0)), ("return", [rec]), None))
        if len(rts) == 1 and r.random() < 0.15:
            # The function is made by another one, which it outlives.
            mk = self.fresh("mk")
            env.vars[name] = f
            return B(("fundef", mk, [], B(("fundef", "inner", params, B(*body)), ("return", [V("inner")]))), X(asg(name, call(mk))))
        env.vars[name] = f
        b = B(*body)
        if len(body) == 1: b = body[0]
        return ("fundef", name, params, b)
