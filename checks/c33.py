from common import *
import random, re, subprocess, struct
from concurrent.futures import ThreadPoolExecutor
from ref import Err, Uncertain, Ret, NList, NMap, NBuf, NNat, NStatic, NType, NNullable, NSum, NAny, T, ANY, NHandle, Interp, Scope, typeof, show, equal, select, count, enc
NF = 24
CWD = "/"

# -- values -------------------------------------------------------------------------
def fhex(v):
    """What %a writes."""
    if v != v: return "nan" if struct.pack(">d", v)[0] < 128 else "-nan"
    if v in (float("inf"), -float("inf")): return "inf" if v > 0 else "-inf"
    return v
def hx(s, c="x"): return c + (s if isinstance(s, bytes) else enc(s)).hex()
def ser(v):
    """Tokens, like the driver writes them; floats are left as numbers."""
    t = type(v)
    if v is None: return ["n"]
    if t is bool: return ["T" if v else "F"]
    if t is int: return [f"i{v}"]
    if t is float: return [v]
    if t is str: return [hx(v)]
    if t is NBuf: return [hx(bytes(v.mem[v.off:v.off+v.len]), "b")]
    if t is NList: return [f"l{len(v.items)}"] + [x for i in v.items for x in ser(i)]
    if t is NMap: return [f"m{len(v.keys)}"] + [x for k, i in zip(v.keys, v.vals) for x in ser(k) + ser(i)]
    if t is NType: return ["t" + v.name.replace(" ", "_")]
    return ["?" + typeof(v).name.replace(" ", "_")]
def toks(text):
    """The driver's tokens."""
    text = text.replace("?native function", "?native_function").replace("?static map", "?static_map").replace("tstatic map", "tstatic_map").replace("tnative function", "tnative_function")
    out = []
    for w in text.split():
        if w[0] == "f" and w != "fail" and w != "free":
            try: out.append(float.fromhex(w[1:])); continue
            except ValueError: pass
        out.append(w)
    return out
def same(a, b):
    return len(a) == len(b) and all((type(x) is type(y)) and (x == y if type(x) is not float else struct.pack("d", x) == struct.pack("d", y)) for x, y in zip(a, b))
def desc(v):
    t = type(v)
    if t is float: return "f" + v.hex()
    if t is NList: return " ".join([f"l{len(v.items)}"] + [desc(x) for x in v.items])
    if t is NMap: return " ".join([f"m{len(v.keys)}"] + [desc(k) + " " + desc(x) for k, x in zip(v.keys, v.vals)])
    if t is NNullable: return "q " + desc(v.item)
    if t is NSum: return f"u {desc(v.a)} {desc(v.b)}"
    if t is NAny: return "a"
    if t is Arg: return f"A{v.k}"
    return ser(v)[0]
def plain(v):
    t = type(v)
    if t is NList: return all(map(plain, v.items))
    if t is NMap: return all(map(plain, v.keys)) and all(map(plain, v.vals))
    return v is None or t in (bool, int, float, str)
class Arg:
    def __init__(self, k): self.k = k
def fresh(v, args):
    """A new object of that description."""
    t = type(v)
    if t is Arg: return args[v.k] if v.k < len(args) else None
    if t is NList: return NList([fresh(x, args) for x in v.items])
    if t is NMap:
        m = NMap()
        for k, x in zip(v.keys, v.vals): m.put(fresh(k, args), fresh(x, args))
        return m
    if t is NNullable: return NNullable(fresh(v.item, args))
    if t is NSum: return NSum(fresh(v.a, args), fresh(v.b, args))
    if t is NBuf: return NBuf(bytearray(v.mem), v.off, v.len)
    return v
WORDS = ["", "a", "hello", "héllo", "日本", "x" * 40, "with space", "quote'\"", "line\nbreak", "\x7f\U0001f600", "nul\0in"]
def value(r, d=0, arg=0, nul=True):
    x = r.random()
    if arg and x < .15: return Arg(r.randrange(arg + 1))
    if x < .35: return r.choice([0, 1, -1, 7, r.randrange(-1000, 1000), (1 << 63) - 1, -(1 << 62), 1 << 32])
    if x < .5: return r.choice([0.0, 1.5, -2.25, 0.1, 1e10, -1e-5, 123456.789, r.uniform(-10, 10), 5e-324 if nul else .5, 1.7e308 if nul else 1.25])
    if x < .65: return r.choice(WORDS if nul else WORDS[:-2])
    if x < .72: return r.choice([True, False])
    if x < .8 or d > 2: return None
    if x < .86: return T[r.choice(["int", "float", "String", "List", "Map", "None", "bool"])]
    if x < .94: return NList([value(r, d + 1, arg, nul) for _ in range(r.choice([0, 1, 2, 3, 4, 9, 20]) if d == 0 else r.randrange(4))])
    m = NMap()
    for _ in range(r.choice([0, 1, 2, 3, 9, 17]) if d == 0 else r.randrange(3)):
        k = r.choice([r.choice(WORDS[:-2]), r.randrange(50), True, None, .5])
        m.put(k, value(r, d + 1, arg, nul))
    return m
def lit(v):
    """The value as an expression, or None."""
    t = type(v)
    if v is None: return NONE
    if t is bool: return TRUE if v else FALSE
    if t is int: return I(v) if v >= 0 else ("un", "-", I(-v))
    if t is float:
        s = repr(abs(v))
        if "e" in s or "inf" in s: return None
        return F(("-" if str(v)[0] == "-" else "") + s)
    if t is str: return S(v) if "\0" not in v and "\x7f" not in v else None
    if t is NType: return V(v.name)
    if t is NList:
        l = [lit(x) for x in v.items]
        return None if None in l else ("list", l)
    if t is NMap:
        l = [(lit(k), lit(x)) for k, x in zip(v.keys, v.vals)]
        return None if any(None in p for p in l) else ("map", l)
    return None

# -- the model of a host --------------------------------------------------------------
KIND = {0: "unspecified", 1: "syntax", 2: "semantic", 3: "runtime", 4: "internal"}
HEAD = {"unspecified": "Error", "syntax": "Syntax Error", "semantic": "Semantic Error", "runtime": "Runtime Error", "internal": "Internal Error"}
class Vars(dict):
    """The variables of a run, whose `probe` is watched."""
    def __init__(self, it): super().__init__(); self.it = it
    def __setitem__(self, k, v):
        super().__setitem__(k, v)
        if k == "probe": self.it.probe()

class Host(Interp):
    def __init__(self, sc, stdin):
        super().__init__(stdin)
        self.sc, self.log, self.err = sc, [], []
        self.defaults = self.builtins
        self.builtins = {}
        self.last = self.top = None; self.topdepth = -1
    def layer(self, d):
        for k, v in d.items(): self.builtins.setdefault(k, v)
    def probe(self):
        if self.sc.gcper < 0 or not self.running: return
        v = self.top.vars["probe"] if "probe" in self.top.vars else "NULL"
        s = ["NULL"] if v == "NULL" else ser(v)
        if self.last is None or not same(s, self.last): self.log.append(["probe"] + s); self.last = s
    def toplevel(self, prog, name):
        gen_ = self.top
        if not self.running: g = Scope(None)
        else:
            g = Scope(None); g.vars = Vars(self)
        g.file = name
        old, self.top = self.top, g
        check = prog
        try:
            for s in prog: ref._cs(s, False)
        except Err as e:
            e.static = True; self.top = old
            raise
        if self.depth >= ref.MAX_FRAMES: raise Err("internal")
        self.depth += 1
        olddepth, self.topdepth = self.topdepth, self.depth
        try:
            if self.interrupted: raise Err("runtime", "Forced abortion")
            if self.running:
                if old is None and self.sc.gcper >= 0: g.vars["injected"] = "from the host"
                self.probe()
            for self_i, s in enumerate(prog):
                if old is None: self.at = self_i
                self.stmt(s, g)
            m = NMap()
            for k, v in g.vars.items(): m.put(k, v)
            return [m]
        except Ret as x:
            if len(x.vals) > ref.MAX_RETS: raise Err("runtime")
            return x.vals
        finally:
            self.depth -= 1
            self.top, self.topdepth = old, olddepth
    def call(self, e, sc, d, want):
        r = super().call(e, sc, d, want)
        if self.interrupted: raise Err("runtime", "Forced abortion")
        return r
    def apply(self, f, args):
        r = super().apply(f, args)
        if self.top is not None and self.depth == self.topdepth: self.probe()
        return r

class Fn_:
    def __init__(self, k, argc, action, arg): self.k, self.argc, self.action, self.arg = k, argc, action, arg
    def command(self):
        a = self.arg
        if self.action == "ret": a = " ".join([str(len(a))] + [desc(v) for v in a])
        elif self.action == "err": a = f"{a[0]} {hx(a[1])}"
        elif self.action == "run": a = hx(text(a)[0])
        elif self.action == "write": a = hx(a)
        return f"func {self.k} {self.action} {a or ''}".rstrip()
    def native(self):
        return NNat(f"host{self.k}", self.go, self.argc)
    def go(self, it, args):
        it.log.append(["call", str(self.k), str(len(args))] + [x for a in args for x in ser(a)])
        a, arg = self.action, self.arg
        it.hostcalls.append(a)
        if a == "ret": return [fresh(v, args) for v in arg]
        if a == "err": raise Err(KIND[arg[0]], arg[1])
        if a == "call":
            if not args: raise Err("runtime", "nothing to call")
            try: r = it.apply(args[0], args[1:])
            except Err: it.log.append(["back", "-1"]); raise
            it.log.append(["back", str(len(r))] + [x for v in r for x in ser(v)])
            return r
        if a == "intr":
            it.interrupted = True
            return []
        if a == "gc": return []
        if a == "run":
            try: r = it.toplevel(arg, "nested")
            except Err: it.log.append(["back", "-1"]); raise
            it.log.append(["back", str(len(r))] + [x for v in r for x in ser(v)])
            return r
        if a == "write": it.out.append(enc(arg)); it.err.append(enc(arg)); return []
        if a == "read":
            if it.inpos >= len(it.stdin): return []
            j = it.stdin.find(b"\n", it.inpos)
            line = it.stdin[it.inpos:] if j < 0 else it.stdin[it.inpos:j]
            it.inpos = len(it.stdin) if j < 0 else j + 1
            return [line.decode()]
        if a == "folder":
            f = it.runname
            return [f[:f.rindex('/') + 1], f] if f else [CWD + "/", None]
        if a in ("var", "varget", "push", "pop"): raise Err("internal")
        if a == "values":
            if arg == "iz": raise Err("internal", "Invalid format specifier 'z'")
            if arg == "D": return [NHandle("Directory", None)]
            if arg == "iFs":
                it.nstreams += 1
                h = NHandle("File", None); h.text = f"the host's file {it.nstreams}"
                it.hostcalls.append("file")
                return [1, h, "after"]
            return {"o": [args[0] if args else None], "nifs": [None, -(1 << 62), .3, "hé"], "sfin": ["", -1e300, 1 << 40, None], "iiiiiiii": list(range(1, 9)), "": []}[arg] if arg != "iiiiiiiii" else self.many()
        if a == "parse":
            i, k, out = 0, 0, []
            names = dict(b=(bool, "bool"), i=(int, "an int"), f=(float, "a float"), s=(str, "a string"), B=(NBuf, "a buffer"), l=(NList, "a list"), m=(NMap, "a map"), F=(NHandle, "a file"))
            while i < len(arg):
                if k == len(args): raise Err("runtime", "Missing arguments")
                opt = arg[i] == "?"
                if opt: i += 1
                if i == len(arg): raise Err("internal", "Format terminated unexpectedly")
                c = arg[i]
                if opt and args[k] is None: out.append("-")
                elif c == "o": out.append("*")
                elif c not in names: raise Err("internal", f"Invalid argument parser format specifier '{c}'")
                else:
                    it.hostcalls.append(f"parse {c} given {typeof(args[k]).name}")
                    if type(args[k]) is not names[c][0] or c == "F" and args[k].kind != "File": raise Err("runtime", f"Argument {k+1} was expected to be {names[c][1]}, but a {typeof(args[k]).name} was provided")
                    out += [hx(args[k].text)] if c == "F" else ser(args[k]) if c in "bifsB" else ["*"]
                i += 1; k += 1
            it.log.append(["parsed"] + out)
            return []
        if a == "object":
            if len(args) < 2: return []
            o, k = args[:2]
            if not plain(o): raise Uncertain("what can be copied")
            try: eq = str(int(equal(o, k)))
            except Err: eq = "-"
            try: n = str(count(o))
            except Err: n = "-"
            v = select(o, k)
            it.log.append(["object"] + ser(o) + ["0", eq, n] + (["-"] if v is None else ser(v)) + [typeof(o).name.replace(" ", "_")])
            return []
        raise AssertionError(a)
    def many(self): raise Err("internal", "Return value limit reached")

def text(prog):
    """The source, and the line each statement is at if it's all in a line."""
    out, lines, line = [], [], 1
    for s in prog:
        t = gen.source([s]).strip()
        lines.append(line if "\n" not in t else None)
        out.append(t); line += t.count("\n") + 1
    return "\n".join(out) + "\n", lines

# -- scenarios -----------------------------------------------------------------------
ERRS = ["the host refuses", "", "100% wrong %s %d", "é\n2", "m" * 511, "m" * 512, "m" * 700, "long " * 300]
def total(calls):
    d = {}
    for (n, _), c in calls.items():
        if n: d[n] = d.get(n, 0) + c
    return d
class Scenario:
    def __init__(self, r, idx, parse=None):
        """parse: a format and an argument for it, instead of anything."""
        self.r, self.idx, self.parse = r, idx, parse
        self.gcper = r.choice([-1, 0, 0, 1, 2, 7, 50])
        self.time = r.random() < .3
        self.heap = r.choice([1 << 14, 1 << 16, 1 << 20]); self.stack = r.choice([300, 1024])
        self.stdin = r.choice([b"", b"one\ntwo\n", b"first\n\nlast"])
        self.commands, self.expect, self.files = [], [], {}
        self.fns, self.tables = [], []
        self.nv = 0
        self.build()

    def fn(self):
        r = self.r
        if len(self.fns) < NF and (r.random() < .75 or not self.fns):
            k = len(self.fns)
            argc = r.choice([-1, -1, 0, 1, 1, 2, 3, 5, 9, 30])
            a = r.choice(["ret"] * 9 + ["call"] * 3 + ["gc", "run", "write", "read", "folder", "values", "values", "parse", "parse", "object", "object"])
            if r.random() < .06: a = r.choice(["err", "intr", "var", "varget", "push", "pop"])
            arg = None
            if a == "ret": arg = [value(r, arg=max(argc, 0) or 3) for _ in range(r.choice([0, 1, 1, 1, 2, 3, 5, 8]))]
            elif a == "err": arg = (r.randrange(5), r.choice(ERRS))
            elif a == "run": arg = r.choice([[P(S("nested "))], [("return", [I(1), S("two"), NONE])], [X(asg("probe", I(99))), X(asg("zz", V("probe")))], [("fundef", "nf", [("a", None, None)], B(("return", [V("a"), V("a")]))), ("return", [V("nf"), call("nf", I(3))])], [P(V("nosuchnested"))]])
            elif a == "write": arg = r.choice(["w", "é\n", ""])
            elif a == "values": arg = r.choice(["o", "nifs", "sfin", "iiiiiiii", "", "iFs", "iFs", "D"] * 2 + ["iiiiiiiii", "iz"])
            elif a == "parse": arg = "".join(r.choice(["", "?", ""]) + r.choice("obifsBlmF") for _ in range(max(argc, 0) if r.random() < .8 else r.randrange(4))) + r.choice([""] * 20 + ["?", "z", "?z"])
            self.fns.append(Fn_(k, argc, a, arg))
            self.commands.append(self.fns[-1].command())
            return self.fns[-1]
        return r.choice(self.fns)

    def table(self, depth=0, names=None):
        r = self.r
        if len(self.tables) >= 30: return 0
        slots, d = [], {}
        for i in range(r.choice([0, 1, 3, 5, 8, 16]) if depth else r.choice([3, 6, 10, 20])):
            n = r.choice(names) if names and r.random() < .5 else r.choice("abcdefgh") + r.choice(["", "1", "_x", "name", "Q" * 30, "Q" * 30 + "1", "Q" * 20])
            k = r.choice(["b", "i", "f", "F", "F", "F", "F", "s", "m", "n", "t", "o"])
            if n in ("print", "probe"): continue
            if k == "b": v = r.choice([True, False]); a = f"{int(v)}"
            elif k == "i": v = r.choice([0, -1, 77, (1 << 63) - 1, -(1 << 63)]); a = f"{v}"
            elif k == "f": v = r.choice([0.5, -1e30, 1e-300, 3.25]); a = v.hex()
            elif k == "F": f = self.fn(); v = f.native(); a = f"{f.k} {f.argc}"
            elif k == "s":
                s = r.choice(WORDS[:-1]); v = s; ln = r.choice([-1, -1, len(enc(s))])
                if r.random() < .3: v = s[:r.randrange(len(s) + 1)]; ln = len(enc(v))
                a = f"{hx(s)} {ln}"
            elif k == "m":
                if depth > 2: continue
                j = self.table(depth + 1); v = NStatic(f"t{j}", self.tables[j]); a = f"{j}"
            elif k == "n": v = None; a = ""
            else:
                y = r.choice(["int", "String", "any"]) if k == "o" else r.choice(["int", "List", "File", "SumType"])
                v = ANY if y == "any" else T[y]; a = "a" if y == "any" else y
            slots.append(f"slot {hx(n)} {k} {a}")
            d.setdefault(n, v)
        j = len(self.tables)
        self.tables.append(d)
        self.commands.append(f"table {j} {len(slots)}"); self.commands += slots
        return j

    def paths(self, d, e, out, depth=0):
        for n, v in d.items():
            p = V(n) if e is None else dot(e, n)
            if type(v) is NStatic:
                out.append((p, v))
                if depth < 4: self.paths(v.table, p, out, depth + 1)
            elif type(v) is NNat and v.name.startswith("host"): out.append((p, v))
            elif not callable(v) and type(v) is not NNat: out.append((p, v))

    def build(self):
        r = self.r
        names = ["alpha", "beta", "gamma", "delta"]
        self.commands.append("") # the runtime
        at = len(self.commands) - 1
        it = Host(self, self.stdin)
        it.runname, it.running, it.hostcalls, it.interrupted = None, False, [], False
        it.nstreams = 0
        self.libs = []
        self.marks = {"nosuchnested": ("nested", 1)}
        if r.random() < .5: self.files["profile"] = "the profile of another time\n" * 100
        self.expect.append(("new",))
        dead = False
        default = r.random() < .6
        # streams and folders of the host
        a, b = (Fn_(len(self.fns) + j, 0, "values", x) for j, x in enumerate(("iFs", "D")))
        self.fns += [a, b]; self.commands += [a.command(), b.command()]
        j = len(self.tables); self.tables.append({"hostfile": a.native(), "hostdir": b.native()})
        self.commands += [f"table {j} 2", f"slot {hx('hostfile')} F {a.k} 0", f"slot {hx('hostdir')} F {b.k} 0", f"plug {j}"]
        it.layer(self.tables[j]); self.expect.append(("plug", None, None))
        if self.parse:
            default = True
            f = Fn_(len(self.fns), -1, "parse", self.parse[0])
            self.fns.append(f); self.commands.append(f.command())
            j = len(self.tables); self.tables.append({"parse": f.native()})
            self.commands += [f"table {j} 1", f"slot {hx('parse')} F {f.k} -1", f"plug {j}"]
            it.layer(self.tables[j]); self.expect.append(("plug", None, None))
        steps = ["default"] if self.parse else ["table", "table"] + (["default"] if default else []) + r.choice([[], ["str"], ["file"], ["src"], ["str", "file"]]) + r.choice([[], ["table"]])
        r.shuffle(steps)
        if not default: # something that prints
            steps.insert(0, "out")
        self.files_dir = os.path.join(CWD, f"s{self.idx}")
        for s in steps:
            if s == "out":
                f = Fn_(len(self.fns), 1, "write", "shown ")
                self.fns.append(f); self.commands.append(f.command())
                j = len(self.tables); self.tables.append({"print": f.native()})
                self.commands += [f"table {j} 1", f"slot {hx('print')} F {f.k} 1", f"plug {j}"]
                it.layer(self.tables[j]); self.expect.append(("plug", None, None))
            elif s == "table":
                j = self.table(names=names)
                self.commands.append(f"plug {j}" + r.choice([" init", ""])); self.expect.append(("plug", None, None))
                it.layer(self.tables[j])
            elif s == "default":
                self.commands.append("default"); self.expect.append(("plug", None, None)); it.layer(it.defaults)
            else:
                prog = []
                for n in r.sample(names + ["lib", "extra"], 3): prog.append(X(asg(n, lit(value(r, nul=False)) or I(5))))
                prog.append(("fundef", "inlib", [("a", None, None), ("b", None, I(6))], B(("return", [V("b"), V("a"), V(prog[0][1][1][0][1])]))))
                ps = []; self.paths(it.builtins, None, ps)
                hf = [p for p, v in ps if type(v) is NNat]
                if hf and r.random() < .5: prog.append(X(asg("fromhost", ("call", r.choice(hf), [I(1), S("x")]))))
                y = r.random()
                mark = f"nosuchlib{len(self.marks)}"
                prog.append(("fundef", "lf" + mark[9:], [], B(X(asg("u", I(1))), ("return", [V(mark)]))))
                if y < .25: prog.append(("return", [("map", [(("key", "given"), I(3)), (("key", "inlib"), V("inlib"))])] + r.choice([[], [I(4)], [("map", [(("key", "given"), I(4)), (("key", "second"), I(5))])], [NONE, ("map", []), ("map", [(("key", "inlib"), I(5))])]])))
                elif y < .35: prog = [("raw", r.choice(["x = (1;", "break;", "y = nosuch;", "z = 1 + 'a';"]))]
                elif y < .38: prog.append(P(V("neverdefined")))
                src, ll = text(prog)
                start = len(it.log)
                shown = {"str": "<prelude>", "src": "a library"}.get(s)
                if s == "file" and r.random() < .1: self.commands.append("plugfile " + hx("missing.noja")); self.expect.append(("plug", Err("unspecified"), None)); dead = True; break
                if s == "file":
                    f = f"lib{len(self.files)}.noja"; self.files[f] = src; path = r.choice([f"s{self.idx}/{f}", os.path.join(self.files_dir, f)])
                    self.commands.append("plugfile " + hx(path))
                elif s == "str": self.commands.append("plugstr " + hx(src))
                else: self.commands.append(f"plugsrc {hx('a library')} {hx(src)}")
                if s == "file": shown = path if path[0] == "/" else CWD + "/" + path
                self.marks[mark] = (shown, next((l for l, t in enumerate(src.split("\n"), 1) if mark in t), 0))
                it.runname = os.path.join(self.files_dir, f) if s == "file" else None
                if prog[0][0] == "raw":
                    self.expect.append(("plug", Err({"x": "syntax", "b": "semantic"}.get(prog[0][1][0], "runtime") if prog[0][1] != "break;" else None), shown)); dead = True; break
                try:
                    v = it.toplevel(prog, it.runname or "lib")
                    self.expect += it.log[start:]; self.expect.append(("plug", None, None)); self.libs.append("lf" + mark[9:])
                    if v and type(v[0]) is NMap:
                        it.layer({k: x for k, x in zip(v[0].keys, v[0].vals)})
                except Err as e:
                    self.expect += it.log[start:]; self.expect.append(("plug", e, shown)); dead = True; break
        ps = []; self.paths(it.builtins, None, ps)
        hf = [(p, v) for p, v in ps if type(v) is NNat]; cs = [(p, v) for p, v in ps if type(v) is not NNat]
        k = 0
        self.stop = 0
        while not dead and k < r.choice([1, 1, 2, 3]):
            k += 1
            prog = self.program(hf, cs, default)
            src, lines = text(prog)
            how = r.choice(["string", "stringex", "stringex", "file", "fileex", "source", "source", "bstring", "bstringex", "bfile", "bfileex", "bsource"])
            name, shown = "-", "(unnamed)"
            body = ("asm", src) if how[0] == "b" else src
            it.runname = None
            if "file" in how:
                f = f"run{k}.noja"; self.files[f] = body; name = r.choice([f"s{self.idx}/{f}", os.path.join(self.files_dir, f), f"./s{self.idx}//{f}"]); shown = it.runname = name if name[0] == "/" else CWD + "/" + name; name = hx(name); body = ""
            elif how in ("stringex", "source", "bstringex", "bsource") and r.random() < .8: shown = r.choice(["a name", "n", "weird/name", "é", "n" * 300]); name = hx(shown)
            early = not self.parse and r.random() < .05
            if early: self.commands.append("intr")
            self.commands.append(("run", how, name, body))
            it.log, it.last, it.top, it.running, it.depth, it.at = [], None, None, True, 0, None
            it.interrupted = early
            try: rets, e = it.toplevel(prog, it.runname), None
            except Err as x: rets, e = None, x
            it.running = False
            self.expect += it.log
            boolean = how in ("string", "file", "bstring", "bfile")
            line = lines[it.at] if it.at is not None and how[0] != "b" else None
            if e is None: self.expect.append(("run", ["0"] if boolean else [str(len(rets))] + [x for v in rets for x in ser(v)]))
            else: self.expect.append(("fail", e, shown, line, src))
            self.expect.append(("out", b"".join(it.out), b"".join(it.err), self.gcper >= 0 and not early, it.interrupted))
            if e is not None: break
        if not dead and self.r.random() < .7:
            self.commands.append("profile " + hx(f"s{self.idx}/profile")); self.expect.append(("profile", total(it.calls) if self.time else None))
            if r.random() < .2: self.commands.append("profile " + hx("missing/profile")); self.expect.append(("profile", False))
        self.commands.append("free"); self.expect.append(("free",))
        self.hostcalls = it.hostcalls
        # what doesn't need the runtime comes first
        defs = [c for c in self.commands[:at] + self.commands[at + 1:] if isinstance(c, str) and c.split()[0] in ("table", "slot", "func")]
        rest = [c for c in self.commands[at + 1:] if not isinstance(c, str) or c.split()[0] not in ("table", "slot", "func")]
        self.commands = defs + [""] + rest; at = len(defs)
        self.commands[at] = f"new {self.heap} {self.stack} {int(self.time)} {self.gcper} {self.stop} {hx(self.stdin)}"

    def program(self, hf, cs, default):
        r = self.r
        if self.parse: return [X(("asg", [V("one"), V("hf")], call("hostfile"))), X(asg("before", I(1))), X(call("parse", *self.parse[1])), P(S("parsed"))]
        prog, known = [], []
        def var():
            self.nv += 1; known.append(f"v{self.nv}")
            return known[-1]
        def arg():
            x = r.random()
            if known and x < .25: return V(r.choice(known))
            if cs and x < .4: return r.choice(cs)[0]
            if x < .45 and hf: return r.choice(hf)[0]
            if x < .55: return V(r.choice(["f1", "f2"]))
            return lit(value(r, nul=False)) or I(3)
        def thecall():
            if not hf: return call("f1", arg(), arg())
            p, v = r.choice(hf)
            f = self.fns[int(v.name[4:])]
            n = max(v.argc, 0)
            n = min(r.choice([n, n, n, n + 1, max(n - 1, 0), r.randrange(6)]), 10)
            if f.action == "call": args = [r.choice([V("f1"), V("f2"), V("f1"), r.choice(hf)[0]])] + [arg() for _ in range(max(n - 1, r.randrange(3)))]
            elif f.action == "parse" and r.random() < .85:
                args = []
                kinds = dict(b=TRUE, i=I(4), f=F("1.25"), s=S("té"), l=("list", [I(1)]), m=("map", []), o=NONE, B=call(dot("buffer", "fromString"), S("bytes")) if default else I(0), F=V(f"hf{r.randrange(2)}"))
                q = False
                for c in f.arg:
                    if c == "?": q = True; continue
                    args.append(NONE if q and r.random() < .5 else kinds.get(c, I(1))); q = False
                if args and r.random() < .5: args[r.randrange(len(args))] = r.choice(list(kinds.values()) + [call("hostdir"), V("int")])
            elif f.action == "object": args = [r.choice([("list", [I(4), S("x")]), ("map", [(("key", "a"), I(1)), (I(4), NONE)]), I(4), S("strîng"), F("4.0"), arg()]), r.choice([I(1), S("a"), I(4), I(9), NONE, F("4.0")])]
            else: args = [arg() for _ in range(n)]
            if p[0] == "sel" and r.random() < .3: return ("mcall", p[1], p[2], args) if False else ("call", p, args)
            return ("call", p, args)
        prog += [X(("asg", [V("one"), V(f"hf{k}")], call("hostfile"))) for k in range(2)]
        prog.append(("fundef", "f1", [("a", None, None), ("b", None, None)], B(P(S("f1 ")), ("return", [V("b"), V("a"), I(9)]))))
        prog.append(("fundef", "f2", [("a", None, None)], B(*[X(asg("probe", S("local")))][:r.randrange(2)], X(asg("loc", thecall())), P(V("loc")), ("return", [V("loc")]))))
        for _ in range(r.choice([1, 3, 6, 10])):
            x = r.random()
            if x < .3:
                c = thecall(); ts = [V(var()) for _ in range(r.choice([1, 1, 2, 3, 8]))]
                prog.append(X(("asg", ts, c)))
                if r.random() < .7: prog.append(P(*[y for t in ts for y in (t, S("|"))][:13]))
            elif x < .4: prog.append(P(thecall()))
            elif x < .5: prog.append(X(thecall()))
            elif x < .6: prog.append(P(*[arg() for _ in range(r.randrange(1, 4))]))
            elif x < .75: prog.append(X(asg("probe", r.choice([I(r.randrange(5)), S("p"), NONE, TRUE, F("2.5")]))))
            elif x < .8 and self.gcper >= 0: prog.append(P(V("injected")))
            elif x < .85: prog.append(("if", TRUE, B(X(asg(var(), thecall()))), B(P(S("no")))))
            elif x < .9: prog.append(B(X(asg("i", I(0))), ("while", ("bin", "<", V("i"), I(3)), B(X(asg("i", ("bin", "+", V("i"), I(1)))), X(thecall())))))
            elif x < .95: prog.append(X(call(r.choice(["f1", "f2", "inlib"] if r.random() < .2 else ["f1", "f2"]), arg(), arg())))
            elif x < .96 and self.libs: prog.append(P(call(r.choice(self.libs))))
            elif x < .97: prog.append(P(V(r.choice(["alpha", "beta", "given", "inlib", "lib", "neverdefined", "v1"]))))
            else: prog.append(P(V("i") if r.random() < .1 else arg()))
        if r.random() < .5: prog.append(("return", [arg() for _ in range(r.choice([1, 2, 3, 8]))]))
        return prog

def judge(chk, s, lines, rep):
    """Compares what the driver saw with what the model says."""
    def bad(what, more): chk.violation("host: " + what, f"{more}\n{rep['text'][:3500]}", rep)
    i = 0
    for x in s.expect:
        if i >= len(lines): return bad("events missing", f"expected {x}, nothing more")
        l = lines[i]; i += 1
        w = l.split()
        if isinstance(x, list):
            t = toks(l)
            if x[0] == "object" and t[-2] in ("NULL", "n"): t[-2] = "-"
            if not same(t, x): return bad(f"{x[0]} event", f"got {l[:600]}, expected {x}")
            chk.count_kind({"call": "calls of host functions", "back": "calls from the host", "probe": "variables read from the host", "parsed": "arguments parsed", "object": "objects examined"}[x[0]])
        elif x[0] == "new":
            if w != ["new"]: return bad("events", f"{l}, expected a new runtime")
        elif x[0] == "plug":
            e = x[1]
            if w[0] != "plug" or "!mismatch" in l or "!length" in l: return bad("plugging", f"got {l}")
            if (w[1] == "1") != (e is None): return bad("plugging", f"got {l[:500]}, expected {'success' if e is None else vars(e)}")
            if e is not None:
                if e.kind is not None and KIND[int(w[3])] != e.kind: return bad("error of plugging", f"got {l[:500]}, expected {vars(e)}")
                if e.msg is not None and w[4] != hx(e.msg.encode().split(b"\0")[0]) and len(e.msg) < 500: return bad("error of plugging", f"got {l[:500]}, expected {vars(e)}")
            if x[2]:
                fr = bytes.fromhex(w[5][1:]).decode(errors="replace").splitlines()
                if not fr or not fr[-1].startswith(f"\t#{len(fr)-2} {x[2]}:"): return bad("stack trace of plugging", f"got {fr}, expected the last frame to be {x[2]}")
                if any(not f.startswith(f"\t#{j} ") for j, f in enumerate(fr[1:])): return bad("stack trace of plugging", f"got {fr}")
            chk.count_kind("layers of variables plugged" if e is None else "layers refused")
        elif x[0] == "run":
            if w[0] != "run": return bad("outcome", f"got {l[:400]} {bytes.fromhex(w[3][1:]) if w[0] == 'fail' else ''}, expected success {x[1]}")
            if not same(toks(l)[1:], x[1]): return bad("returned values", f"got {l[:600]}, expected {x[1]}")
            chk.count_kind("runs that returned values")
        elif x[0] == "fail":
            e, shown, line, src = x[1:]
            if w[0] != "fail": return bad("outcome", f"got {l[:400]}, expected an error {vars(e)}")
            if len(w) != 5 or w[1] != "1" or KIND.get(int(w[2])) != e.kind: return bad("error kind", f"got {l[:400]}, expected {vars(e)}")
            msg, tr = bytes.fromhex(w[3][1:]), bytes.fromhex(w[4][1:])
            if "!length" in l: return bad("error length", l[:400])
            if e.msg is not None and e.msg is not ref.ANYSTR and msg != enc(e.msg): return bad("error message", f"got {msg}, expected {e.msg!r}")
            head = HEAD[e.kind].encode() + b": " + msg + b".\n" + b"Stack trace:\n"
            if not tr.startswith(head): return bad("error report", f"got {tr}, expected {head}")
            fr = tr[len(head):].decode(errors="replace").splitlines()
            last = f"\t#{len(fr)-1} {shown}"
            if not fr or not (fr[-1] == last + f":{line}" if line else fr[-1].startswith(last + ":")): return bad("stack trace", f"got {tr}, expected the last frame to be {shown}:{line}")
            if any(not f.startswith(f"\t#{j} ") for j, f in enumerate(fr)): return bad("stack trace", f"got {tr}")
            m = re.search(rb"nosuch(lib|nested)\d*", msg)
            if m:
                name, at = s.marks[m.group().decode()]
                if fr[0] != f"\t#0 {name}:{at}": return bad("stack trace", f"got {tr}, expected the first frame to be {name}:{at}")
                chk.count_kind("errors inside of " + m.group(1).decode() + " code")
            chk.count_kind("runs that failed, with their traces")
        elif x[0] == "out":
            if w[0] != "out" or bytes.fromhex(w[1][1:]) != x[1] or bytes.fromhex(w[2][1:]) != x[2]: return bad("streams", f"got {l[:600]}, expected {x}")
            if (int(w[3]) > 0) != x[3]: return bad("callback", f"called {w[3]} times, configured: {x[3]}")
            if int(w[4]) != x[4]: return bad("interruption", f"{w[4]}, expected {x[4]}")
            chk.count("callbacks", int(w[3])); chk.count("instructions at which a local hides a variable", int(w[5]))
            if x[4]: chk.count_kind("interruptions")
        elif x[0] == "profile":
            if w[0] != "profile": return bad("events", l[:300])
            body = bytes.fromhex(w[2][1:]).decode(errors="replace")
            if x[1] is False:
                if w[1] != "0": return bad("profile to a missing directory", l)
                continue
            f = open(os.path.join(CWD, f"s{s.idx}", "profile"), "rb").read().decode(errors="replace") if w[1] == "1" else None
            if f != body: return bad("profile file", f"{f!r}, stream {body!r}")
            if x[1] is None:
                if body: return bad("profile of a runtime that doesn't measure", body)
                continue
            got = {}
            for q in body.splitlines():
                p = q.strip().split(" - ")
                if len(p) == 4: got[p[0]] = got.get(p[0], 0) + int(p[2].split()[0])
            own = {n: c for n, c in x[1].items() if n in ("f1", "f2", "inlib", "nf")}
            if {n: c for n, c in got.items() if n in ("f1", "f2", "inlib", "nf")} != own: return bad("profile", f"{body}\nexpected {own}")
            chk.count_kind("profiles")
        elif x[0] == "free":
            if w[0] != "free": return bad("events", f"{l[:300]}, expected the end")
            if rep["variant"] == "asan" and int(w[2]) > 0: return bad("leak", f"{w[2]} bytes")
    if lines[i:] != ["end"]: return bad("more events", f"{lines[i:][:5]}")

def main():
    global CWD
    chk = vf.Check("C33", rule="distinct host scenarios (tables, actions, libraries, runs) whose every event agreed with the model")
    r = chk.rng
    CWD = os.path.realpath(os.path.join(vf.tmpdir(), "work")); os.makedirs(CWD, exist_ok=True)
    ss = []
    n = chk.scale(1500, 20000)
    while len(ss) < n:
        seed = r.getrandbits(60)
        try: ss.append(Scenario(random.Random(seed), len(ss)))
        except Uncertain: chk.count("not covered by the model")
    # every format with every type of argument
    vals = [I(3), F("2.5"), TRUE, FALSE, NONE, S("text"), S(""), ("list", []), ("list", [I(1)]), ("map", []), ("map", [(("key", "k"), I(1))]), V("hf"), call("hostdir"), call(dot("buffer", "new"), I(3)), V("int"), V("print"), ("un", "?", V("int")), V("math"), ("bin", "|", V("int"), V("float"))]
    for c in "bifsBlmF":
        for x in vals: ss.append(Scenario(random.Random(r.getrandbits(60)), len(ss), (c, [x])))
        x, y = r.choice(vals), r.choice(vals)
        ss.append(Scenario(random.Random(r.getrandbits(60)), len(ss), ("?" + c, [NONE]))); ss.append(Scenario(random.Random(r.getrandbits(60)), len(ss), ("?" + c, [x])))
        ss.append(Scenario(random.Random(r.getrandbits(60)), len(ss), ("o" + c + "?o" + c, [y, x, NONE, x])))
    n = len(ss)
    # the bytecode of the runs that are given as such
    need = sorted({c[3][1] for s in ss for c in s.commands if isinstance(c, tuple) and isinstance(c[3], tuple)} | {b[1] for s in ss for b in s.files.values() if isinstance(b, tuple)})
    asm = {}
    for t, x in zip(need, vf.run_cases([vf.Case(t, mode=vf.EMIT) for t in need])):
        if x.ok == 1: asm[t] = x.out.decode("utf-8", "surrogatepass")
    jobs = []
    for s in ss:
        if any(isinstance(b, tuple) and b[1] not in asm for b in s.files.values()): continue
        if any(isinstance(c, tuple) and isinstance(c[3], tuple) and c[3][1] not in asm for c in s.commands): continue
        os.makedirs(os.path.join(CWD, f"s{s.idx}"))
        for f, b in s.files.items():
            with open(os.path.join(CWD, f"s{s.idx}", f), "w", newline="") as fp: fp.write(asm[b[1]] if isinstance(b, tuple) else b)
        text_ = "\n".join(c if isinstance(c, str) else " ".join(["run", c[1], c[2], hx(asm[c[3][1]] if isinstance(c[3], tuple) else c[3])]) for c in s.commands) + "\n"
        jobs.append((s, text_, r.choice(["asan", "asan", "asan", "asanpool", "plain"])))
    if len(jobs) < n * .7: raise vf.HarnessError(f"only {len(jobs)} scenarios")
    for v in ("asan", "asanpool", "plain"): build.harness(v, "embed.c")
    def go(j):
        s, t, v = j
        d = os.path.join(CWD, f"s{s.idx}")
        with open(os.path.join(d, "job"), "w") as f: f.write(t)
        for k in range(2):
            try: p = subprocess.run([build.harness(v, "embed.c"), os.path.join(d, "job"), os.path.join(d, "res")], cwd=CWD, env=vf.env(), preexec_fn=vf.big_stack, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60 * (k + 1)); break
            except subprocess.TimeoutExpired: p = None
        res = open(os.path.join(d, "res"), errors="replace").read() if os.path.exists(os.path.join(d, "res")) else ""
        return (None, b"", res) if p is None else (p.returncode, p.stdout, res)
    with ThreadPoolExecutor(8) as ex:
        for (s, t, v), (rc, err, res) in zip(jobs, ex.map(go, jobs)):
            readable = "\n".join((c if isinstance(c, str) else f"run {c[1]} {c[2]}\n{c[3]}") for c in s.commands) + "\n".join(f"\nfile {f}: {b}" for f, b in s.files.items())
            rep = {"variant": v, "script": t, "text": readable, "files": {f: b if isinstance(b, str) else asm[b[1]] for f, b in s.files.items()}}
            chk.observed(readable)
            for a in s.hostcalls: chk.count_kind("host action " + a)
            if rc == 2: raise vf.HarnessError(f"embed: {err[-500:]!r}")
            if rc is None: chk.violation("host: doesn't end", readable[:3000], rep); continue
            if rc == 6: chk.violation("host: " + err.decode(errors="replace").strip()[:80], readable[:3000], rep); continue
            if rc: chk.violation("host: death", f"exit {rc} {vf.san_summary(err)}\n{err[-1500:].decode(errors='replace')}\n{readable[:2500]}", rep); continue
            judge(chk, s, res.splitlines(), rep)
            chk.sample({"script": readable[:600], "events": res[:500]})
            if chk.enough(): break
    ev = chk.cov.get("events", {})
    for what in ("calls of host functions", "calls from the host", "variables read from the host", "arguments parsed", "objects examined", "layers of variables plugged", "layers refused", "runs that returned values", "runs that failed, with their traces", "profiles", "host action err", "host action intr"):
        if not chk.violations and not ev.get(what): raise vf.HarnessError(f"nothing observed of: {what}")
    chk.finish(700, 700)

vf.main(main)
