"""Reference model of the bytecode: a stack machine written from the description of
the instructions, on the values of ref.py."""
import ref
from ref import Err, Uncertain, NList, NMap, NFun, NNat, NSum, NNullable, T, MAX_FRAMES, MAX_FRAME_STACK, MAX_ARGC, MAX_RETS

class Frame:
    __slots__ = ("st", "locals", "closure", "pc")
    def __init__(self, closure, pc):
        self.st, self.locals, self.closure, self.pc = [], NMap(), closure, pc
    def push(self, v):
        if len(self.st) >= MAX_FRAME_STACK: raise Err("runtime")
        self.st.append(v)

class BVM(ref.Interp):
    def run_code(self, code):
        """code: list of (op, operands), labels resolved to ("l", index). Returns (output, error)."""
        self.code = code
        try:
            self.depth = 1
            self.execute(0, None, [])
            return b"".join(self.out), None
        except Err as e:
            return b"".join(self.out), e

    def apply(self, f, args):
        self.tick()
        if type(f) is not NFun: return super().apply(f, args)
        n = f.params
        args = (args + [None] * n)[:n]
        if self.depth >= MAX_FRAMES: raise Err("internal")
        self.depth += 1
        try: return self.execute(f.body, f.scope, args)
        finally: self.depth -= 1

    def execute(self, pc, closure, args):
        fr = Frame(closure, pc)
        for a in args: fr.push(a)
        while self.step(fr): pass
        if len(fr.st) > MAX_RETS: raise Err("runtime")
        return fr.st

    def step(self, fr):
        self.tick()
        if fr.pc >= len(self.code): raise Err("internal")
        op, a = self.code[fr.pc]
        fr.pc += 1
        st = fr.st
        self.note(op)
        def pop(n):
            if n > len(st): raise Err("runtime")
            r = [st.pop() for _ in range(n)]
            return r
        def want(n):
            if n > len(st): raise Err("internal")
        if op == "NOPE": pass
        elif op == "POS": want(1)
        elif op == "NEG":
            v, = pop(1)
            if ref.isint(v): fr.push(ref.checked(-v))
            elif type(v) is float: fr.push(-v)
            else: raise Err("runtime")
        elif op == "NOT":
            v, = pop(1)
            if type(v) is not bool: raise Err("runtime")
            fr.push(not v)
        elif op == "NLB": fr.push(NNullable(pop(1)[0]))
        elif op == "STP":
            b, x = pop(2); fr.push(NSum(x, b))
        elif op in ARITH:
            b, x = pop(2); fr.push(ref.arith(ARITH[op], x, b))
        elif op in ("EQL", "NQL"):
            b, x = pop(2); fr.push(ref.equal(x, b) == (op == "EQL"))
        elif op in REL:
            b, x = pop(2); fr.push(ref.relate(REL[op], x, b))
        elif op == "ASS":
            want(1)
            fr.locals.put(a[0], st[-1])
        elif op == "POP":
            if not 0 <= a[0] <= len(st): raise Err("runtime")
            pop(a[0])
        elif op == "CHECKTYPE":
            want(2)
            t, = pop(1)
            if not ref.istypeof(t, st[-1]): raise Err("runtime")
        elif op == "CALL":
            argc, retc = a
            if argc < 0 or retc < 0: raise Err("internal")
            if not st: raise Err(None)
            f, = pop(1)
            if argc > MAX_ARGC: raise Err("internal")
            rets = self.apply(f, pop(argc))
            for v in rets[:retc]: fr.push(v)
            for _ in range(retc - len(rets)): fr.push(None)
        elif op in ("SELECT", "SELECT2"):
            want(2)
            k, c = st[-1], st[-2]
            pop(2 if op == "SELECT" else 1)
            fr.push(ref.select(c, k))
        elif op in ("INSERT", "INSERT2"):
            want(3)
            x, y, z = st[-3:]
            pop(2)
            if op == "INSERT": ref.insert(x, y, z)
            else: ref.insert(y, z, x)
        elif op in ("PUSHINT", "PUSHFLT", "PUSHSTR"): fr.push(a[0])
        elif op == "PUSHVAR": fr.push(self.var(fr, a[0]))
        elif op == "PUSHTRU": fr.push(True)
        elif op == "PUSHFLS": fr.push(False)
        elif op == "PUSHNNE": fr.push(None)
        elif op == "PUSHFUN":
            if not 0 <= a[1] <= 65536: raise Err("internal")
            fr.push(NFun(a[1], a[0][1], (fr.locals, fr.closure)))
        elif op in ("PUSHLST", "PUSHMAP"):
            if a[0] > 1000: raise Uncertain("big capacity")
            fr.push(NList([]) if op == "PUSHLST" else NMap())
        elif op == "PUSHTYP":
            want(1); fr.push(ref.typeof(st[-1]))
        elif op == "PUSHNNETYP": fr.push(T["None"])
        elif op == "EXIT":
            fr.push(fr.locals); return False
        elif op == "RETURN":
            if a[0] != len(st): raise Uncertain("RETURN with the wrong count")
            return False
        elif op == "JUMP": fr.pc = a[0][1]
        elif op in ("JUMPIFANDPOP", "JUMPIFNOTANDPOP"):
            v, = pop(1)
            if type(v) is not bool: raise Err("runtime")
            if v == (op == "JUMPIFANDPOP"): fr.pc = a[0][1]
        else: raise AssertionError(op)
        return True

    def var(self, fr, n):
        r = fr.locals.get(n)
        c = fr.closure
        while r is None and c is not None:
            r = c[0].get(n); c = c[1]
        if r is not None: return r[0]
        if n in self.builtins: return self.builtins[n]
        raise Err("runtime")

ARITH = {"ADD": "+", "SUB": "-", "MUL": "*", "DIV": "/", "MOD": "%"}
REL = {"LSS": "<", "GRT": ">", "LEQ": "<=", "GEQ": ">="}

def predict(code, max_steps=4000):
    vm = BVM(max_steps=max_steps)
    try: out, err = vm.run_code(code)
    except (Uncertain, RecursionError): return None
    return out, err, vm.trace

# -- well-formed random bytecode ------------------------------------------------
class Gen:
    """Random bytecode that keeps track of what is on the stack, with jumps, loops and functions."""
    def __init__(self, rng, wild=.03):
        self.r, self.wild = rng, wild
        self.nlab = 0
        self.funcs = []       # bodies to be placed at the end
        self.nvar = 0

    def label(self):
        self.nlab += 1
        return self.nlab

    def program(self, n):
        items = []
        self.vars = {}
        st = self.block(items, [], n, 2, dict(self.vars))
        self.show(items, st)
        items.append(("EXIT", []) if self.r.random() < .8 else ("RETURN", [0]))
        while self.funcs:
            f = self.funcs.pop()
            items += f
        return resolve(items)

    def show(self, items, st):
        """Prints what is on the stack and empties it."""
        n = len(st)
        if n == MAX_FRAME_STACK: items.append(("POP", [1])); n -= 1
        items += [("PUSHVAR", ["print"]), ("CALL", [n, 0]), ("PUSHSTR", ["\n"]), ("PUSHVAR", ["print"]), ("CALL", [1, 0])]

    def block(self, items, st, n, depth, vars):
        """Appends about n instructions to items; st: kinds on the stack. Returns the new st."""
        r = self.r
        st = list(st)
        while n > 0:
            n -= 1
            if r.random() < self.wild:
                import hostile
                op = r.choice([o for o in hostile.OPS if o not in ("RETURN",)])
                items.append((op, [("lab", self.anylab(items)) if k == "l" else hostile.rand_operand(r, k, 1) for k in hostile.SIG[op]]))
                return st # nothing is known any more: the rest is likely not reached
            x = r.random()
            k1 = st[-1] if st else None
            k2 = st[-2] if len(st) > 1 else None
            if len(st) >= MAX_FRAME_STACK - 4:
                items.append(("POP", [r.randrange(1, len(st) + 1)])); del st[-items[-1][1][0]:]
            elif x < .22 or not st:
                op, v, k = r.choice([("PUSHINT", [r.choice([0, 1, 2, 3, 7, -1, -5, 100, 255, 2**31, 2**40, 2**63 - 1])], "int"), ("PUSHINT", [r.randrange(-4, 9)], "int"), ("PUSHFLT", [r.choice([0.0, -0.0, 1.5, -2.25, 0.125, -0.125, 1024.5])], "float"), ("PUSHSTR", [r.choice(["", "a", "k", "hello", "é", "\n\"\\", "x y"])], "str"),
                                     ("PUSHTRU", [], "bool"), ("PUSHFLS", [], "bool"), ("PUSHNNE", [], "none"), ("PUSHLST", [r.choice([-1, 0, 1, 5, 1000])], "list"), ("PUSHMAP", [r.choice([-1, 0, 1, 5, 1000])], "map"), ("PUSHNNETYP", [], "type"), ("PUSHTYP", [], "type") if st else ("PUSHNNE", [], "none")])
                items.append((op, v)); st.append(k)
            elif x < .30 and vars:
                v = r.choice(sorted(vars)); items.append(("PUSHVAR", [v])); st.append(vars[v])
            elif x < .36:
                v = r.choice(["a", "b", "c", "d"])
                items.append(("ASS", [v])); vars[v] = k1
            elif x < .42: items.append(("POP", [1])); st.pop()
            elif x < .44: items.append((r.choice(["NOPE", "POS"]), []))
            elif x < .48 and k1 in ("int", "float"): items.append(("NEG", []))
            elif x < .50 and k1 == "bool": items.append(("NOT", []))
            elif x < .60 and k1 in ("int", "float") and k2 in ("int", "float"):
                ops = ["ADD", "SUB", "MUL", "LSS", "GRT", "LEQ", "GEQ", "EQL", "NQL", "DIV"] + (["MOD"] if k1 == k2 == "int" else [])
                op = r.choice(ops)
                st[-2:] = ["bool" if op in REL or op in ("EQL", "NQL") else "int" if k1 == k2 == "int" else "float"]
                items.append((op, []))
            elif x < .63 and k2 and k1 in ("str", "bool", "none", "int", "type") and k2 in ("str", "bool", "none", "int", "type"):
                items.append((r.choice(["EQL", "NQL"]), [])); st[-2:] = ["bool"]
            elif x < .66: items.append(("NLB", [])); st[-1] = "nullable"
            elif x < .68 and k2: items.append(("STP", [])); st[-2:] = ["sum"]
            elif x < .72:
                items.append((r.choice(["SELECT", "SELECT2"]), [])) if k2 else None
                if k2:
                    if items[-1][0] == "SELECT": st[-2:] = ["any"]
                    else: st[-1] = "any"
            elif x < .80:
                if k1 == "map" or k1 == "list":
                    if r.random() < .5:
                        items.append(("PUSHINT", [0]) if k1 == "list" or r.random() < .5 else ("PUSHSTR", [r.choice("kab")]))
                        items.append(r.choice([("PUSHINT", [r.randrange(9)]), ("PUSHSTR", ["v"]), ("PUSHTRU", [])]))
                        items.append(("INSERT", []))
                    elif k2:
                        items.append(("PUSHINT", [0])); items.append(("INSERT2", []))
                        st.pop()
            elif x < .83 and k2:
                t = r.choice(["any", "int", "float", "bool", "String", "List", "Map", "None"])
                right = {"int": "int", "float": "float", "bool": "bool", "str": "String", "list": "List", "map": "Map", "none": "None"}.get(k1, "any")
                items += [("PUSHVAR", [right if r.random() < .93 else t]), ("CHECKTYPE", [r.randrange(4), "p"])]
            elif x < .87:
                k = r.randrange(0, len(st) + 1)
                items += [("PUSHVAR", ["print"]), ("CALL", [k, 0])]
                if k: del st[-k:]
            elif x < .89 and k1:
                f, k = r.choice([("type", "type"), ("count", "int"), ("typename", "str"), ("isCallable", "bool"), ("keysof", "any")])
                if f == "count" and k1 not in ("str", "list", "map"): continue
                items += [("PUSHVAR", [f]), ("CALL", [1, 1])]; st[-1] = k
            elif x < .93 and depth > 0:
                if k1 == "bool" and r.random() < .7:
                    c = r.choice(["JUMPIFANDPOP", "JUMPIFNOTANDPOP"])
                    end, els = self.label(), self.label()
                    items.append((c, [("lab", els)])); st.pop()
                    s2 = self.block(items, st, r.randrange(0, 6), depth - 1, dict(vars))
                    self.level(items, s2, len(st))
                    items.append(("JUMP", [("lab", end)]))
                    items.append(("label", els))
                    s2 = self.block(items, st, r.randrange(0, 6), depth - 1, dict(vars))
                    self.level(items, s2, len(st))
                    items += [("label", end), ("NOPE", [])]
                    st = ["any" for _ in st]
                    vars = {v: "any" for v in vars}
                elif depth > 1:
                    self.nvar += 1
                    i, top = f"i{self.nvar}", self.label()
                    items += [("PUSHINT", [0]), ("ASS", [i]), ("POP", [1]), ("label", top)]
                    s0 = ["any" for _ in st]
                    vars = {v: "any" for v in vars}
                    s2 = self.block(items, s0, r.randrange(1, 7), depth - 1, dict(vars))
                    self.level(items, s2, len(st))
                    items += [("PUSHVAR", [i]), ("PUSHINT", [1]), ("ADD", []), ("ASS", [i]), ("PUSHINT", [r.randrange(1, 5)]), ("LSS", []), ("JUMPIFANDPOP", [("lab", top)])]
                    st = s0
            elif depth > 0:
                argc, f = r.choice([0, 1, 2, 3, 5]), self.label()
                name = r.choice(["f", "g", "h"])
                items.append(("PUSHFUN", [("lab", f), argc, name]))
                nret = r.choice([0, 1, 1, 2, 3])
                body = [("label", f), ("NOPE", [])]
                inner = Gen(r, self.wild)
                inner.nlab = self.nlab + 1000 * (len(self.funcs) + 1 + r.randrange(100))
                s2 = self.block(body, ["any"] * argc, r.randrange(1, 9), depth - 1, dict(vars))
                self.level(body, s2, nret)
                body.append(("RETURN", [nret]) if r.random() < .9 else ("EXIT", []))
                self.funcs.append(body)
                if r.random() < .4: items += [("ASS", [name])]; vars[name] = "fun"
                if len(st) + 1 < MAX_FRAME_STACK:
                    a = min(len(st), r.choice([argc, argc, argc, argc + 1, 0]))
                    want = r.choice([0, 1, 1, 2, 3])
                    items.append(("CALL", [a, want]))
                    if a: del st[-a:]
                    st += ["any"] * want
        return st

    def anylab(self, items):
        labs = [i[1] for i in items if i[0] == "label"]
        if labs and self.r.random() < .7: return self.r.choice(labs)
        items.append(("label", l := self.label()))
        return l

    def level(self, items, st, n):
        """Brings the stack to exactly n values."""
        if len(st) > n: items.append(("POP", [len(st) - n]))
        for _ in range(n - len(st)): items.append(self.r.choice([("PUSHNNE", []), ("PUSHINT", [self.r.randrange(9)])]))

def resolve(items):
    code, at = [], {}
    for op, a in items:
        if op == "label": at[a] = len(code)
        else: code.append((op, a))
    code.append(("EXIT", []))
    return [(op, [("l", at.get(o[1], len(code) - 1)) if isinstance(o, tuple) and o[0] == "lab" else o for o in a]) for op, a in code]

# -- text ------------------------------------------------------------------------
LNAMES = ["a", "loop", "end", "_", "_x", "L", "ADD", "JUMP", "x1", "EXIT", "Label_2", "longer_label_name_0123456789", "f", "l0"]

def text(code, rng=None):
    """The code as an assembly source, in a random layout."""
    if rng is None:
        sp = lambda: " "; osp = lambda: ""; nl = lambda: "\n"
    else:
        sp = lambda: rng.choice([" ", " ", "  ", "\t", "\n", " \r\n\t"])
        osp = lambda: rng.choice(["", "", "", " ", "\t", "\n  "])
        nl = lambda: rng.choice(["\n", "\n", "", " ", "\n\n", "\r\n\t"])
    used = sorted({o[1] for _, os in code for o in os if isinstance(o, tuple)})
    names, taken = {}, set()
    for u in used:
        while True:
            n = f"L{u}" if rng is None else rng.choice(LNAMES) + (str(rng.randrange(500)) if rng.random() < .7 else "")
            if n not in taken: break
        taken.add(n); names[u] = n
    out = []
    for i, (op, os) in enumerate(code):
        if i in names: out.append(names[i] + osp() + ":" + (osp() or " "))
        elif rng is not None and rng.random() < .05:
            n = f"unused{i}"; out.append(n + osp() + ":" + osp())
        ts = []
        for o in os:
            if isinstance(o, tuple): ts.append(names[o[1]])
            elif isinstance(o, str): ts.append(esc(o, rng))
            elif isinstance(o, float): ts.append(("%.6f" if rng is None or rng.random() < .5 else "%.3f" if o * 8 == int(o * 8) else "%.17f") % o)
            else: ts.append(str(o) if rng is None or rng.random() < .9 or o < 0 else rng.choice(["+", "0", "+00"]) + str(o))
        out.append(op)
        if ts: out.append(sp() + (osp() + "," + osp()).join(ts))
        out.append(osp() + (";" if rng is None or i < len(code) - 1 or rng.random() < .7 else ""))
        out.append(nl())
    return "".join(out)

def esc(s, rng=None):
    o = []
    for c in s:
        if c == "\\" or c == '"': o.append("\\" + c)
        elif c in "\n\t\r" and (rng is None or rng.random() < .8): o.append("\\" + {"\n": "n", "\t": "t", "\r": "r"}[c])
        else: o.append(c)
    return '"' + "".join(o) + '"'

def dump(code):
    """What the disassembler prints."""
    out = []
    for i, (op, os) in enumerate(code):
        ts = []
        for o in os:
            if isinstance(o, tuple): ts.append(str(o[1]))
            elif isinstance(o, str): ts.append(f"[{o}]")
            elif isinstance(o, float): ts.append("%f" % o)
            else: ts.append(str(o))
        out.append(f"{i}: {op} " + "".join(t + " " for t in ts) + "\n")
    return "".join(out).encode()
