"""Hostile workloads: wild calls of everything, mutated sources, mutated and random bytecode."""
import re, random
import gen
from gen import I, F, S, V, call, dot, asg, X, B, P, NONE, TRUE, FALSE, BOUND

# ---- sources ---------------------------------------------------------------
TOK = re.compile(r"""#[^\n]*|"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|\d+\.\d+|\d+|[A-Za-z_]\w*|->|[<>=!]=|\s+|.""", re.S)
VOCAB = ("fun return if else while do break not and or none true false int float String List Map Buffer File any None bool Type self x v1 f1 p1 print count "
         "istypeof typename type keysof toString append abs min max string buffer math random input error assert "
         "( ) { } [ ] , ; : . -> = == != < > <= >= + - * / % | ? ! 0 1 2 9223372036854775807 99999999999999999999 1.5 0.0 'a' \"b\" '' '\\n' @ $ \\ ' \" #").split()

def tokens(src): return TOK.findall(src)

def mutate_tokens(rng, src, other=None, n=None):
    t = tokens(src)
    for _ in range(n or rng.choice([1, 1, 1, 2, 3, 6])):
        if not t: t = [rng.choice(VOCAB)]
        x = rng.random()
        i = rng.randrange(len(t))
        j = min(len(t), i + rng.choice([1, 1, 2, 3, 8]))
        if x < .2: del t[i:j]
        elif x < .35: t[i:i] = t[i:j]
        elif x < .5:
            k = rng.randrange(len(t)); t[i], t[k] = t[k], t[i]
        elif x < .7: t[i] = rng.choice(VOCAB)
        elif x < .82: t.insert(i, rng.choice(VOCAB))
        elif x < .88: del t[i:]
        elif x < .95:
            # one identifier or literal in the place of another
            ids = [k for k, w in enumerate(t) if re.match(r"[A-Za-z_0-9'\"]", w)]
            if ids: t[rng.choice(ids)] = t[rng.choice(ids)]
        elif other:
            o = tokens(other); a = rng.randrange(len(o) + 1)
            t[i:j] = o[a:a + rng.randrange(1, 20)]
    return "".join(t)

def mutate_bytes(rng, b, n=None):
    b = bytearray(b)
    for _ in range(n or rng.choice([1, 1, 2, 4, 10])):
        x = rng.random()
        i = rng.randrange(len(b) + 1)
        if x < .3 and b: b[min(i, len(b) - 1)] = rng.randrange(256)
        elif x < .5: del b[i:i + rng.choice([1, 1, 2, 5, 30])]
        elif x < .7: b[i:i] = bytes([rng.choice(b"()[]{}<>;:.,'\"\\#-+*/%=!?|0919azAZ_ \n\t\x00\x7f\x80\xc3\xff")])
        elif x < .8: b[i:i] = b[i:i + rng.choice([1, 4, 30])]
        elif x < .9: del b[i:]
        else: b[i:i] = bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 4])))
    return bytes(b)

# ---- wild calls: everything applied to everything ---------------------------
POOL = """
cyc = [1]; cyc[1] = cyc;
cym = {a: 1}; cym.me = cym;
fun id(x) return x;
fun two() return 1, 2;
fun mk() { l = [0]; fun get() { l[0] = l[0] + 1; return l[0]; } return get; }
ctr = mk();
inf = 1e; nan = 0;
""".replace("inf = 1e; nan = 0;", "big = 1000000.0; do { big = big * big; k = count([1]); n = [n9 = 0]; } while false; inf = big * big * big * big * big * big * big * big * big * big * big * big * big * big * big * big * big * big * big * big * big * big * big * big * big * big; nan = inf - inf;")
POOLV = ["0", "1", "-1", "2", "7", "255", "256", "1114111", "55296", "65", "2147483647", "2147483648", "4294967296", "4294967297", "9223372036854775807", "-9223372036854775807-1",
         "0.0", "-0.0", "1.5", "-2.25", "inf", "-inf", "nan", "9223372036854775807.0", "none", "true", "false", "''", "'a'", "'hello'", "'  x '", "'12'", "'-5'", "'é日𝄞'", "'a\\nb'", "'99999999999999999999'",
         "[]", "[1]", "[1,2,3]", "['a',[2],{k:3}]", "cyc", "{}", "{a:1}", "{'x':{y:2},1:2,2.5:3,true:4}", "cym", "id", "two", "ctr", "print", "count", "int", "float", "bool", "String", "List", "Map", "None", "Type",
         "Buffer", "File", "any", "?int", "int|String", "[int,int]", "{a:int}", "?[int]", "string", "math", "buffer", "buffer.new(0)", "buffer.new(5)", "buffer.sliceUp(buffer.new(8),2,3)", "buffer.fromString('héllo')", "type(1)", "type(int)", "type(none)",
         "mk", "files", "string.cat", "math.PI", "[none,none]", "[[[]]]", "keysof({a:1})", "Numeric", "Callable", "Collection", "NFunc", "Func", "makeIterator({a:1,b:2})", "dummy", "toString", "?any", "[any]", "int|?String|[int]"]
FUNS = [("type", 1), ("count", 1), ("istypeof", 2), ("typename", 1), ("keysof", 1), ("string.ord", 1), ("string.chr", 1), ("string.cat", 3), ("string.trim", 1), ("string.slice", 3), ("string.toInt", 1),
        ("buffer.new", 1), ("buffer.sliceUp", 3), ("buffer.toString", 1), ("buffer.fromString", 1), ("math.floor", 1), ("math.ceil", 1), ("math.sqrt", 1), ("math.pow", 2), ("math.sin", 1), ("math.cos", 1), ("math.tan", 1), ("math.acos", 1), ("math.asin", 1), ("math.atan", 1), ("math.exp", 1), ("math.log", 1),
        ("random.generate", 2), ("random.seed", 1), ("toString", 1), ("abs", 1), ("min", 2), ("max", 2), ("append", 2), ("isCallable", 1), ("print", 2), ("files.openFile", 2), ("files.read", 3), ("files.write", 3), ("files.openDir", 1), ("files.nextDirItem", 1),
        ("error", 1), ("assert", 2), ("import", 1), ("input", 0), ("getCurrentScriptDirectory", 0), ("getCurrentScriptLocation", 0), ("id", 1), ("ctr", 0), ("math.asin", 1), ("makeIterator", 1), ("integerFromDigit", 1), ("makeIterator", 2), ("toString", 2)]
BIG = re.compile(r"buffer\.new\((?:2147483647|2147483648|4294967296|4294967297)")

def wild(rng, n=6):
    """A program that applies operations to hostile values; each may fail and end it."""
    out = [POOL]
    vs = list(POOLV)
    def v(d=1):
        x = rng.random()
        if d and x < .15: return expr(d - 1)
        if x < .4 and local: return rng.choice(local)
        return rng.choice(vs)
    def expr(d):
        x = rng.random()
        if x < .45:
            f, k = rng.choice(FUNS)
            k = k if rng.random() < .85 else rng.randrange(0, 6)
            return f + "(" + ", ".join(v(d) for _ in range(k)) + ")"
        if x < .6: return "(" + v(d) + ") " + rng.choice("+ - * / % < > <= >= == != | and or".split()) + " (" + v(d) + ")"
        if x < .66: return rng.choice(["-", "+", "not ", "?"]) + "(" + v(d) + ")"
        if x < .82: return "(" + v(d) + ")[" + v(d) + "]"
        if x < .87: return "(" + v(d) + ")." + rng.choice(["a", "x", "k", "new", "size", "toString", "PI"])
        if x < .92: return "(" + v(d) + ")->" + rng.choice(["a", "push", "toString"]) + "(" + v(d) + ")"
        if x < .97: return "(" + v(d) + ")(" + ", ".join(v(d) for _ in range(rng.randrange(0, 4))) + ")"
        return rng.choice(["[%s, %s]", "{k: %s, 'q': %s}", "{%s: %s}"]) % (v(d), v(d))
    local = []
    for i in range(n):
        x = rng.random()
        if x < .6:
            out.append(f"w{i} = {expr(2)};")
            local.append(f"w{i}")
        elif x < .8:
            t = rng.choice(local) if local and rng.random() < .7 else rng.choice(["cyc", "cym"])
            out.append(f"{t}[{v()}] = {v()};")
        elif x < .9: out.append(f"print({v()}, ' ', {v()}, '\\n');")
        else:
            out.append(f"fun g{i}(p: {v(0)} = {v(0)}, q) return p, q;")
            out.append(f"w{i}, z{i} = g{i}({v()}, {v()});")
            local.append(f"w{i}"); local.append(f"g{i}")
    s = "\n".join(out)
    return BIG.sub("buffer.new(3", s)

# ---- bytecode --------------------------------------------------------------
SIG = {k: [] for k in "NOPE POS NEG NOT ADD SUB MUL DIV MOD EQL NQL LSS GRT LEQ GEQ NLB STP SELECT SELECT2 INSERT INSERT2 PUSHTRU PUSHFLS PUSHNNE PUSHTYP PUSHNNETYP EXIT".split()}
SIG.update(ASS="s", POP="i", CHECKTYPE="is", CALL="ii", PUSHINT="i", PUSHFLT="f", PUSHSTR="s", PUSHVAR="s", PUSHFUN="lis", PUSHLST="i", PUSHMAP="i", RETURN="i", JUMPIFNOTANDPOP="l", JUMPIFANDPOP="l", JUMP="l")
OPS = sorted(SIG)

def esc(s): return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r") + '"'

def asm_text(code):
    """code: list of (op, [operands]); an operand is an int, a float, a str or ("l", index)."""
    n = len(code)
    used = {o[1] for _, os in code for o in os if isinstance(o, tuple)}
    out = []
    for i, (op, os) in enumerate(code):
        ts = []
        for o in os:
            if isinstance(o, tuple): ts.append(f"L{min(max(o[1], 0), n - 1)}")
            elif isinstance(o, str): ts.append(esc(o))
            elif isinstance(o, float): ts.append("%.17f" % o)
            else: ts.append(str(o))
        lab = f"L{i}: " if i in used or (i == n - 1 and any(u >= n for u in used)) or (i == 0 and any(u < 0 for u in used)) else ""
        out.append(f"{lab}{op} {', '.join(ts)};".replace(" ;", ";"))
    return "\n".join(out) + "\n"

LINE = re.compile(r'(?:L(\d+): )?([A-Z0-9]+) ?(.*);$', re.S)
OPER = re.compile(r'"(?:\\.|[^"\\])*"|L\d+|-?\d+\.\d+|-?\d+|-?inf|-?nan')
UN = {"n": "\n", "t": "\t", "r": "\r", '"': '"', "\\": "\\"}

def asm_parse(text):
    code = []
    for l in text.split("\n"):
        if not l: continue
        m = LINE.match(l)
        os = []
        for o in OPER.findall(m.group(3)):
            if o[0] == '"': os.append(re.sub(r"\\(.)", lambda k: UN[k.group(1)], o[1:-1], flags=re.S))
            elif o[0] == "L": os.append(("l", int(o[1:])))
            elif "." in o or "n" in o: os.append(float(o))
            else: os.append(int(o))
        code.append((m.group(2), os))
    return code

INTS = [0, 1, 2, 3, 4, 5, 7, 8, 9, 31, 32, 33, 100, 127, 128, 1000, -1, -2, -100, 65536, (1 << 31) - 1, 1 << 31, -(1 << 31), 1 << 32, (1 << 32) + 1, (1 << 63) - 1, -(1 << 63) + 1]
NAMES = ["a", "b", "f", "x", "int", "String", "print", "count", "type", "any", "Map", "keysof", "string", "", "nope", "é", "self", "append", "toString"]

def rand_operand(rng, k, n):
    if k == "i": return rng.choice(INTS) if rng.random() < .5 else rng.randrange(0, 5)
    if k == "f": return rng.choice([0.0, 1.5, -2.25, 1e15, 0.1])
    if k == "s": return rng.choice(NAMES)
    return ("l", rng.randrange(n))

def rand_instr(rng, n):
    op = rng.choice(OPS)
    ks = SIG[op]
    return op, [rand_operand(rng, k, n) for k in ks]

def mutate_code(rng, code, n=None):
    code = [(o, list(a)) for o, a in code]
    def shift(at, by):
        for _, a in code:
            for k, o in enumerate(a):
                if isinstance(o, tuple) and o[1] >= at and rng.random() < .9: a[k] = ("l", max(0, o[1] + by))
    for _ in range(n or rng.choice([1, 1, 1, 2, 4])):
        if not code: code = [rand_instr(rng, 1)]
        i = rng.randrange(len(code))
        x = rng.random()
        if x < .2: del code[i]; shift(i, -1)
        elif x < .3: code.insert(i, (code[i][0], list(code[i][1]))); shift(i, 1)
        elif x < .4:
            j = rng.randrange(len(code)); code[i], code[j] = code[j], code[i]
        elif x < .55: code.insert(i, rand_instr(rng, len(code))); shift(i, 1)
        elif x < .7:
            same = [o for o in OPS if list(SIG[o]) == list(SIG[code[i][0]])]
            code[i] = (rng.choice(same), code[i][1])
        else:
            c = [k for k in range(len(code)) if code[k][1]]
            if c:
                k = rng.choice(c)
                j = rng.randrange(len(code[k][1]))
                code[k][1][j] = rand_operand(rng, SIG[code[k][0]][j], len(code))
    return code or [("EXIT", [])]

def typed_asm(rng, n=None):
    """Random bytecode that mostly respects the stack discipline, so that it gets far."""
    n = n or rng.choice([5, 10, 20, 40])
    code, depth = [], 0
    vs = ["a"]
    code += [("PUSHLST", [2]), ("ASS", ["a"]), ("POP", [1])]
    while len(code) < n:
        op = rng.choice(OPS)
        need = {"POS": 1, "NEG": 1, "NOT": 1, "NLB": 1, "ASS": 1, "POP": 1, "CHECKTYPE": 2, "SELECT": 2, "SELECT2": 2, "INSERT": 3, "INSERT2": 3, "CALL": 1, "JUMPIFANDPOP": 1, "JUMPIFNOTANDPOP": 1, "PUSHTYP": 1,
                "ADD": 2, "SUB": 2, "MUL": 2, "DIV": 2, "MOD": 2, "EQL": 2, "NQL": 2, "LSS": 2, "GRT": 2, "LEQ": 2, "GEQ": 2, "STP": 2}.get(op, 0)
        if op in ("EXIT", "RETURN") and rng.random() < .9: continue
        if depth < need and rng.random() < .95: continue
        a = [rand_operand(rng, k, n) for k in SIG[op]]
        if op == "POP": a = [1 if rng.random() < .9 else a[0]]
        if op in ("PUSHLST", "PUSHMAP", "PUSHINT"): a = [a[0] if rng.random() < .3 else rng.randrange(6)]
        if op == "CALL": a = [rng.randrange(0, max(1, depth)), rng.choice([0, 1, 1, 1, 2, 3])]
        if op == "PUSHVAR" and rng.random() < .6: a = [rng.choice(["a", "int", "print", "count", "type", "any"])]
        code.append((op, a))
        depth = max(0, depth - need + {"INSERT": 1, "INSERT2": 1, "SELECT2": 2, "ASS": 1, "PUSHTYP": 2, "CHECKTYPE": 1, "POP": 0, "JUMPIFANDPOP": 0, "JUMPIFNOTANDPOP": 0, "NOPE": 0, "JUMP": 0, "EXIT": 0, "RETURN": 0, "CALL": 1}.get(op, 1))
    if rng.random() < .8: code.append(("EXIT", []))
    return code
