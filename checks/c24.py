from common import *
import c13, hostile, random, re, subprocess

# ---- reading what was drawn: a small parser of the DOT language
TOKEN = re.compile(r'\s*(?:("(?:[^"\\]|\\.)*")|([A-Za-z_\x80-\U0010ffff][\w\x80-\U0010ffff]*|-?(?:\.\d+|\d+(?:\.\d*)?))|(->|--)|([{}\[\];=,]))', re.S)
class Bad(Exception): pass
def lex(t):
    pos, out = 0, []
    while True:
        m = TOKEN.match(t, pos)
        if not m:
            if t[pos:].strip(): raise Bad(f"not DOT at {t[pos:pos+40]!r}")
            return out
        out.append(("id", m[1]) if m[1] else ("id", m[2]) if m[2] else ("op", m[3] or m[4]))
        pos = m.end()

def parse(text):
    """(labels, edges) of a directed graph."""
    q = lex(text); i = 0
    def at(v): return i < len(q) and q[i] == ("op", v)
    def ident():
        nonlocal i
        if i >= len(q) or q[i][0] != "id": raise Bad(f"an identifier was expected, got {q[i:i+3]}")
        i += 1; return q[i-1][1]
    def need(v):
        nonlocal i
        if not at(v): raise Bad(f"{v} was expected, got {q[i:i+3]}")
        i += 1
    if i >= len(q) or q[0] != ("id", "digraph"): raise Bad("not a digraph")
    i = 1
    if not at("{"): ident()
    need("{")
    labels, edges = {}, []
    while not at("}"):
        if at(";"): i += 1; continue
        n = ident(); chain = [n]
        while at("->"): i += 1; chain.append(ident())
        if len(chain) > 1: edges += list(zip(chain, chain[1:]))
        else: labels.setdefault(n, None)
        while at("["):
            i += 1
            while not at("]"):
                k = ident(); need("="); v = ident()
                if at(",") or at(";"): i += 1
                if k == "label" and len(chain) == 1: labels[n] = v
            need("]")
    need("}")
    if i != len(q): raise Bad(f"something follows the graph: {q[i:i+4]}")
    return labels, edges

def unquote(l):
    """The text that's shown."""
    if l is None: return None
    if not l.startswith('"'): return l
    return re.sub(r"\\(.)", lambda m: {"n": "\n", "l": "\n", "r": "\n", "t": "\t"}.get(m[1], m[1]), l[1:-1], flags=re.S)

def tree(text):
    """The graph as (label, children) or Bad."""
    labels, edges = parse(text)
    kids, up = {}, {}
    for a, b in edges:
        if a not in labels or b not in labels: raise Bad(f"edge {a} -> {b} of a node without a label")
        if b in up: raise Bad(f"node {b} has two parents")
        up[b] = a; kids.setdefault(a, []).append(b)
    roots = [n for n in labels if n not in up]
    if len(roots) != 1: raise Bad(f"{len(roots)} roots in {len(labels)} nodes")
    seen = set()
    def go(n):
        if n in seen: raise Bad("a cycle")
        seen.add(n)
        if labels[n] is None: raise Bad(f"node {n} has no label")
        return (unquote(labels[n]), [go(c) for c in kids.get(n, [])])
    t = go(roots[0])
    if len(seen) != len(labels): raise Bad("not connected")
    return t

# ---- what should be drawn: (what, exact label or None, children, ordered)
def want(p): return ("block", None, [st(s) for s in p], True)
def st(s):
    k = s[0]
    if k == "expr": return ex(s[1])
    if k == "if" and s[3] is not None and gen.open_if(s[2]): s = ("if", s[1], B(s[2]), s[3]) # (as it's written)
    if k == "if": return ("if-else" if s[3] is not None else "if", None, [ex(s[1]), st(s[2])] + ([st(s[3])] if s[3] is not None else []), True)
    if k == "while": return ("while", None, [ex(s[1]), st(s[2])], True)
    if k == "do": return ("do", None, [st(s[1]), ex(s[2])], False)
    if k == "block": return ("block", None, [st(x) for x in s[1]], True)
    if k == "break": return ("break", None, [], True)
    if k == "return": return ("return", None, [ex(e) for e in s[1]], True)
    if k == "fundef": return fun(s[1], s[2], s[3])
    raise AssertionError(k)
def fun(name, ps, body):
    return ("fun", name, [("parameters", None, [("parameter", n, [ex(x) for x in (df, ty) if x is not None], False) for n, ty, df in ps], True), st(body)], True)
def ex(e):
    k = e[0]
    if k == "int": return ("leaf", str(e[1]), [], True)
    if k == "flt": return ("float", e[1], [], True)
    if k in ("str", "id", "key"): return ("leaf", e[1], [], True)
    if k in ("none", "true", "false"): return ("leaf", k, [], True)
    if k == "list": return ("list", None, [ex(x) for x in e[1]], True)
    if k == "map": return ("map", None, [("entry", None, [ex(a), fun(None, b[1], b[2]) if b[0] == "fun" else ex(b)], True) for a, b in e[1]], True)
    if k == "un": return ("unary " + e[1], None, [ex(e[2])], True)
    if k == "bin": return ("binary " + e[1], None, [ex(e[2]), ex(e[3])], True)
    if k in ("and", "or"): return ("binary " + k, None, [ex(e[1]), ex(e[2])], True)
    if k == "sel": return ("selection", None, [ex(e[1]), ex(e[2])], True)
    if k == "call": return ("call", None, [ex(e[1])] + [ex(a) for a in e[2]], True)
    if k == "mcall": return ("call", None, [("method", None, [ex(e[1]), ("leaf", e[2], [], True)], True)] + [ex(a) for a in e[3]], True)
    if k == "asg": return ("assignment", None, [ex(e[1][0]) if len(e[1]) == 1 else ("tuple", None, [ex(x) for x in e[1]], True), ex(e[2])], True)
    raise AssertionError(k)

class Names:
    """The label of each kind of inner node isn't specified, but it's always the same and tells it from the others."""
    def __init__(self): self.of, self.kind = {}, {}
    def see(self, what, label):
        op = {"method": "->", "assignment": "="}.get(what) or what.startswith("binary ") and what != "binary |" and what[7:]
        if op and label.replace("&times;", "*") != op: return f"{what} is drawn as {label!r}"
        # (the signs are both unary and binary)
        arity = what.split(" ")[0] if what.endswith((" +", " -")) else ""
        if self.of.setdefault(what, label) != label: return f"{what} is drawn as {label!r}, but also as {self.of[what]!r}"
        if self.kind.setdefault((arity, label), what) != what: return f"{what} and {self.kind[arity, label]} are both drawn as {label!r}"

def compare(t, w, names, learn=True):
    """How the tree differs from the one wanted, or None."""
    label, kids = t; what, exact, wkids, ordered = w
    if len(kids) != len(wkids): return f"{what} {exact or ''} has {len(kids)} children, not {len(wkids)}"
    if what == "float":
        try: v = float(label)
        except ValueError: return f"{label!r} for the float {exact}"
        if abs(v - float(exact)) > 1e-5 * abs(float(exact)): return f"{label!r} for the float {exact}"
    elif exact is not None:
        # (spaces are how control characters are shown)
        if label != exact and re.sub(r"\s", " ", label) != re.sub(r"\s", " ", exact): return f"{label!r} for {exact!r}"
    elif what != "fun":
        if learn: m = names.see(what, label)
        else: m = names.of.get(what, label) != label and f"{what} is drawn as {label!r}"
        if m: return m
    if not ordered and len(kids) == 2:
        # two children in either order: told by their contents
        ways = [o for o in (wkids, wkids[::-1]) if all(mark(x) == mark(y) for x, y in zip(kids, o))]
        if len(ways) == 2: ways = [o for o in ways if not any(compare(x, y, names, False) for x, y in zip(kids, o))] or ways
        if ways: wkids = ways[0]
    for x, y in zip(kids, wkids):
        m = compare(x, y, names, learn)
        if m: return m
    return None

_marks = {}
def mark(t):
    """A hash of the shape and the leaves of a tree (drawn or wanted), whatever the order."""
    k = id(t)
    if k in _marks and _marks[k][0] is t: return _marks[k][1]
    drawn = len(t) == 2
    kids = t[1] if drawn else t[2]
    leaf = None if kids or not drawn and t[0] in ("block", "list", "map", "call") else (t[0] if drawn else t[1])
    h = hash((tuple(sorted(mark(c) for c in kids)), None if kids else len(kids)))
    if not kids and leaf is not None and re.fullmatch("[a-z]", leaf): h = hash((h, leaf))
    _marks[k] = (t, h)
    return h

def size(w): return 1 + sum(size(x) for x in w[2])

def main():
    chk = vf.Check("C24", rule="distinct sources whose diagram was parsed and compared with the syntax tree (or whose refusal was compared with the compiler's)")
    r = chk.rng; names = Names()
    sub = lambda: random.Random(r.random())
    jobs = []
    def flush():
        for (p, c), x in zip(jobs, vf.run_cases([j[1] for j in jobs])): judge(p, c, x)
        jobs.clear()
    def judge(p, c, x):
        chk.observed(c.src)
        if chk.crash(c, x, "diagram"): return
        if x.ok != 1: return chk.violation("diagram: of a valid program is refused", f"{x.err} {x.msg!r}\n{c.src[:1500].decode('utf-8', 'replace')}", c)
        if x.leak: chk.violation("diagram: leak", f"{x.leak}\n{c.src[:1500].decode('utf-8', 'replace')}", c)
        w = want(p); _marks.clear()
        try: m = compare(tree(x.out.decode("utf-8", "replace")), w, names)
        except Bad as e: m = str(e)
        if m: chk.violation("diagram: " + re.sub(r"'.*?'|\d+", "..", m)[:60], f"{m}\n{c.src[:1500].decode('utf-8', 'replace')}\n{x.out[:1500].decode('utf-8', 'replace')}", c)
        chk.count_kind("nodes compared", size(w))
        chk.sample({"source": c.src[:200].decode("utf-8", "replace"), "diagram": x.out[:400].decode("utf-8", "replace")})
    def add(p, style=0, parens=0.0):
        jobs.append((p, vf.Case(gen.source(p, sub(), style, parens), mode=vf.DIAGRAM)))
        if len(jobs) >= 2000: flush()
    x, y = V("x"), V("y")
    for o in c13.BIN: add([X(("bin", o, x, y))])
    for o in ("and", "or"): add([X((o, x, y))])
    for o in ("-", "+", "not", "?"): add([X(("un", o, x))])
    for s in ([("if", x, X(y), None)], [("if", x, X(y), X(I(1)))], [("while", x, X(y))], [("while", x, ("break",))], [("do", X(I(1)), y)], [("return", [x])], [("return", [x, y])], [("return", [NONE])], [("return", [TRUE])], [("return", [("list", [])])], [("return", [NONE, NONE])], [("return", [x, NONE])], [("return", [("map", [])])], [B(("return", [NONE]))], [B()], [X(NONE)], [B(X(x))], [X(("sel", x, y))], [X(("mcall", x, "m", [y]))], [X(("asg", [x], y))], [X(("asg", [x, y], I(1)))], [("fundef", "f", [], X(x))]): add(s)
    flush()
    # each construct, with texts and sizes at the limits
    for s in ["", "a", "'", '"', "\\", "\\\\", '\\"', "\n", "\t", "\r", "a\nb\tc", "é日𝄞", "%s%n%d", "<b>", "{x|y}", "]", "[", ";", "->", "}", "x" * 4000, "\\n", "&amp;", "\x7f", '"' * 300, "\\" * 301, "node_1", "label"]:
        add([X(S(s))]); add([X(asg("a", ("list", [S(s), S(s + "x")])))]); add([X(("map", [(S(s), I(1))]))]) if s else None
    for n in [0, 1, 9, 10, (1 << 31) - 1, 1 << 31, (1 << 32) + 5, (1 << 53) + 1, (1 << 63) - 1]: add([X(I(n))])
    for f in ["0.0", "1.0", "0.5", "100.25", "123456.0", "0.001", "99999999999999999999.0", "0.00000000001"]: add([X(F(f))])
    for n in list(range(0, 40)) + [63, 64, 65, 127, 128, 300]:
        its = [I(i) for i in range(n)]
        add([X(("list", its))]); add([X(call("f", *its))]); add([X(("map", [(I(i), I(i + 1)) for i in range(n)]))]); add([I_ and X(V("x")) for I_ in range(n)] and [X(V(f"v{i}")) for i in range(n)])
        if n > 1: add([X(("asg", [V(f"v{i}") for i in range(n)], V("e")))]); add([("return", its)]); add([("fundef", "f", [(f"p{i}", None, None) for i in range(n)], B())])
        d = V("x")
        for i in range(n): d = r.choice([("un", "-", d), ("bin", "+", d, I(i)), ("bin", "+", I(i), d), ("sel", d, I(i)), ("call", d, []), ("list", [d]), ("mcall", d, "m", [])])
        add([X(d)])
        s = X(V("x"))
        for i in range(n): s = r.choice([B(s), ("if", V("c"), s, None), ("while", V("c"), s), ("do", s, V("c")), ("fundef", "f", [], s), ("if", V("c"), X(I(1)), s)])
        add([s])
    add([X(("map", [(("key", "f"), ("fun", [("a", None, I(3)), ("b", V("int"), None)], ("return", [V("a")])))]))])
    add([X(asg("m", ("map", [(("key", "f"), ("fun", [], B())), (("key", "g"), ("fun", [("x", None, None)], P(V("x"))))])))])
    flush()
    for i in range(chk.scale(5000, 100000)):
        x = r.random()
        if x < .4: p = gen.Gen(sub(), wild=r.choice([0, .05]), trace=r.choice([0, .1]), size=r.choice([3, 8, 20])).program()
        elif x < .8: p = c13.syntax(sub())
        else: p = [X(c13.expr(sub(), r.choice([2, 3, 4]), True))]
        add(p, r.choice([0, 1]), r.choice([0, 0, .2]))
        if chk.enough(): break
    flush()
    refused(chk, r, sub)
    command(chk, r, sub, names)
    chk.cov["labels"] = {k: v for k, v in sorted(names.of.items())}
    chk.finish(3000, 2500)

def refused(chk, r, sub):
    """What the compiler accepts has a diagram; what it refuses for its syntax doesn't, for the same reason."""
    cases = []
    for i in range(chk.scale(1500, 40000)):
        p = c13.syntax(sub()); s = gen.source(p, sub(), r.choice([0, 1]))
        x = r.random()
        t = hostile.mutate_tokens(r, s).encode("utf-8", "surrogatepass") if x < .8 else hostile.mutate_bytes(r, s.encode())
        if b"\0" in t: continue
        cases += [vf.Case(t, mode=vf.DIAGRAM), vf.Case(t, mode=vf.DISASM)]
    res = vf.run_cases(cases)
    for i in range(0, len(cases), 2):
        c, x, y = cases[i], res[i], res[i+1]
        chk.observed(c.src)
        if chk.crash(c, x, "diagram") or chk.crash(cases[i+1], y, "compiler"): continue
        m = None
        if y.ok == 1:
            chk.count_kind("mutated sources that compile")
            if x.ok != 1: m = "what compiles is refused"
        elif y.err == "syntax":
            chk.count_kind("mutated sources refused by both")
            if x.ok: m = "what isn't valid is accepted"
            elif (x.err, x.msg) != (y.err, y.msg): m = f"refused for another reason: {x.err} {x.msg!r}, {y.err} {y.msg!r}"
        if x.ok == 1 and m is None:
            try: tree(x.out.decode("utf-8", "replace"))
            except Bad as e: m = f"bad graph: {e}"
        if m: chk.violation("diagram: " + re.sub(r"\d+|'.*", "..", m)[:50], f"{m}\n{c.src[:1500]!r}\n{x.out[:800]!r}", c)

def command(chk, r, sub, names):
    exe = build.cli("asan")
    def go(*a): return subprocess.run([exe, *a], cwd=vf.tmpdir(), env=vf.env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    for i in range(chk.scale(15, 200)):
        p = c13.syntax(sub()); s = gen.source(p)
        f = os.path.join(vf.tmpdir(), "d.noja"); o = os.path.join(vf.tmpdir(), "d.dot")
        with open(f, "w") as h: h.write(s)
        outs = [go("--diagram-ast", f), go("--diagram-ast", "-i", s), go("--diagram-ast", "-o", o, f)]
        texts = [outs[0].stdout, outs[1].stdout, b""]
        if os.path.exists(o):
            with open(o, "rb") as h: texts[2] = h.read()
            os.unlink(o)
        chk.observed(("command", s)); chk.count_kind("command")
        for q, t in zip(outs, texts):
            try: m = f"exit status {q.returncode} {q.stderr[-200:]!r}" if q.returncode else compare(tree(t.decode("utf-8", "replace")), want(p), names)
            except Bad as e: m = str(e)
            if m: chk.violation("diagram of the command", f"{m}\n{s}\n{t[:500]!r}")

if __name__ == "__main__":
    vf.main(main)
