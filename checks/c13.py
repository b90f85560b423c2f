from common import *
import random, copy

def main():
    chk = vf.Check("C13", rule="distinct pairs of texts compiled and compared: two layouts of one program must be the same code, two different programs must not")
    r = chk.rng
    jobs = []
    def flush():
        for c, x in zip(jobs, vf.run_cases(jobs)): judge(chk, c, x)
        jobs.clear()
    def add(a, b, same, what):
        if a == b: return
        c = vf.Case(a, name=b, mode=vf.EQUIV); c.tag, c.expect = what, same
        jobs.append(c)
        if len(jobs) >= 2000: flush()
    def sub(): return random.Random(r.random())
    for i in range(chk.scale(1100, 40000)):
        if r.random() < .5: p = gen.Gen(sub(), wild=r.choice([0, .05]), trace=0, size=r.choice([3, 8, 20])).program()
        else: p = syntax(sub())
        plain = gen.source(p)
        k = r.random()
        if k < .35: add(plain, gen.source(p, sub(), 1), True, "layout")
        elif k < .6: add(plain, gen.source(p, sub(), 0, r.choice([.1, .3, 1.0])), True, "parentheses")
        else: add(gen.source(p, sub(), 1, .2), gen.source(p, sub(), 1, .2), True, "layout and parentheses")
        for _ in range(2):
            q = alter(sub(), p)
            if q is not None: add(plain, gen.source(q[1]), False, "altered: " + q[0])
        if chk.enough(): break
    for i in range(chk.scale(1200, 40000)):
        # operator chains: grouped by the table of the documentation against fully parenthesised
        e = expr(r, r.choice([2, 3, 4]), True)
        p = [X(e)]
        add(gen.source(p), gen.source(p, sub(), 0, 1.0), True, "operator chain")
        q = alter(r, p)
        if q is not None: add(gen.source(p), gen.source(q[1]), False, "altered: " + q[0])
        if chk.enough(): break
    for a, b in SAME: add(a, b, True, "hand-written")
    for a, b in [("1000000.125", "1000000.126"), ("0.1", "0.10000001"), ("0.000001", "0.000002"), ("2251799813685249.5", "2251799813685250.5"), ("1.0", "1.00000000001"), ("16777216.0", "16777217.0"), ("0.0", "0.0000000000000000000001")]: add(f"x = {a};", f"x = {b};", False, "hand-written"); add(f"x = {b};", f"x = {a};", False, "hand-written")
    for a, b in DIFF: add(a, b, False, "hand-written")
    flush()
    chk.finish(1500, 1500)

def judge(chk, c, x):
    chk.observed((c.src, c.name)); chk.count_kind(c.tag + (" (same)" if c.expect else " (different)"))
    if chk.crash(c, x, c.tag): return
    if x.ok != 1:
        return chk.violation(f"{c.tag}: a layout of a valid program is refused", f"{x.msg!r}\n---\n{c.name[:1500].decode('utf-8', 'replace')}\n---\n{c.src[:1500].decode('utf-8', 'replace')}", c)
    got = x.out == b"equivalent\n"
    chk.sample({"what": c.tag, "a": c.src[:150].decode("utf-8", "replace"), "b": c.name[:150].decode("utf-8", "replace"), "equivalent": got})
    if got != c.expect:
        chk.violation(f"{c.tag}: " + ("two layouts of a program are different code" if c.expect else "two different programs are the same code"),
                      f"{x.stderr[-300:]!r}\n---\n{c.name[:1500].decode('utf-8', 'replace')}\n---\n{c.src[:1500].decode('utf-8', 'replace')}", c)

BIN = ["+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "|"]
def expr(r, d, top=False):
    if d <= 0:
        return r.choice([V(r.choice("abcxy")), I(r.randrange(0, 50)), F(r.choice(["1.5", "0.25", "10.0"])), S(r.choice(["a", "b", "'", '"', "\n", "\\", "#", " "])), NONE, TRUE, FALSE, V("a")])
    x = r.random()
    if top or x < .55:
        k = r.random()
        if k < .8: return ("bin", r.choice(BIN), expr(r, d - 1), expr(r, d - 1))
        return (r.choice(["and", "or"]), expr(r, d - 1), expr(r, d - 1))
    if x < .65: return ("un", r.choice(["-", "+", "not", "?"]), expr(r, d - 1))
    if x < .7: return ("asg", [r.choice([V("a"), V("b"), ("sel", V("c"), ("key", "k")), ("sel", V("c"), expr(r, d - 1))])], expr(r, d - 1))
    if x < .76: return ("list", [expr(r, d - 1) for _ in range(r.randrange(4))])
    if x < .82: return ("map", [(("key", r.choice(["k", "kk", "z"])) if r.random() < .6 else ("bin", "+", I(1), V("a")), expr(r, d - 1)) for _ in range(r.randrange(3))])
    if x < .88: return ("sel", expr(r, d - 1), ("key", r.choice(["k", "m"])) if r.random() < .5 else expr(r, d - 1))
    if x < .95: return ("call", V(r.choice("fgh")) if r.random() < .6 else ("sel", V("c"), ("key", "f")), [expr(r, d - 1) for _ in range(r.randrange(4))])
    return ("mcall", expr(r, d - 1), r.choice(["m", "n"]), [expr(r, d - 1) for _ in range(r.randrange(3))])

def syntax(r):
    """Syntactically rich, never run."""
    def st(d, loop, fn):
        x = r.random()
        if d <= 0 or x < .3: return X(expr(r, r.randrange(0, 4)))
        if x < .45: return ("if", expr(r, 2), st(d - 1, loop, fn), st(d - 1, loop, fn) if r.random() < .6 else None)
        if x < .55: return ("while", expr(r, 2), st(d - 1, True, fn))
        if x < .65: return ("do", st(d - 1, True, fn), expr(r, 2))
        if x < .75: return B(*[st(d - 1, loop, fn) for _ in range(r.randrange(0, 4))])
        if x < .8 and loop: return ("break",)
        if x < .85: return ("return", [expr(r, 1) for _ in range(r.choice([1, 1, 2, 3]))])
        if x < .9: return X(("asg", [r.choice([V("a"), V("b"), ("sel", V("c"), ("key", "k"))]) for _ in range(r.randrange(2, 4))], call(r.choice("fg"), expr(r, 1))))
        ps = [(n, expr(r, 1) if r.random() < .3 else None, expr(r, 1) if r.random() < .3 else None) for n in r.sample(["p", "q", "s"], r.randrange(0, 4))]
        return ("fundef", r.choice("fgh"), ps, st(d - 1, False, True))
    return [st(3, False, False) for _ in range(r.randrange(1, 5))]

def nodes(x, path=()):
    """All the tuples of an AST that look like nodes, with their paths."""
    if isinstance(x, tuple):
        if x and isinstance(x[0], str): yield path, x
        for i, y in enumerate(x): yield from nodes(y, path + (i,))
    elif isinstance(x, list):
        for i, y in enumerate(x): yield from nodes(y, path + (i,))

def put(x, path, v):
    if not path: return v
    i = path[0]
    y = list(x); y[i] = put(x[i], path[1:], v)
    return tuple(y) if isinstance(x, tuple) else y

def alter(r, p):
    """(what, program) with one difference that must show in the code, or None."""
    ns = list(nodes(p))
    r.shuffle(ns)
    for path, n in ns[:12]:
        k = n[0]
        if k == "int" and len(n) == 2 and isinstance(n[1], int): return "integer", put(p, path, ("int", n[1] ^ (1 << r.choice([0, 1, 5, 31, 32, 33, 40, 62]))))
        if k == "flt" and len(n) == 2: return "float", put(p, path, ("flt", "7" + n[1]))
        if k == "str" and len(n) == 2: return "string", put(p, path, ("str", r.choice([n[1] + "x", n[1] + " ", n[1] + "\n", "'" + n[1]])))
        if k == "id" and len(n) == 2: return "name", put(p, path, ("id", n[1] + "_"))
        if k == "key" and len(n) == 2: return "key", put(p, path, ("key", n[1] + "q"))
        if k in ("none", "true", "false") and len(n) == 1: return "constant", put(p, path, r.choice([c for c in (NONE, TRUE, FALSE) if c != n]))
        if k == "bin" and len(n) == 4:
            if r.random() < .5: return "operator", put(p, path, ("bin", r.choice([o for o in BIN if o != n[1]]), n[2], n[3]))
            if n[2] != n[3]: return "operands swapped", put(p, path, ("bin", n[1], n[3], n[2]))
            continue
        if k in ("and", "or") and len(n) == 3: return "logical operator", put(p, path, ("or" if k == "and" else "and", n[1], n[2]))
        if k == "bin": continue
        if k == "list" and len(n) == 2: return "list item", put(p, path, ("list", n[1] + [I(1)])) if path and True else None
        if k == "call" and len(n) == 3: return "argument", put(p, path, ("call", n[1], n[2] + [NONE]))
        if k == "mcall" and len(n) == 4: return "argument", put(p, path, ("mcall", n[1], n[2], n[3] + [NONE]))
        if k == "return" and len(n) == 2 and len(n[1]) < 8: return "returned value", put(p, path, ("return", n[1] + [I(1)]))
        if k == "while" and len(n) == 3: return "kind of loop", put(p, path, ("do", n[2], n[1]))
        if k == "if" and len(n) == 4:
            if n[3] is None: return "else added", put(p, path, ("if", n[1], n[2], X(I(77))))
            return "else removed", put(p, path, ("if", n[1], n[2], None))
        if k == "expr" and len(n) == 2: return "statement repeated", put(p, path, B(n, n))
        if k == "un" and len(n) == 3: return "unary operator", put(p, path, ("un", "-" if n[1] != "-" else "+", n[2]))
        if k == "fundef" and len(n) == 4: return "parameter", put(p, path, ("fundef", n[1], n[2] + [("zz", None, None)], n[3]))
    return None

SAME = [("a=1;", "# c\n a  =\t1 ;\n#"), ("'a';", '"a";'), ("x=a or b and c;", "x=(a or (b and c));"), ("x=a and b or c;", "x=((a and b) or c);"), ("x = a < b and c;", "x=((a<b) and c);"), ("x=a+b<c*d;", "x=((a+b)<(c*d));"), ("x = a-b-c;", "x=(a-b)-c;"), ("x=a/b/c;", "x=(a/b)/c;"), ("x=a*b%c;", "x=(a*b)%c;"),
        ("x=-a*b;", "x=(-a)*b;"), ("x=not a and b;", "x=(not a) and b;"), ("x=?a|b;", "x=(?a)|b;"), ("x=y=z;", "x=(y=z);"), ("x = a|b == c;", "x = a|(b==c);"), ("x=-a.b;", "x=-(a.b);"), ("x=-a[1](2);", "x=-((a[1])(2));"), ("if a: b; else if c: d; else e;", "if a: b; else { if c: d; else e; }"),
        ("if a: if b: c; else d;", "if a: { if b: c; else d; }"), ("while a: b;", "while a: { b; }"), ("fun f(x) return x;", "fun f(x) { return x; }"), ("x.y=1;", "x['y']=1;"), ("x={a: 1};", "x={'a': 1};"), ("x=1;;" if False else "x=1;", "x=1;\n\n\n"), ("x = 1;", "x = 01;"), ("x=a!=b;", "x = a != b;"), ("x=\"\\n\";", "x='\\n';"), ("x=f(1,(2));", "x=f((1),2);")]
DIFF = [("x=a-b-c;", "x=a-(b-c);"), ("x=a or b and c;", "x=(a or b) and c;"), ("x=-a*b;", "x=-(a*b);"), ("x=not a and b;", "x=not(a and b);"), ("if a: if b: c; else d;", "if a: { if b: c; } else d;"), ("x=y=z;", "x=y; x=z;"), ("x=1;", "x=1.0;"), ("x='1';", "x=1;"), ("x=a.b;", "x=a[b];"), ("x={a: 1};", "x={(a): 1};"), ("f(1,2);", "f(2,1);"), ("x={a:1,b:2};", "x={b:2,a:1};"),
        ("x=4294967296;", "x=0;"), ("x=1.5;", "x=1.25;"), ("a,b=f();", "b,a=f();"), ("return 1,2;", "return 2,1;"), ("fun f(a,b) {}", "fun f(b,a) {}"), ("fun f(a=1) {}", "fun f(a:1) {}"), ("while a: {b; break;}", "while a: {break; b;}"), ("x->f(1);", "x.f(1);"), ("f();", "f;")]
if __name__ == "__main__":
    vf.main(main)
