from common import *
import re, random

# failing expression, kind of error, number of native frames on top, what the message must contain
# (None: nothing in particular); exact messages are prefixed with "=".
U = "Runtime"
FAILS = [(e, U, 0, None) for e in """1 + none|1 - 'a'|[] * 2|{} / 2|1 % true|-'a'|not 1|not none|1 and true|true and 2|false or none|[] or true|1 < 'a'|[] > []|none <= 1|'a' >= 'b'|[1] == [1]|print == print|{} != {}|1 == 1 and none|-[]""".split("|")]
FAILS += [(e, U, 0, "zero") for e in "1 / 0|7 % 0|(3 - 3) / (2 - 2)".split("|")]
FAILS += [(e, U, 0, "overflow") for e in "9223372036854775807 + 1|0 - 9223372036854775807 - 2|4611686018427387904 * 2|(0 - 9223372036854775807 - 1) / (0 - 1)".split("|")]
FAILS += [("undef", U, 0, '"undef"'), ("undef(1)", U, 0, '"undef"'), ("[1, nope]", U, 0, '"nope"'), ("(1)(2)", U, 0, "int"), ("none()", U, 0, "None"), ("'f'(1)", U, 0, "String"), ("[](1)", U, 0, "List"), ("int(3)", U, 0, None), ("{a: 1}->a()", U, 0, "int"), ("{a: 1}->zz()", U, 0, "None"), ("(?int)(3)", U, 0, None)]
FAILS += [(e, U, 1, None) for e in """count(1)|count(none)|string.ord('')|string.chr(-1)|string.chr(1114112)|string.slice('abc', 2, 9)|buffer.new(-1)|buffer.sliceUp(buffer.new(3), 2, 5)|files.openFile('x', 77)|assert(false)|assert(true, 1 == 2)|assert(3)|{[print]: 1}[0]""".split("|")[:-1]]
FAILS += [(f"{f}({v})", U, 1, None if f in ("buffer.new", "buffer.toString", "buffer.fromString", "string.ord", "string.cat", "error", "string.chr") else n) for f in ("string.ord", "string.trim", "string.toInt", "buffer.toString", "random.seed", "math.sin", "math.floor", "files.nextDirItem", "import", "error", "string.cat")
          for v, n in (("none", "None"), ("[1]", "List"), ("true", "bool"), ("{}", "Map"))]
FAILS += [("error('boom')", U, 1, "=boom"), ("error('')", U, 1, "="), ("error('é ☃ 100% %s %d %n')", U, 1, "=é ☃ 100% %s %d %n"), ("error(string.cat('a', 'b', '" + "x" * 700 + "'))", U, 1, "=ab" + "x" * 700), ("error('two\\nlines')", U, 1, "=two\nlines")]
FAILS += [("toString(buffer.new(1))", U, "p", "Buffer"), ("integerFromDigit('x')", U, "p", None), ("integerFromDigit(5)", U, "p", '"char"'), ("abs('x')", U, "p", '"n"'), ("append(1, 2)", U, "p", '"array"'), ("makeIterator(3)", U, "p", '"set"'), ("min('a', 1)", U, "p", None), ("toString([[buffer.new(2)]])", U, "p", "Buffer")]
FAILS += [("import('no such file')", U, 1, "no such file")]

class Text:
    def __init__(self, r): self.r, self.l = r, []
    def w(self, s, ind=0):
        while self.r.random() < .12: self.l.append(self.r.choice(["", "# comment", "  # (", "\t", "#'", "# é日本 \U0001f600", "\f", "\v\t", "# a\rb\fc", " \r"]))
        self.l.append(" " * ind + s)
        return len(self.l)

def nest(r, fail, depth, callee_fail=None):
    """A program that calls functions `depth` deep and fails in the innermost one.
    Returns (source, expected output, expected line of each active call, innermost first)."""
    t, out, lines = Text(r), [], []
    for _ in range(r.randrange(4)): t.w("# header")
    t.w("fun id(x) return x;"); t.w("never = true;")
    def noise(ind):
        for _ in range(r.randrange(3)): t.w(r.choice(["u = 1 + 2;", "u = [1, 'x'];", "if never: u = 3;", "print('');", "id(4);", "u = id(id(5));"]), ind)
    def site(expr, ind, level, nr):
        expr = f"({expr})"

        out.append(f"in{level} ")
        t.w(f"print('in{level} ');", ind); noise(ind)
        x = r.random()
        if x < .12:
            n = t.w(f"if {expr} == 1: print('AFTER');", ind)
        elif x < .2:
            n = t.w(f"while {expr} == 1: {{", ind); t.w("print('AFTER'); break;", ind + 1); t.w("}", ind)
        elif x < .28: n = t.w(f"v = [0, {expr}, print('AFTER')];", ind)
        elif x < .36: n = t.w(f"v = {{a: id({expr}), b: 2}};", ind)
        elif x < .44: n = t.w(f"id(id({expr})); print('AFTER');", ind)
        elif x < .5: n = t.w(f"return {expr};", ind) if ind else t.w(f"v = ({expr});", ind)
        elif x < .6:
            # in some iteration of a loop
            k = r.randrange(1, 5)
            t.w("i = 0;", ind); t.w("do {", ind); t.w("i = i + 1;", ind + 1)
            t.w("print(i, ' ');", ind + 1)
            n = t.w(f"if i == {k}: v = {expr};", ind + 1)
            t.w(f"}} while i < {k + r.randrange(3)};", ind)
            out.append("".join(f"{j} " for j in range(1, k + 1)))
        elif x < .68: n = t.w(f"v, w = {expr}, print('AFTER');", ind) if False else t.w(f"v = ({expr}) == 1;", ind)
        elif x < .76: n = t.w(f"print('AFTER', {expr}) ;", ind) ; 
        elif x < .84: n = t.w(f"if true and {expr} == 1 or false: {{ print('AFTER'); }} else print('AFTER');", ind)
        else: n = t.w(f"v = {expr};", ind)
        t.w(f"print('AFTER{level}');", ind)
        return n
    e = fail
    for d in range(depth):
        noise(0)
        kind = r.choice(["fun", "fun", "fun", "method", "closure", "arg", "default", "native"])
        f = f"f{d}"
        if kind == "default":
            n = t.w(f"fun {f}(q = {e}) {{", 0); t.w("print('AFTER');", 1); t.w("}", 0); e = f + "()"; pre = len(out)
        elif kind == "method":
            t.w(f"fun {f}(self, a) {{", 0); n = site(e, 1, d, 1); t.w("return 7;", 1); t.w("}", 0); e = f"{{m: {f}, z: 3}}->m(1)"
        elif kind == "closure":
            t.w(f"fun mk{d}(a) {{", 0); t.w("b = 3;", 1); t.w(f"fun {f}() {{", 1); n = site(e, 2, d, 1); t.w("return a;", 2); t.w("}", 1); t.w(f"return {f};", 1); t.w("}", 0)
            t.w(f"{f} = mk{d}(2);", 0); e = f + "()"
        elif kind == "arg":
            t.w(f"fun {f}(a, b) {{", 0); n = site(e, 1, d, 1); t.w("}", 0); e = f"{f}([1], none, 3)"
        else:
            t.w(f"fun {f}() {{", 0); n = site(e, 1, d, 1); t.w("return 1, 2;", 1); t.w("}", 0); e = f + "()"
        lines.append(n)
    lines.append(site(e, 0, depth, 0))
    return "\n".join(t.l) + r.choice(["", "\n"]), "".join(reversed_groups(out)), lines

def reversed_groups(out):
    """The sites are written innermost first but run outermost first."""
    groups, cur = [], []
    for o in out:
        if o.startswith("in"): cur = [o]; groups.append(cur)
        else: cur.append(o)
    return ["".join(g) for g in reversed(groups)]

# every operation on every kind of value: what isn't supported is an error
KINDS = [NONE, TRUE, FALSE, I(0), I(3), F("1.5"), S(""), S("abc"), ("list", []), ("list", [I(1), I(2)]), ("map", []), ("map", [(("key", "a"), I(1)), (I(0), I(2))]), V("int"), V("None"), V("any"), ("un", "?", V("int")), ("bin", "|", V("int"), V("String")), V("print"), V("fn"), call(dot("buffer", "new"), I(0)), call(dot("buffer", "new"), I(3)), V("math"), V("toString")]
def matrix(chk, r):
    b = model.Batch(chk)
    v, w = V("v"), V("w")
    ops = [P(("sel", v, w)), X(("asg", [("sel", v, w)], I(65))), P(("sel", v, ("key", "a"))), X(("asg", [("sel", v, ("key", "a"))], w)), P(call("v", w)), P(call("v")), P(("mcall", v, "a", [w])), P(call("count", v)), P(call("keysof", v)), P(call("type", v)), P(call("typename", v)),
           ("if", v, P(S("yes")), P(S("no"))), ("while", v, B(P(S("loop")), ("break",))), ("do", X(asg("q", I(1))), ("and", TRUE, v)), P(("un", "-", v)), P(("un", "+", v)), P(("un", "not", v)), P(("and", v, w)), P(("or", v, w)), P(("and", FALSE, v)), P(("or", TRUE, v)),
           P(call("istypeof", v, w)), P(call("error", v)), P(call("assert", v)), P(call(dot("string", "cat"), v, w)), P(call(dot("string", "ord"), v)), P(call(dot("string", "slice"), v, w, w)), P(call(dot("buffer", "toString"), v)), P(call(dot("buffer", "fromString"), v)), P(call(dot("buffer", "sliceUp"), v, w, w)), P(call(dot("math", "floor"), v)), X(("asg", [v, w], call("fn2", v, w))), P(("list", [v, w])), P(("map", [(v, w)]))]
    ops += [P(("bin", o, v, w)) for o in ("+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "|")]
    pre = [("fundef", "fn", [("x", None, None)], ("return", [("list", [V("x")])])), ("fundef", "fn2", [("x", None, None), ("y", None, None)], ("return", [V("y"), V("x")]))]
    ops.append(("fundef", "g", [("x", v, None)], P(V("x"))))
    unary = [o for o in ops if "('id', 'w')" not in repr(o)]
    for k in KINDS:
        for o in ops:
            for m in ([NONE] if o in unary else r.sample(KINDS, 9) if not chk.thorough else KINDS):
                q = pre + [X(asg("v", k)), X(asg("w", m)), P(S("a")), o, P(S(" after"))]
                if o[0] == "fundef": q.insert(-1, X(call("g", w)))
                b.prog(q, "operation on a kind of value", heap=1 << 17)
    b.flush()

TRACE = re.compile(r"\t#(\d+) (\(no source\)|<prelude>:\d+|\(unnamed\):\d+|\(unnamed\)|.*)$")

def judge(chk, c, x, kind, exp_out, top, msg, lines):
    what = c.tag
    chk.observed((c.src,)); chk.count_kind(what)
    if chk.crash(c, x, what): return
    def bad(key, t): chk.violation(f"{what}: {key}", f"{t}\nok={x.ok} err={x.err} msg={x.msg[:300]!r}\nout={x.out[:300]!r}\nstderr={x.stderr[:700].decode('utf-8', 'replace')}\n{c.src[:1800].decode('utf-8', 'replace')}", c)
    if x.ok != 0: return bad("the failure wasn't reported", "the run succeeded")
    if x.out != exp_out.encode(): return bad("effects don't stop at the error", f"expected output {exp_out!r}")
    m = x.msg.decode("utf-8", "replace")
    e = x.stderr.decode("utf-8", "replace")
    head = (kind + " Error: " if kind else "Error: ") + m + ".\nStack trace:\n"
    if kind is None: head = None
    if msg is not None and (m != msg[1:] if msg.startswith("=") else msg not in m): return bad("wrong message", f"the message should be or contain {msg!r}")
    if msg is None and not m: return bad("empty message", "no message")
    if head and not e.startswith(head): return bad("wrong kind or text of the error", f"expected it to start with {head!r}")
    if e.count("Stack trace:") != 1: return bad("the error isn't reported exactly once", "")
    tr = e.split("Stack trace:\n", 1)[1].splitlines()
    fr = [TRACE.match(l) for l in tr]
    if not all(fr) or [int(f.group(1)) for f in fr] != list(range(len(fr))): return bad("malformed stack trace", "")
    fs = [f.group(2) for f in fr]
    chk.count("stack frames checked", len(fs))
    if top == "p":
        k = 0
        while k < len(fs) and (fs[k] == "(no source)" or fs[k].startswith("<prelude>")): k += 1
        if k == 0: return bad("frames of library functions missing from the trace", "")
    else: k = top
    exp = ["(no source)"] * (k if top != "p" else 0) + [f"(unnamed):{l}" for l in lines]
    got = fs if top != "p" else fs[k:]
    if got != exp: return bad("wrong stack trace", f"expected {exp}")
    chk.sample({"source": c.src[-300:].decode("utf-8", "replace"), "stderr": e[:400]})

def main():
    chk = vf.Check("C11", rule="distinct failing programs whose output, error kind, message and every stack frame were checked")
    r = chk.rng
    jobs = []
    def add(src, what, *exp, **o):
        x = r.random()
        if x < .2: src = src.replace("\n", "\r\n")
        elif x < .3: src = "".join(ch if ch != "\n" else r.choice(["\n", "\r\n", " \r\n", "\r\r\n", "\f\n"]) for ch in src)
        c = vf.Case(src, **o); c.tag = what
        jobs.append((c, exp))
    def flush():
        for (c, e), x in zip(jobs, vf.run_cases([j[0] for j in jobs])): judge(chk, c, x, *e)
        jobs.clear()
    for e, kind, top, msg in FAILS:
        add(f"print('a');\nx = {e};\nprint('b');", "plain failure", kind, "a", top, msg, [2])
        add(f"print('a');\n\n{{\n\n if true: x = {e};}}\nprint('b');", "plain failure", kind, "a", top, msg, [5])
        # a call that takes several lines is where it begins
        add(f"fun f(a, b) {{\n x = {e};\n}}\nprint('a');\nv = f(1,\n  [2,\n3]\n);\nprint('b');", "call over several lines", kind, "a", top, msg, [2, 5])
        add(f"fun f(a, b)\n\n return [{e}];\no = {{m: f}};\nprint('a'); if true:\n v = o->m(\n1\n);\nprint('b');", "call over several lines", kind, "a", top, msg, [3, 6])
    for i in range(chk.scale(2500, 60000)):
        e, kind, top, msg = r.choice(FAILS)
        s, out, lines = nest(r, e, r.choice([0, 1, 1, 2, 3, 4, 6, 9]))
        add(s, "failure in nested calls", kind, out, top, msg, lines, heap=r.choice([1 << 17, 1 << 20]), gcper=r.choice([0, 0, 0, 1, 7]))
        if len(jobs) > 2000: flush()
        if chk.enough(): break
    # failing annotations, too many return values, conditions
    for d in range(chk.scale(150, 2000)):
        t = Text(r); out = ""
        k = r.randrange(4)
        n1 = [lambda: t.w("fun f(a, b: int) {"), lambda: t.w("fun f(a, b: int|String = none) {"), lambda: t.w("fun f(a: undefinedName) {"), lambda: t.w("fun f(a) {")][k]()
        if k < 3: t.w("print('AFTER');")
        else: t.w("print('x');"); n1 = t.w("return 1,2,3,4,5,6,7,8,9;"); out = "x"
        t.w("}")
        t.w("print('s');")
        n2 = t.w(r.choice(["x = f(1, 'q');", "print(f(1, 'q'));", "x, y = f(1, 'q');"]) if k == 0 else r.choice(["x = f(1, 2.5);", "f(1);"]) if k == 1 else "f(1);" if k == 2 else "a, b = f(1);")
        t.w("print('AFTER');")
        add("\n".join(t.l), "failure on entering or leaving a function", U, "s" + out, 0, ['"b"', '"b"', '"undefinedName"', None][k], [n1, n2])
    # the kinds of error of the front end, and their line
    for d in range(chk.scale(400, 6000)):
        t = Text(r)
        for _ in range(r.randrange(12)): t.w(r.choice(["x = 1;", "print('AFTER');", "if true: print('AFTER');", "fun f(a) { return a; }", "s = 'a b';", "m = {a: 1,", "l = [1,"][:5]))
        bad, kind = r.choice([("x = = 3;", "Syntax"), ("x = 3 3;", "Syntax"), ("x = @;", "Syntax"), ("if x print(1);", "Syntax"), ("x = (1;", "Syntax"), ("x = [1 2];", "Syntax"), ("fun (x) return;", "Syntax"), ("x = {1 2};", "Syntax"), ("x = );", "Syntax"), ("return;", "Syntax"), ("x . 1;", "Syntax"),
                              ("break;", "Semantic"), ("x = 1, 2;", None), ("3 = x;", "Semantic"), ("x + 1 = 2;", "Semantic"), ("f() = 2;", "Semantic"), ("if true: { break; }", "Semantic"), ("fun f() { break; }", "Semantic"), ("while true: fun f() break;", "Semantic"), ("do { fun f() { if x: break; } } while x;", "Semantic"), ("while x: { y = 1; } break;", "Semantic"), ("while x: { m = {fun f() break;}; break; }", "Semantic")])
        n = t.w(bad)
        for _ in range(r.randrange(5)): t.w("print('AFTER');")
        add("\n".join(t.l), "source refused", kind, "", 0, None, [n])
    # too deep a recursion: the trace lists every call
    for k in range(chk.scale(4, 20)):
        t = Text(r)
        t.w("fun f(n) {"); n1 = t.w("return f(n + 1);"); t.w("}")
        n2 = t.w("f(0);"); t.w("print('AFTER');")
        add("\n".join(t.l), "too deep a recursion", "Internal", "", 0, None, ("depth", n1, n2))
    deep = [j for j in jobs if j[1][4][:1] == ("depth",)]
    jobs[:] = [j for j in jobs if j not in deep]
    flush()
    for (c, e), x in zip(deep, vf.run_cases([j[0] for j in deep])):
        n = x.stderr.count(b"\t#")
        judge(chk, c, x, *e[:4], [e[4][1]] * max(1, n - 1) + [e[4][2]])
    matrix(chk, r)
    chk.finish(1000, 500)

if __name__ == "__main__":
    vf.main(main)
