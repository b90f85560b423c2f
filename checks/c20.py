from common import *
import random, re, math

def main():
    chk = vf.Check("C20", rule="distinct printed results of the standard functions, compared with the model")
    r = chk.rng
    b = model.Batch(chk)
    integers(chk, r, b); numbers(chk, r, b); predicates(chk, r, b); collections(chk, r, b); iterators(chk, r, b); scopes(chk, r, b); sizes(chk, r, b)
    b.flush()
    floats(chk, r); members(chk, r); refusals(chk)
    chk.finish(1500, 1200)

MIN, MAX = -(1 << 63), (1 << 63) - 1
def mkint(v):
    if v == MIN: return ("bin", "-", ("un", "-", I(MAX)), I(1))
    return I(v) if v >= 0 else ("un", "-", I(-v))

def some_int(r):
    k = r.random()
    if k < .2: return r.choice([0, 1, -1, 9, 10, 11, 99, 100, 101, -9, -10, MAX, MAX - 1, MIN, MIN + 1, MIN + 8, 1 << 31, 1 << 32, -(1 << 32)])
    if k < .5: return r.choice([1, -1]) * (10 ** r.randrange(0, 19) + r.choice([0, 0, 1, -1]))
    if k < .6: return r.choice([1, -1]) * r.randrange(1, 10) * 10 ** r.randrange(0, 18)
    return r.choice([1, -1]) * r.randrange(0, 1 << r.randrange(1, 63))

def integers(chk, r, b):
    acc = Acc(b, "text of integers")
    vals = {0, 1, -1, MAX, MIN} | {s * (10 ** e + k) for s in (1, -1) for e in range(19) for k in (-1, 0, 1)} | {d * 10 ** e for d in range(1, 10) for e in (0, 3, 17)}
    vals |= {some_int(r) for _ in range(chk.scale(600, 20000))}
    for v in sorted(x for x in vals if MIN <= x <= MAX):
        acc.add(P(call("toString", mkint(v)), S(" "), call("count", call("toString", mkint(v))), NL))
    acc.flush()
    # a number is what its text says
    acc = Acc(b, "integer from its text")
    for v in r.sample(sorted(x for x in vals if 0 <= x <= MAX), min(len(vals) // 3, 300)):
        acc.add(X(("asg", [V("n"), V("e")], call(dot("string", "toInt"), call("toString", mkint(v))))), P(("bin", "==", V("n"), mkint(v)), NL))
    acc.flush()
    acc = Acc(b, "digits", per=12)
    for c in [chr(k) for k in range(32, 127)] + ["é", "٣", "日", "𝄞", "", "12", "1a", "a1", "９"]:
        acc.add(P(call("integerFromDigit", S(c)), NL))
    for v in BADARG: acc.add(P(call("integerFromDigit", v), NL))
    acc.flush()

LIST2 = ("list", [I(1), I(2)])
BADARG = [NONE, TRUE, F("1.5"), I(5), LIST2, ("map", [(("key", "a"), I(1))]), V("print"), V("int"), S("x"), call(dot("buffer", "new"), I(3)), V("toString"), V("math"), ("un", "?", V("int")), ("bin", "|", V("int"), V("String"))]

def numbers(chk, r, b):
    acc = Acc(b, "abs, min, max", per=15)
    def fl(): return F(r.choice(["0.0", "1.5", "2.5", "0.25", "1000000.5", "3.0", "123456789.0", "9007199254740993.0"]))
    def num():
        x = r.random()
        v = mkint(some_int(r) if x < .4 else r.randrange(-4, 5)) if x < .7 else fl()
        return ("un", "-", v) if x > .85 else v
    for _ in range(chk.scale(1500, 30000)):
        a, c = num(), num()
        if r.random() < .1: c = a
        acc.add(P(call("abs", a), S(" "), NL))
        acc.add(P(call("min", a, c), S(" "), call("max", a, c), S(" "), call("min", c, a), S(" "), call("max", c, a), NL))
    for v in BADARG:
        acc.add(P(call("abs", v), NL))
        for w in BADARG + [I(1)]:
            acc.add(P(call(r.choice(["min", "max"]), v, w), NL))
    acc.add(P(call("min", I(1)))); acc.add(P(call("max"))); acc.add(P(call("abs")))
    acc.flush()

def predicates(chk, r, b):
    pre = [("fundef", "fn", [], ("return", [I(1)])), X(asg("m", ("map", [(("key", "x"), I(1))])))]
    acc = Acc(b, "isCallable and the exported types", prelude=pre)
    for v in BADARG + [V("fn"), V("isCallable"), dot("string", "cat"), V("abs"), V("m"), V("List")]:
        acc.add(P(call("isCallable", v), S(" "), *[call("istypeof", V(t), v) for t in ("Callable", "Numeric", "Collection", "Func", "NFunc")], NL))
    acc.add(P(call("isCallable")))
    acc.flush()
    acc = Acc(b, "assert", prelude=[])
    for n in range(0, 15):
        acc.add(X(call("assert", *[TRUE] * n)), P(S("passed")))
        for k in range(n):
            for bad in (FALSE, r.choice(BADARG[:1] + BADARG[2:])): acc.add(X(call("assert", *[bad if j == k else r.choice([TRUE, FALSE]) if j > k else TRUE for j in range(n)])), P(S("passed")))
    acc.flush()

def value(r, d):
    """A value that toString accepts (mostly), as an expression."""
    x = r.random()
    if d <= 0 or x < .5:
        return r.choice([lambda: mkint(r.randrange(-200, 1000)), lambda: S(r.choice(["", "a", "two words", "é日", "[", "], ", "{}", "none", "\n"])), lambda: NONE, lambda: V("print"), lambda: V("fn"), lambda: V("int"), lambda: I(7), lambda: V("toString")])()
    n = r.choice([0, 1, 2, 3, 6])
    if x < .75: return ("list", [value(r, d - 1) for _ in range(n)])
    if x < .82: return ("map", [(("key", "toString"), V("meth")), (("key", "v"), value(r, 0))])
    if x < .86: return V("obj")
    return ("map", [((("key", r.choice("abcdefg")) if r.random() < .6 else r.choice([mkint(r.randrange(-5, 50)), S("k " + r.choice("xyz")), NONE])), value(r, d - 1)) for _ in range(n)])

def collections(chk, r, b):
    pre = [("fundef", "fn", [], ("return", [I(1)])), ("fundef", "meth", [("self", None, None)], ("return", [call(dot("string", "cat"), S("<"), call("toString", ("sel", V("self"), ("key", "v"))), S(">"))])),
           X(asg("obj", ("map", [(("key", "v"), I(3)), (("key", "toString"), V("meth"))])))]
    acc = Acc(b, "text of values", per=10, prelude=pre)
    for _ in range(chk.scale(1500, 30000)):
        v = value(r, r.choice([0, 1, 1, 2]))
        acc.add(P(call("toString", v), NL))
        if r.random() < .2: acc.add(P(call("toString", v, r.choice([TRUE, FALSE, NONE])), NL))
    for v in [TRUE, FALSE, call(dot("buffer", "new"), I(3)), ("list", [TRUE]), ("list", [I(1), ("list", [FALSE])]), ("map", [(("key", "a"), TRUE)]), V("math"), ("un", "?", V("int")), ("bin", "|", V("int"), V("List"))]:
        acc.add(P(call("toString", v), NL))
    acc.add(P(call("toString")))
    acc.flush()
    acc = Acc(b, "append", per=1)
    for _ in range(chk.scale(100, 1500)):
        q = [X(asg("l", ("list", [mkint(r.randrange(9)) for _ in range(r.choice([0, 1, 7, 8, 9]))]))), X(asg("k", V("l")))]
        for i in range(r.choice([1, 3, 12])):
            q.append(X(call("append", V("l"), r.choice([mkint(i), S("x"), NONE, V("k") if r.random() < .3 else LIST2, TRUE]))))
            if r.random() < .2: q.append(P(call("count", V("k")), S(" ")))
        q.append(P(V("k"), call("count", V("l")), NL))
        acc.add(*q)
    for v in BADARG: acc.add(X(call("append", v, I(1))), P(S("after")))
    acc.add(P(call("append", LIST2, I(1)), S("|")), X(asg("v", call("append", LIST2, I(1)))), P(V("v")))
    acc.add(X(asg("l", LIST2)), X(call("append", V("l"))), P(V("l")))
    acc.flush()

def iterators(chk, r, b):
    acc = Acc(b, "iterators", per=1)
    nxt = lambda it: ("mcall", V(it), "next", [])
    for _ in range(chk.scale(1200, 15000)):
        n = r.choice([0, 1, 2, 3, 5, 9])
        coll = ("list", [r.choice([mkint(i), S("v%d" % i), NONE, LIST2, TRUE]) for i in range(n)]) if r.random() < .45 else \
               ("map", [(r.choice([("key", f"k{i}"), mkint(i * 3), S(f"s {i}")]), r.choice([mkint(i), S("v"), NONE, LIST2])) for i in range(n)])
        q = [X(asg("c", coll)), X(asg("it", call("makeIterator", V("c"), *([r.choice([TRUE, FALSE, NONE])] if r.random() < .3 else []))))]
        # some are advanced together, each has its own position
        two = r.random() < .3
        if two: q.append(X(asg("it2", call("makeIterator", V("c")))))
        for i in range(n + r.choice([1, 2, 4])):
            it = "it2" if two and r.random() < .4 else "it"
            q.append(X(("asg", [V("v"), V("k"), V("i")], nxt(it))))
            q.append(P(V("v"), S(" "), V("k"), S(" "), V("i"), S("; ")))
            if r.random() < .08: q.append(X(("asg", [("sel", V("c"), V("k"))], S("changed"))) if n else X(I(0)))
            if r.random() < .06: q.append(X(call("append", V("c"), I(5))) if coll[0] == "list" else X(("asg", [("sel", V("c"), S(f"new{i}"))], I(5))))
        q.append(P(("sel", V("it"), ("key", "index")), call("count", ("sel", V("it"), ("key", "keys"))), NL))
        acc.add(*q)
    # the usual loop visits everything once
    for n in list(range(0, 12)) + [40]:
        for mk in (lambda i: ("list", i), lambda i: ("map", [(("key", f"k{j}"), x) for j, x in enumerate(i)])):
            acc.add(X(asg("it", call("makeIterator", mk([mkint(j * j) for j in range(n)])))), X(("asg", [V("v"), V("k"), V("i")], nxt("it"))), ("while", ("bin", "!=", V("v"), NONE), B(P(V("v"), S(","), V("k"), S(","), V("i"), S(" ")), X(("asg", [V("v"), V("k"), V("i")], nxt("it"))))))
    # a collection may bring its own
    own = [("fundef", "iter", [("self", None, None)], ("return", [call("makeIterator", ("sel", V("self"), ("key", "items")))]))]
    for use in ([], [TRUE], [FALSE], [NONE]):
        acc.add(*own, X(asg("m", ("map", [(("key", "items"), ("list", [I(7), I(8)])), (("key", "iter"), V("iter"))]))), X(asg("it", call("makeIterator", V("m"), *use))),
                X(("asg", [V("v"), V("k")], nxt("it"))), P(V("k"), call("count", V("v")) if use == [FALSE] else V("v")), X(("asg", [V("v"), V("k"), V("i")], nxt("it"))), P(V("k"), V("i")))
    acc.add(X(asg("m", ("map", [(("key", "iter"), I(5)), (("key", "z"), I(6))]))), X(asg("it", call("makeIterator", V("m")))), X(("asg", [V("v"), V("k")], nxt("it"))), P(V("k"), V("v")))
    for v in BADARG: acc.add(X(call("makeIterator", v)), P(S("made")))
    for f in ("set", "keys", "index", "next"):
        for bad in (I(3), S("x"), NONE, ("list", []), TRUE): acc.add(X(asg("it", call("makeIterator", LIST2))), X(asg("nx", ("sel", V("it"), ("key", "next")))), X(("asg", [("sel", V("it"), ("key", f))], bad)), P(S("a")), X(("asg", [V("v"), V("k")], call("nx", V("it")))), P(V("v"), V("k")))
    acc.flush()

def scopes(chk, r, b):
    """The program's variables are not the prelude's."""
    names = ["cat", "chr", "ord", "count", "type", "dummy", "stringFromInteger", "stringFromList", "string", "math", "assert", "print2", "Func", "int", "none_", "istypeof", "keysof", "error", "makeGenericIterator", "typename", "Collection", "index", "digit", "text", "power"]
    for _ in range(chk.scale(120, 1500)):
        q = [X(asg(n, r.choice([I(5), S("x"), NONE, V("print"), ("list", [])]))) for n in r.sample(names, r.randrange(1, 8))]
        v = r.choice([mkint(some_int(r)), ("list", [I(1), S("a"), NONE]), ("map", [(("key", "a"), I(1)), (("key", "b"), ("list", [S("z")]))]), S("str")])
        q += [P(call("toString", v), S(" "), call("abs", mkint(-7)), call("min", I(1), I(2)), NL), X(asg("l", ("list", [I(4)]))), X(call("append", V("l"), I(6))), X(asg("it", call("makeIterator", V("l")))), X(("asg", [V("a"), V("b"), V("c")], ("mcall", V("it"), "next", []))), P(V("l"), V("a"), V("b"), V("c"), call("isCallable", V("print")))]
        b.prog(q, "program with the prelude's names")

def sizes(chk, r, b):
    """Things of many items or characters, printed and converted."""
    for n in (127, 128, 255, 256, 257, 1000, 4095, 4096, 4097, 32768, 65535, 65536, 65539, 70000):
        grow = lambda body: [X(asg("i", I(0))), ("while", ("bin", "<", V("i"), I(n)), B(body, X(asg("i", ("bin", "+", V("i"), I(1))))))]
        o = dict(heap=1 << 24, abort_at=0, cpu=20)
        b.prog([X(asg("v", call(dot("buffer", "new"), I(n)))), X(("asg", [("sel", V("v"), I(n - 1))], I(77))), P(V("v"), call("count", V("v")))], "size: buffer", **o)
        b.prog([X(asg("l", ("list", [])))] + grow(X(("asg", [("sel", V("l"), V("i"))], V("i")))) + [P(V("l"), call("count", V("l"))), P(call("count", call("keysof", V("l"))), ("sel", call("keysof", V("l")), I(n - 1)))], "size: list", **o)
        if n <= 4097: b.prog([X(asg("m", ("map", [])))] + grow(X(("asg", [("sel", V("m"), V("i"))], S("x")))) + [P(V("m"), call("count", V("m")))], "size: map", **o)
        s = [X(asg("s", S("é"))), ("while", ("bin", "<=", ("bin", "*", call("count", V("s")), I(2)), I(n)), X(asg("s", call(dot("string", "cat"), V("s"), V("s"))))), ("if", ("bin", "<", call("count", V("s")), I(n)), X(asg("s", call(dot("string", "cat"), V("s"), call(dot("string", "slice"), V("s"), I(0), ("bin", "-", I(n), call("count", V("s"))))))), None)]
        b.prog(s + [P(call("count", V("s")), V("s"), call("count", call(dot("buffer", "fromString"), V("s"))), ("bin", "==", V("s"), call(dot("string", "cat"), V("s"))), call("count", call("toString", V("s"))))], "size: string", **o)

MEMBERS = {"math": "sqrt sin cos tan acos asin atan atan2 exp log log10 pow floor ceil PI E", "string": "ord chr cat trim slice toInt", "buffer": "new sliceUp toString fromString", "files": "openFile openDir nextDirItem read write READ WRITE APPEND", "random": "seed generate", "net": "socket bind listen accept recv send close"}
def members(chk, r):
    """A library has its members under exactly their names."""
    for lib, names in MEMBERS.items():
        names = names.split()
        cases, lines, exp = [], [], []
        def line(k, want): lines.append(f"v = {lib}[{k}]; print(v == none, '|');"); exp.append("false|" if want else "true|")
        for n in names:
            line(f"'{n}'", True); line(f"string.cat('{n[:1]}', '{n[1:]}')", True); line(f"string.slice('x{n}y', 1, {len(n)})", True)
            for w in {n[:-1], n + "x", n + " ", " " + n, n.upper(), n.lower(), n.capitalize(), n + n, n[1:], n[::-1], ""}: line(f"'{w}'", w in names)
            for k in range(len(n) + 1): line(f"string.cat('{n[:k]}', string.chr(0), '{n[k:]}')", False)
            line(f"string.cat('{n}', string.chr(0), 'more')", False)
        for k in ("0", "1", "-1", "1.5", "none", "true", "['sqrt']", "{a: 1}", "int", "print", lib, "buffer.fromString('sqrt')", "?int", "toString", "9223372036854775807"): line(k, False)
        for i in range(0, len(lines), 40): c = vf.Case("\n".join(lines[i:i+40]), heap=1 << 19); c.expect = "".join(exp[i:i+40]); cases.append(c)
        for f in (f"{lib}.x = 1;", f"{lib}['{names[0]}'] = 1;", f"print(count({lib}));"): c = vf.Case("print('x');" + f); c.expect = None; cases.append(c)
        for c, x in zip(cases, vf.run_cases(cases)):
            chk.observed(c.src); chk.count_kind("members of libraries", c.src.count(b"\n") + 1)
            if chk.crash(c, x, "members of libraries"): continue
            if c.expect is None:
                if x.ok or x.err != "runtime" or x.out != b"x": chk.violation("members of libraries: changed", f"{x.ok} {x.err} {x.msg!r} {x.out!r}\n{c.src.decode()}", c)
            elif x.ok != 1 or x.out.decode() != c.expect:
                k = next((i for i, (p, q) in enumerate(zip(x.out.decode().split("|"), c.expect.split("|"))) if p != q), -1)
                chk.violation("members of libraries", f"{x.ok} {x.err} {x.msg!r}: {c.src.decode().splitlines()[k] if k >= 0 else x.out}", c)

def refusals(chk):
    """The error of a conversion tells what couldn't be converted."""
    for v, n in (("true", "bool"), ("false", "bool"), ("buffer.new(3)", "Buffer"), ("math", "static map"), ("?int", "Nullable"), ("int | float", "Sum")):
        for s in ("toString(%s)", "toString([1, %s])", "toString({a: [%s]})"):
            c = vf.Case(f"print('x', typename({v})); {s % v};"); x = vf.run_cases([c])[0]
            chk.observed(c.src); chk.count_kind("refused conversions")
            if chk.crash(c, x, "refused conversions"): continue
            if x.ok == 1 and v[0] in "?i": continue
            if x.ok or x.err != "runtime" or x.out[:1] != b"x" or x.out[1:] not in x.msg: chk.violation("refused conversions", f"{x.ok} {x.err} {x.msg!r} {x.out!r}\n{c.src.decode()}", c)

def digits(v, t):
    """The text has the first decimals of the number, where they can't depend on the rounding of the operations that get them."""
    a = abs(v); s = a * 100
    if a > 1e6 or abs(s - round(s)) < 1e-5: return True
    n = math.floor(s) % 100
    d = t.split(".")[1]
    return math.floor(a) == int(t.split(".")[0].lstrip("-")) and int(d.ljust(2, "0")) == n

# -- floats: the text is close to the number ------------------------------------
def floats(chk, r):
    def some():
        k = r.random()
        if k < .3: return r.choice(["0.0", "0.5", "0.01", "0.05", "0.99", "0.999", "0.995", "1.0", "1.005", "9.99", "9.999", "10.0", "99.99", "0.1", "0.2", "0.3", "0.7", "1.1", "2.2", "3.3", "123.456", "0.009", "0.001", "0.00000001", "100.0", "1000000.0", "4503599627370496.5", "9007199254740992.0", "9223372036854774784.0", "1152921504606846976.0"])
        if k < .4: return r.choice([repr(float(r.randrange(1, 10)) - 2.0 ** -r.randrange(44, 51)), "%.17f" % (1 - 2.0 ** -r.randrange(20, 54)), "%d.%02d%d" % (r.randrange(100), r.randrange(100), r.choice([1, 2, 99, 98, 999, 9999999, 11]))])
        if k < .6: return "%d.%02d" % (r.randrange(0, 1000), r.randrange(100))
        if k < .9: return "%.*f" % (r.randrange(1, 12), r.random() * 10 ** r.randrange(0, 16))
        return "%d.%d" % (r.randrange(1 << 62), r.randrange(10))
    cases = []
    for _ in range(chk.scale(160, 3000)):
        vs, src, pat = [], [], []
        for _ in range(12):
            def one():
                t = some(); neg = r.random() < .4; vs.append(-float(t) if neg else float(t)); return ("-" if neg else "") + t
            x = r.random()
            if x < .6: src.append(f"print(toString({one()}), '|');"); pat.append("F\\|")
            elif x < .8: src.append(f"print(toString([{one()}, 'x', {one()}]), '|');"); pat.append(r"\[F, x, F\]\|")
            else: src.append(f"print(toString({{a: {one()}, 3: {one()}}}), '|');"); pat.append(r"\{a: F, 3: F\}\|")
        c = vf.Case("\n".join(src)); c.expect = (vs, "".join(pat).replace("F", r"(-?\d+\.\d\d?)"))
        cases.append(c)
    for c, x in zip(cases, vf.run_cases(cases)):
        chk.observed(x.out); chk.count_kind("text of floats", 12)
        if chk.crash(c, x, "text of floats"): continue
        vs, pat = c.expect
        m = re.fullmatch(pat, x.out.decode("utf-8", "replace"))
        if x.ok != 1 or not m: chk.violation("text of floats: form", f"{x.ok} {x.msg!r} {x.out!r}, expected {pat}\n{c.src.decode()}", c); continue
        for v, t in zip(vs, m.groups()):
            if abs(float(t) - v) > .011 + abs(v) * 1e-15 or (t[0] == "-") != (v < 0) or not digits(v, t): chk.violation("text of floats: value", f"{v!r} is printed as {t}\n{c.src.decode()}", c); break
    for src in ("toString(1.0 * 9223372036854775807 * 2)", "toString(-1000000000000000000000.0)", "toString(1.0 / 0.0)", "toString(math.sqrt(-1.0))", "toString(math.log(0.0))"):
        c = vf.Case(f"print('x'); print({src});")
        x = vf.run_cases([c])[0]
        chk.observed(c.src); chk.count_kind("floats that don't fit an integer")
        if not chk.crash(c, x, "text of floats") and (x.ok or x.err != "runtime" or x.out != b"x"): chk.violation("text of floats: out of range", f"{src}: {x.ok, x.err, x.msg, x.out}", c)

if __name__ == "__main__":
    vf.main(main)
