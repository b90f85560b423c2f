from common import *

def main():
    chk = vf.Check("C03", rule="distinct outputs (values printed) of arithmetic, comparison and logic programs")
    r = chk.rng
    b = model.Batch(chk)
    ints = [0, 1, -1, 2, -2, 3, 7, -7, 10, 100, 255, 256, -256, 65535, 65536, (1 << 31) - 1, -(1 << 31), 1 << 31, (1 << 32) - 1, 1 << 32, -(1 << 32),
            3037000499, 3037000500, -3037000500, (1 << 53) - 1, 1 << 53, (1 << 53) + 1, (1 << 62), -(1 << 62), (1 << 63) - 1, (1 << 63) - 2, -(1 << 63), -(1 << 63) + 1]
    flts = ["0.0", "-0.0", "1.0", "-1.0", "0.5", "-0.5", "0.1", "2.5", "-2.5", "3.0", "1.005", "0.005", "0.015", "0.125", "99.995", "123456.789", "9007199254740993.0", "9223372036854775807.0",
            "-9223372036854775808.0", "4611686018427387904.0", "1" + "0" * 60 + ".0", "0." + "0" * 60 + "1", "-1" + "0" * 20 + ".25"]
    others = [NONE, TRUE, FALSE, S(""), S("a"), S("1"), ("list", []), ("list", [I(1)]), ("map", []), V("int"), V("print"), ("un", "?", V("int")), ("bin", "|", V("int"), V("None"))]
    pre = [X(asg("inf", F("1" + "0" * 50 + ".0")))]
    for _ in range(3): pre.append(X(asg("inf", ("bin", "*", V("inf"), V("inf")))))
    pre += [X(asg("ninf", ("un", "-", V("inf")))), X(asg("nan", ("bin", "-", V("inf"), V("inf"))))]
    ops = ["+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">="]
    vals = [I(v) for v in ints] + [F(v) for v in flts] + [V("inf"), V("ninf"), V("nan")]

    acc = Acc(b, "arithmetic", 30, pre)
    k = [0]
    def probe(e):
        """Prints the value of e and, if it's a float, digits that print would round off."""
        k[0] += 1
        n = f"r{k[0] % 7}"
        form = r.randrange(4)
        ss = [X(asg(n, e))]
        if form == 0:
            ss = [("fundef", "f", [], ("return", [e])), X(asg(n, call("f")))]
        elif form == 1:
            ss = [X(asg("l", ("list", [e]))), X(asg(n, ("sel", V("l"), I(0))))]
        ss.append(P(V(n), S(" "), call("typename", V(n)), S(" ")))
        p = model.predict(pre + ss)
        if p and p[1] is None and b" float " in p[0]:
            ss += [P(("bin", "*", V(n), F("1000000007.0")), S(" "), ("bin", "/", V(n), F("0.000000000001")), S(" "),
                     ("bin", "/", I(1000), V(n)) if model.predict(pre + ss + [P(("bin", "/", I(1000), V(n)))])[1] is None else S("zero"))]
        ss.append(P(NL))
        return ss
    def operand(v):
        x = r.random()
        if x < 0.6: return [], v
        k[0] += 1
        n = f"x{k[0] % 9}"
        return [X(asg(n, v))], V(n)

    pairs = [(a, c) for a in vals for c in vals]
    r.shuffle(pairs)
    pairs = pairs[:chk.scale(420, len(pairs))]
    # an integer and the float of the same value, which are different values
    for i in ints:
        if abs(i) <= 1 << 53 or i in (1 << 62, -(1 << 62), -(1 << 63)): pairs += [(I(i), F("%.1f" % i)), (F("%.1f" % i), I(i))]
    for a, c in pairs:
        for op in ops:
            s1, x = operand(a); s2, y = operand(c)
            acc.add(*s1, *s2, *probe(("bin", op, x, y)))
    # every operator on every kind of value
    kinds = [I(3), F("2.5")] + others
    for a in kinds:
        for c in kinds:
            for op in ops:
                acc.add(*probe(("bin", op, a, c)))
            for op in ("and", "or"):
                acc.add(*probe((op, a, c)))
        for op in "+-":
            acc.add(*probe(("un", op, a)))
        acc.add(*probe(("un", "not", a)))
        acc.add(("if", a, P(S("yes\n")), P(S("no\n"))))
        acc.add(("while", a, B(P(S("in\n")), ("break",))))
    for a in vals:
        for op in "+-":
            acc.add(*probe(("un", op, a)))
        acc.add(P(a, NL))
    # random integers of every magnitude, near the overflow boundaries too
    for _ in range(chk.scale(3000, 60000)):
        def rnd():
            x = r.random()
            if x < 0.25: v = r.randrange(-50, 50)
            elif x < 0.9: v = r.getrandbits(r.randrange(1, 64)) * r.choice([1, -1])
            else: v = r.choice([ref.IMAX, ref.IMIN]) + r.randrange(-3, 4)
            return max(ref.IMIN, min(ref.IMAX, v))
        op = r.choice(ops)
        x, y = rnd(), rnd()
        if op == "+" and r.random() < 0.3: y = max(ref.IMIN, min(ref.IMAX, r.choice([ref.IMAX, ref.IMIN]) - x + r.randrange(-1, 2)))
        if op == "-" and r.random() < 0.3: y = max(ref.IMIN, min(ref.IMAX, x - r.choice([ref.IMAX, ref.IMIN]) + r.randrange(-1, 2)))
        if op == "*" and r.random() < 0.4 and x: y = max(ref.IMIN, min(ref.IMAX, r.choice([ref.IMAX, ref.IMIN]) // x + r.randrange(-1, 2)))
        if r.random() < 0.2: y = x
        a, c = I(x), I(y)
        if r.random() < 0.25: a = F(repr_float(r))
        if r.random() < 0.25: c = F(repr_float(r))
        if r.random() < 0.06: a, c = r.sample([I(x), F("%d.0" % x)], 2)
        acc.add(*probe(("bin", op, a, c)))
    # logic: truth tables with traced evaluation (short circuit)
    tr = ("fundef", "tr", [("x", None, None)], B(P(S("<"), V("x"), S(">")), ("return", [V("x")])))
    acc2 = Acc(b, "logic", 20, [tr])
    for _ in range(chk.scale(600, 8000)):
        def lg(d):
            x = r.random()
            if d == 0 or x < 0.2: return call("tr", r.choice([TRUE, FALSE]))
            if x < 0.35: return ("un", "not", lg(d - 1))
            if x < 0.45: return ("bin", r.choice(["<", "==", ">=", "!="]), call("tr", I(r.randrange(3))), call("tr", I(r.randrange(3))))
            if x < 0.47: return call("tr", r.choice([NONE, I(1), S("")]))
            return (r.choice(["and", "or"]), lg(d - 1), lg(d - 1))
        acc2.add(P(lg(r.randrange(1, 5)), NL))
    # nested arithmetic, with precedence only
    for _ in range(chk.scale(1500, 20000)):
        def ar(d):
            x = r.random()
            if d == 0 or x < 0.2: return I(r.randrange(-20, 20)) if r.random() < .7 else F(r.choice(flts[:12]))
            if x < 0.3: return ("un", r.choice("+-"), ar(d - 1))
            return ("bin", r.choice("++--**/%" if r.random() < .9 else "<>"), ar(d - 1), ar(d - 1))
        acc.add(*probe(ar(r.randrange(1, 5))))
    acc.flush(); acc2.flush(); b.flush()
    chk.finish(200, 150)

def repr_float(r):
    x = r.choice([r.uniform(-10, 10), r.uniform(-1e6, 1e6), r.uniform(-1e18, 1e18), r.randrange(-100, 100) / 8])
    s = "%.17f" % x
    return s.rstrip("0") + ("0" if s.rstrip("0").endswith(".") else "")

vf.main(main)
