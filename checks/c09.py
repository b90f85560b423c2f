from common import *
import random

ALPHA = ["a", "b", "z", "0", "9", " ", "\t", "\n", "'", '"', "\\", "{", "é", "ß", "\x7f", "\u0080", "\u07ff", "\u0800", "日", "\uffff", "\U00010000", "𝄞", "\U0010ffff", "ü", ",", "#"]

def main():
    chk = vf.Check("C09", rule="distinct printed results of string programs")
    r = chk.rng
    b = model.Batch(chk)
    st = lambda n: dot("string", n)
    def lit(maxn=12):
        n = r.choice([0, 1, 1, 2, 3, 5, maxn])
        a = ALPHA if r.random() < .6 else r.choice([ALPHA[:4], [" ", "a"], ["0", "1", "9"], ALPHA[12:22]])
        return "".join(r.choice(a) for _ in range(n))
    def se(d):
        x = r.random()
        if d == 0 or x < .4: return S(lit())
        if x < .7: return call(st("cat"), *[se(d - 1) for _ in range(r.randrange(0, 5))])
        if x < .78: return call(st("trim"), se(d - 1))
        if x < .86: return call(st("chr"), I(ord(r.choice(ALPHA)) if r.random() < .8 else 0))
        if x < .88: return call(st("cat"), call(st("chr"), I(0)), se(d - 1))
        if x < .9: return ("sel", S(lit() + "q"), I(0))
        return call(st("slice"), se(d - 1), I(0), NONE if r.random() < .5 else I(0))
    acc = Acc(b, "strings", 12, heap=1 << 18)
    for _ in range(chk.scale(9000, 150000)):
        x = r.random()
        e = se(r.randrange(0, 4))
        bl = lambda q: len(q.encode())
        if x < .1: acc.add(X(asg("s", e)), P(call("count", V("s")), call("keysof", V("s")), S("|"), V("s"), S("|"), ("sel", V("s"), I(0)), ("sel", V("s"), I(-1)), ("sel", V("s"), call("count", V("s"))), ("sel", V("s"), ("bin", "-", call("count", V("s")), I(1))), NL))
        elif x < .25:
            s = lit(r.choice([12, 30]))
            n = len(s)
            far = [I((r.choice([1, -1, 3]) << r.choice([32, 33, 31, 16, 8, 60])) + r.randrange(-1, n + 1))] if r.random() < .3 else []
            acc.add(X(asg("s", S(s))), P(*[("sel", V("s"), I(i)) for i in r.sample(range(-1, n + 2), min(6, n + 3))], *[("sel", V("s"), i) for i in far], S("|"), call("count", V("s")), NL))
        elif x < .45:
            s = lit(r.choice([12, 20]))
            cuts = [bl(s[:i]) for i in range(len(s) + 1)]
            if r.random() < .7:
                i = r.randrange(len(cuts)); j = r.randrange(i, len(cuts))
                o, n = cuts[i], cuts[j] - cuts[i]
            else:
                o, n = r.choice([r.randrange(-2, bl(s) + 3), 1 << 32, -1, (1 << 63) - 1, -(1 << 63)]), r.choice([r.randrange(-2, bl(s) + 3), 1 << 32, (1 << 32) + 1, (1 << 63) - 1, 0])
            a = [S(s), I(o), I(n)]
            if r.random() < .15: a[2] = NONE
            if r.random() < .1: a[1] = NONE
            if r.random() < .1: a = a[:2]
            acc.add(P(S("["), call(st("slice"), *a), S("]"), call("count", call(st("slice"), *a)), NL))
        elif x < .6:
            s1 = lit(6)
            s2 = s1 if r.random() < .4 else s1[:-1] if r.random() < .4 else s1 + r.choice(ALPHA) if r.random() < .3 else lit(6)
            a, c = S(s1), S(s2)
            if r.random() < .5: a = call(st("cat"), a, S(""))
            if r.random() < .3: c = call(st("cat"), *[S(ch) for ch in s2[:20]])
            acc.add(P(("bin", "==", a, c), ("bin", "!=", a, c), ("sel", ("map", [(a, I(1))]), c), NL))
        elif x < .7:
            k = r.choice([0, 1, 9, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, r.randrange(0x110000), r.randrange(256), 0x110000, -1, 1 << 32, (1 << 32) + 65, -(1 << 63), (1 << 63) - 1])
            acc.add(X(asg("c", call(st("chr"), I(k)))), P(V("c"), call("count", V("c")), S(" "), call(st("ord"), V("c")), S(" "), call(st("ord"), call(st("cat"), V("c"), S("tail"))), ("bin", "==", call(st("cat"), V("c"), S("a")), call(st("cat"), V("c"), S("b"))), NL))
        elif x < .8:
            s = r.choice(["", "0", "7", "00012", "123", str(r.getrandbits(r.randrange(1, 63))), "9223372036854775807", "9223372036854775808", "18446744073709551616", "99999999999999999999", "9223372036854775806", "12a", "a12", " 12", "-5", "+5", "1.5", "1 ", str(10**18), str(10**19), "0" * 30 + "5"])
            if r.random() < .3:
                # with a null byte inside
                k = r.randrange(len(s) + 1); z = call(st("cat"), S(s[:k]), call(st("chr"), I(0)), S(s[k:]))
                acc.add(X(("asg", [V("n"), V("err")], call(st("toInt"), z))), P(V("n"), call("typename", V("err")), NL)); continue
            acc.add(X(("asg", [V("n"), V("err")], call(st("toInt"), S(s)))), P(V("n"), call("typename", V("err")), NL))
        elif x < .88:
            sp = lambda: " " * r.randrange(0, 4)
            s = sp() + lit(6) + sp()
            acc.add(X(asg("t", call(st("trim"), S(s)))), P(S("["), V("t"), S("]"), call("count", V("t")), ("bin", "==", V("t"), S(s.strip(" "))), NL))
        elif x < .94:
            acc.add(P(e, NL, call("count", e), NL))
        else:
            acc.add(P(call(st(r.choice(["ord", "chr", "trim", "toInt", "cat", "slice", "nothing"])), r.choice([NONE, I(3), TRUE, ("list", []), F("1.0"), S(""), V("print")])), NL))
        if chk.enough(): break
    # every code point boundary, and a sample of all of them
    pts = sorted(set([0x7f + i for i in range(-2, 3)] + [0x7ff + i for i in range(-2, 4)] + [0xffff + i for i in range(-2, 4)] + [0xd7ff, 0xe000, 0x10ffff] + [r.randrange(0x110000) for _ in range(chk.scale(600, 20000))]))
    for k in pts:
        if 0xd800 <= k < 0xe000: continue
        c = call(st("chr"), I(k))
        acc.add(X(asg("c", c)), P(V("c"), call("count", V("c")), call(st("ord"), V("c")), call("count", call(st("cat"), V("c"), S("x"), V("c"))), ("sel", call(st("cat"), S("x"), V("c"), S("y")), I(2)), NL))
    # long strings
    for n in [0, 1, 15, 16, 17, 63, 64, 65, 127, 128, 255, 256, 511, 512, 1023, 1024, 1025, 2000, 4000]:
        for ch in ("a", "é", "𝄞"):
            if n * len(ch.encode()) >= 4000: continue
            s = ch * n
            acc.add(X(asg("s", S(s))), P(call("count", V("s")), V("s"), call("count", call(st("cat"), V("s"), V("s"), V("s"))), ("sel", V("s"), I(n - 1)), ("bin", "==", V("s"), call(st("cat"), S(ch * (n // 2)), S(ch * (n - n // 2))))))
    # every position of long strings
    for n in (40, 63, 64, 65, 100, 256, 700):
        for ch in ("é", "日", "𝄞", "a𝄞", "日é", "𝄞𝄞a"):
            t = (ch * n)[:n]; t = t[:-1] + "z"
            acc.add(X(asg("s", S(t))), P(*[("sel", V("s"), I(i)) for i in sorted({0, 1, n - 2, n - 1, n, n // 2} | {r.randrange(n) for _ in range(6)})][:12]), P(call("count", V("s"))))
        s = "".join(r.choice(ALPHA[12:]) for _ in range(n))
        for k in range(0, n, 12): acc.add(X(asg("s", S(s))), P(*[("sel", V("s"), I(i)) for i in range(k, min(n, k + 12))]))
    for n in (1, 10, 100, 1000):
        # repeated concatenation
        prog = [X(asg("s", S(""))), X(asg("i", I(0))), ("while", ("bin", "<", V("i"), I(n)), B(X(asg("s", call(st("cat"), V("s"), S("é"), S("x")))), X(asg("i", ("bin", "+", V("i"), I(1)))))),
                P(call("count", V("s")), ("sel", V("s"), I(0)), ("sel", V("s"), I(2 * n - 1)), ("sel", V("s"), I(2 * n)))]
        b.prog(prog, "concatenation", heap=1 << 18)
    acc.flush(); b.flush()
    chk.finish(300, 250)

vf.main(main)
