from common import *

def main():
    chk = vf.Check("C10", rule="distinct printed histories of buffers and slices")
    r = chk.rng
    b = model.Batch(chk)
    bf = lambda n: dot("buffer", n)
    odd = [I(-1), I(1 << 32), I((1 << 32) + 1), I(-(1 << 32)), I((1 << 63) - 1), I(-(1 << 63)), F("0.0"), S("0"), NONE, TRUE]
    for n in range(chk.scale(4500, 70000)):
        prog = []
        names = []
        lens = {}
        for k in range(r.randrange(1, 3)):
            nm = f"b{k}"
            size = r.choice([0, 1, 2, 5, 8, 16, 40])
            if r.random() < .25:
                s = "".join(r.choice(["a", "é", "日", "x", "𝄞", "b"]) for _ in range(r.randrange(0, 8)))
                prog.append(X(asg(nm, call(bf("fromString"), S(s)))))
                size = len(s.encode())
            else: prog.append(X(asg(nm, call(bf("new"), I(size)))))
            names.append(nm); lens[nm] = size
        wild = r.random() < .25
        for i in range(r.randrange(3, 30)):
            nm = r.choice(names); L = lens[nm]
            x = r.random()
            if x < .35 and L: prog.append(X(("asg", [("sel", V(nm), I(r.choice([0, L - 1, r.randrange(L)])))], I(r.choice([0, 1, 65, 127, 128, 194, 255, r.randrange(256)])))))
            elif x < .55: prog.append(P(*[("sel", V(nm), I(r.randrange(-1, L + 2))) for _ in range(3)], S(" ")))
            elif x < .6: prog.append(P(*[("sel", V(nm), k) for k in r.sample(odd, 3)], S(" ")))
            elif x < .72 and L and len(names) < 9:
                o = r.randrange(L); m = r.choice([L - o, r.randrange(0, L - o + 1)])
                new = f"s{i}"
                prog.append(X(asg(new, call(bf("sliceUp"), V(nm), I(o), I(m)))))
                names.append(new); lens[new] = m
            elif x < .78: prog.append(P(V(nm), call("count", V(nm)), NL))
            elif x < .82: prog.append(P(call("keysof", V(nm))))
            elif x < .92:
                if L > 1 and r.random() < .2:
                    for z in sorted(r.sample(range(L), 2)): prog.append(X(("asg", [("sel", V(nm), I(z))], I(0 if r.random() < .6 else 200))))
                prog.append(X(("asg", [V("t"), V("err")], call(bf("toString"), V(nm)))))
                prog.append(P(S("<"), V("t"), call("typename", V("err")), S(">")))
                if r.random() < .5:
                    prog.append(("if", ("bin", "==", call("typename", V("t")), S("String")), P(call(bf("fromString"), V("t")), call("count", call(bf("fromString"), V("t"))), call("count", V("t")))  , None))
            elif x < .96 and len(names) < 9:
                new = f"a{i}"
                prog.append(X(asg(new, V(nm)))); names.append(new); lens[new] = L
            elif wild:
                prog.append(P(S("bad ")))
                y = r.random()
                if y < .3: prog.append(X(("asg", [("sel", V(nm), r.choice(odd + [I(L), I(L + 1)]))], I(1))))
                elif y < .5 and L: prog.append(X(("asg", [("sel", V(nm), I(0))], r.choice([I(256), I(-1), F("1.0"), NONE, S("a"), I(1 << 32), I((1 << 32) + 1)]))))
                elif y < .9: prog.append(P(call("count", call(bf("sliceUp"), V(nm), r.choice(odd + [I(0), I(L), I(L - 1), I(L + 1)]), r.choice(odd + [I(L), I(L + 1), I(0), I(1)])))))
                else: prog.append(X(call(bf(r.choice(["sliceUp", "toString", "fromString", "new", "zzz"])), r.choice([NONE, I(-1), S(""), V(nm), I(1 << 40), F("1.0"), ("list", [])]), I(0), I(0))))
        prog.append(P(*[V(nm) for nm in names]))
        gc = r.random() < .15
        b.prog(prog, "buffer history" + (" under collection" if gc else ""), heap=1 << 17, gcper=r.choice([2, 5, 13]) if gc else 0)
        if chk.enough(): break
    # every slice of a small buffer, twice over: a slice of a slice is relative to the slice
    full = [X(asg("b", call(bf("fromString"), S("abcdef"))))]
    for o in range(-1, 8):
        for m in range(-1, 8):
            b.prog(full + [X(asg("s", call(bf("sliceUp"), V("b"), I(o), I(m)))), P(V("s"), call("count", V("s")), call(bf("toString"), V("s"))), ("if", ("bin", ">", call("count", V("s")), I(0)), X(("asg", [("sel", V("s"), I(0))], I(90))), None), P(V("b"), V("s"), ("sel", V("s"), call("count", V("s"))))], "slice")
            if 0 <= o and 0 <= m and o + m <= 6:
                for o2 in range(0, m + 2):
                    for m2 in ((0, 1, m - o2, m - o2 + 1) if chk.thorough or (o + o2) % 2 == 0 else (m - o2,)):
                        b.prog(full + [X(asg("s", call(bf("sliceUp"), V("b"), I(o), I(m)))), X(asg("u", call(bf("sliceUp"), V("s"), I(o2), I(m2)))), P(V("u"), call("count", V("u")), call(bf("toString"), V("u"))), ("if", ("bin", ">", call("count", V("u")), I(0)), X(("asg", [("sel", V("u"), I(0))], I(90))), None), P(V("b"), V("s"), V("u"))], "slice of a slice")
    for n in (255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 32767, 32768, 65535, 65536, 65537, 70000, 131077, 1 << 18):
        pre = [X(asg("b", call(bf("new"), I(n))))] + [X(("asg", [("sel", V("b"), I(i))], I(i % 251 + 1))) for i in sorted({0, n // 2, n - 1, min(n - 1, 255), min(n - 1, 65535)})]
        b.prog(pre + [P(V("b"))], "big buffer printed", heap=1 << 20)
        if n <= 70000: b.prog(pre + [X(asg("s", call(bf("toString"), V("b")))), X(asg("c", call(bf("fromString"), V("s")))), P(call("count", V("s")), S(" "), call("count", V("c")), call("count", V("b")), V("c"))], "big buffer converted", heap=1 << 22)
    for n in [0, 1, 7, 8, 100, 4095, 4096, 65536]:
        b.prog([X(asg("b", call(bf("new"), I(n)))), P(call("count", V("b"))), ("if", ("bin", ">", I(n), I(0)), B(X(("asg", [("sel", V("b"), I(n - 1))], I(7))), P(("sel", V("b"), I(n - 1)), ("sel", V("b"), I(0)))), None), P(("sel", V("b"), I(n)))], "buffer size", heap=1 << 18)
    # many slices of a buffer, kept, dropped, outliving it
    for n in (10, 64, 127, 128, 129, 200, 255, 256, 257, 300, 600, 1000) + ((32767, 32768, 65536) if chk.thorough else ()):
        loop = lambda *q: ("while", ("bin", "<", V("i"), I(n)), B(*q, X(asg("i", ("bin", "+", V("i"), I(1))))))
        mk = [X(asg("b", call(bf("new"), I(20)))), X(asg("l", ("list", []))), X(asg("i", I(0))), loop(X(("asg", [("sel", V("l"), V("i"))], call(bf("sliceUp"), V("b"), ("bin", "%", V("i"), I(20)), I(1)))))]
        touch = [X(("asg", [("sel", ("sel", V("l"), I(i)), I(0))], I(65 + i % 50))) for i in (0, n // 2, n - 1)]
        show = [P(("sel", V("l"), I(0)), ("sel", V("l"), I(n // 2)), ("sel", V("l"), I(n - 1)))]
        for gc in (0, 0, 997):
            o = dict(heap=1 << 24, gcper=gc, abort_at=0, cpu=20)
            b.prog(mk + touch + [P(V("b"))] + show, "many slices", **o)
            b.prog(mk + touch + [X(asg("b", NONE)), X(asg("i", I(0))), loop(X(asg("t", ("list", [V("i"), V("i")]))))] + show + touch + show, "many slices that outlive the buffer", **o)
            b.prog(mk + touch + [X(asg("s", ("sel", V("l"), I(n // 2)))), X(asg("l", NONE)), X(asg("i", I(0))), loop(X(asg("t", call(bf("sliceUp"), V("s"), I(0), I(1))))), P(V("s"), V("t"), V("b")), X(("asg", [("sel", V("s"), I(0))], I(3))), P(V("b"), V("t"))], "many slices that are dropped", **o)
    for n in ((1 << 20) - 1, 1 << 20, (1 << 20) + 1, 1 << 21, 5000000, 1 << 24):
        b.prog([X(asg("b", call(bf("new"), I(n)))), P(call("count", V("b"))), *[X(("asg", [("sel", V("b"), I(i))], I(i % 251 + 1))) for i in (n - 1, 0, n // 2)], X(asg("s", call(bf("sliceUp"), V("b"), I(n // 2), I(n - n // 2)))), P(("sel", V("b"), I(n - 1)), ("sel", V("b"), I(0)), ("sel", V("b"), I(n // 2)), ("sel", V("b"), I(n - 2)), ("sel", V("b"), I(n)), S(" "), ("sel", V("s"), I(0)), ("sel", V("s"), I(n - n // 2 - 1)), ("sel", V("s"), I(n - n // 2)), call("count", V("s"))), X(("asg", [("sel", V("s"), I(1))], I(9))), P(("sel", V("b"), I(n // 2 + 1)))], "big buffer", heap=1 << 26)
    b.flush()
    chk.finish(1000, 500)

vf.main(main)
