from common import *

def main():
    chk = vf.Check("C08", rule="distinct printed histories of list operations")
    r = chk.rng
    b = model.Batch(chk)
    odd = [I(-1), I(1 << 32), I(1 << 31), I((1 << 32) + 1), I(-(1 << 32)), I((1 << 63) - 1), I(-(1 << 63)), F("0.0"), F("1.0"), S("0"), NONE, TRUE, ("list", [I(0)])]
    def v(i):
        return r.choice([I(i), I(i * 1000003), S(f"s{i}"), F(f"{i}.5"), NONE, TRUE, ("list", [I(i), S("in")]), ("map", [(("key", "k"), I(i))]), V("l"), V("q"), V("print")][:r.choice([3, 8, 10])])
    def read_odd():
        return P(*[("sel", V("l"), k) for k in r.sample(odd, 3)], NL)
    for n in range(chk.scale(3500, 50000)):
        size = r.choice([5, 12, 30, 80])
        prog = [X(asg("l", ("list", [I(100 + i) for i in range(r.choice([0, 0, 1, 3, 4, 7, 8, 9, 15, 16, 17, 20, 33]))]))), X(asg("q", ("list", []))), X(asg("al", V("l"))),
                ("fundef", "set", [("x", None, None), ("i", None, None), ("v", None, None)], X(("asg", [("sel", V("x"), V("i"))], V("v"))))]
        wild = r.random() < .3
        for i in range(size):
            l = V(r.choice(["l", "l", "l", "q", "al"]))
            x = r.random()
            c = call("count", l)
            if x < .3: prog.append(X(("asg", [("sel", l, c)], v(i))))
            elif x < .36: prog.append(X(call("append", l, v(i))))
            elif x < .5:
                # an existing item: from the front, the back, or the middle
                ix = r.choice([I(0), ("bin", "-", c, I(1)), ("bin", "/", c, I(2)), ("bin", "%", I(r.randrange(1000)), c)])
                st = X(("asg", [("sel", l, ix)], v(i))) if r.random() < .8 else X(call("set", l, ix, v(i)))
                prog.append(("if", ("bin", ">", c, I(0)), st, None))
            elif x < .75: prog.append(P(("sel", l, r.choice([I(0), I(r.randrange(0, size)), ("bin", "-", c, I(1)), c])), S(" ")))
            elif x < .82: prog.append(P(call("count", l), S(" ")))
            elif x < .86: prog.append(read_odd())
            elif x < .90: prog.append(P(l, NL))
            elif x < .92: prog.append(P(call("keysof", l), NL))
            elif x < .95: prog.append(X(asg(r.choice(["l", "q", "al"]), V(r.choice(["l", "q", "al"])))))
            elif x < .97: prog.append(X(asg("q", ("list", [v(i) for _ in range(r.randrange(0, 20))]))))
            elif wild:
                prog.append(P(S("bad "))); prog.append(X(("asg", [("sel", l, r.choice(odd + [("bin", "+", c, I(1)), ("bin", "+", c, I(r.randrange(2, 50)))]))], v(i))))
        prog += [P(V("l"), NL, V("q"), NL, V("al"), NL, call("count", V("l")))]
        gc = r.random() < .12 and size <= 30
        b.prog(prog, "list history" + (" under collection" if gc else ""), heap=1 << 18, gcper=r.choice([3, 17, 41]) if gc else 0)
        if chk.enough(): break
    for k in odd + [I(3), I(4), I(100)]:
        for form in (0, 1):
            b.prog([X(asg("l", ("list", [I(1), I(2), I(3)]))), P(("sel", V("l"), k), S(" ")), X(("asg", [("sel", V("l"), k)], I(9))) if form == 0 else X(("asg", [V("z"), ("sel", V("l"), k)], call("f"))), P(V("l"), call("count", V("l")))] if form == 0 else
                   [("fundef", "f", [], ("return", [I(1), I(2)])), X(asg("l", ("list", [I(1), I(2), I(3)]))), X(("asg", [V("z"), ("sel", V("l"), k)], call("f"))), P(V("l"), V("z"))], "odd index")
    # growth
    for n in list(range(0, 70)) + [127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1025, 3000]:
        loop = lambda *body: B(X(asg("i", I(0))), ("while", ("bin", "<", V("i"), I(n)), B(*body, X(asg("i", ("bin", "+", V("i"), I(1)))))))
        prog = [X(asg("l", ("list", []))), X(asg("other", ("list", [])))]
        prog.append(loop(X(("asg", [("sel", V("l"), V("i"))], ("bin", "*", V("i"), V("i")))), X(("asg", [("sel", V("other"), call("count", V("other")))], ("list", [V("i")]))), ("if", ("bin", "!=", call("count", V("l")), ("bin", "+", V("i"), I(1))), P(S("count? "), V("i"), NL), None)))
        prog.append(loop(("if", ("bin", "!=", ("sel", V("l"), V("i")), ("bin", "*", V("i"), V("i"))), P(S("lost "), V("i"), NL), None), ("if", ("bin", "!=", ("sel", ("sel", V("other"), V("i")), I(0)), V("i")), P(S("lost "), V("i"), NL), None)))
        prog.append(P(call("count", V("l")), ("sel", V("l"), I(n)), ("sel", V("l"), I(-1)), ("sel", V("l"), I(n - 1)), ("sel", V("l"), I(0)), call("count", call("keysof", V("l")))))
        it = ref.Interp(max_steps=10**7)
        out, err = it.run(prog)
        for gcper in (0, 997):
            b.add(gen.source(prog), out, err, "list growth", heap=1 << 22, sig=(n, gcper), abort_at=0, cpu=60, gcper=gcper if n < 600 else 0)
        lit = [X(asg("l", ("list", [I(i) for i in range(n)]))), P(V("l"), call("count", V("l"))), X(("asg", [("sel", V("l"), I(n))], S("end"))), P(V("l"), call("count", V("l")))]
        b.prog(lit, "long literal")
    b.flush()
    chk.finish(1000, 500)

vf.main(main)
