from common import *
import re

def main():
    chk = vf.Check("C05", rule="distinct (output, outcome) pairs of programs about calls: arity, defaults, multiple returns, methods, evaluation order")
    r = chk.rng
    b = model.Batch(chk)
    tr = ("fundef", "tr", [("x", None, None)], B(P(S("<"), V("x"), S(">")), ("return", [V("x")])))
    def val():
        return r.choice([I(r.randrange(100)), S(r.choice("abc")), TRUE, NONE, F("2.5"), ("list", [I(1)])])
    def T(e): return call("tr", e)
    for _ in range(chk.scale(5000, 80000)):
        prog = [tr]
        names = []
        for k in range(r.randrange(1, 4)):
            n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 8, 12, 13, 14, 15])
            ps = []
            for i in range(n):
                df = None
                if r.random() < .3:
                    # defaults are evaluated at each call, in the scope of the function
                    df = T(r.choice([I(r.randrange(100)), V("g"), ("asg", [V("h")], I(5)), V(f"p{n-1}")] + ([V("p0")] if r.random() < .2 else [])))
                ty = r.choice([V("any"), ("un", "?", V("any")), T(V("any"))]) if r.random() < .12 else None
                ps.append((f"p{i}", ty, df))
            body = [P(*[x for p in ps for x in (V(p[0]), S(","))], S("|"))] if ps else [P(S("()"))]
            if r.random() < .3 and ps: body.append(X(asg(r.choice(ps)[0], I(-1))))
            nr = r.choice([0, 0, 1, 1, 1, 2, 2, 3, 5, 8, 9])
            if nr: body.append(("return", [T(r.choice([V(r.choice(ps)[0]) if ps else I(0), I(i)])) for i in range(nr)]))
            name = f"f{k}"
            names.append((name, n, nr))
            prog.append(("fundef", name, ps, B(*body)))
        prog += [X(asg("g", I(10))), X(asg("h", I(20)))]
        prog.append(X(asg("o", ("map", [(("key", "v"), S("self"))] + [(("key", nm), V(nm)) for nm, _, _ in names]))))
        def args(n):
            k = r.choice([n, n, n, n, n + 1, max(0, n - 1), 0, n + r.randrange(4)])
            return [T(val()) if r.random() < .7 else val() for _ in range(k)]
        def thecall():
            nm, n, nr = r.choice(names)
            x = r.random()
            if x < .5: return call(nm, *args(n)), nr
            if x < .7: return ("mcall", V("o") if r.random() < .6 else T(V("o")), nm, args(max(0, n - 1))), nr
            if x < .8: return call(dot("o", nm), *args(n)), nr
            if x < .9: return call(("sel", ("list", [T(V(nm))]), I(0)), *args(n)), nr
            # a call as the argument of another one
            return call(nm, *(args(n)[1:] + [call(r.choice(names)[0], *args(1))])), nr
        for _ in range(r.randrange(1, 6)):
            g, h = X(asg("g", ("bin", "+", V("g"), I(1)))), None
            prog.append(g)
            c, nr = thecall()
            x = r.random()
            if x < .3: prog.append(P(c, NL))
            elif x < .4: prog.append(X(c))
            elif x < .5: prog.append(P(("list", [c, T(I(1)), thecall()[0]]), NL))
            elif x < .6: prog.append(P(("bin", "==", call("type", c), V("int")), NL))
            else:
                m = max(1, nr + r.randrange(-2, 3))
                tg = []
                for i in range(m):
                    tg.append(V(f"t{i}") if r.random() < .8 else ("sel", V("o"), T(S(f"t{i}"))) if r.random() < .8 else V("t0"))
                prog.append(X(("asg", tg, c)))
                prog.append(P(*[t if t[0] == "id" else ("sel", V("o"), S(t[2][2][0][1])) for t in tg], NL))
        b.prog(prog, "calls", style=0, heap=1 << 18)
        if chk.enough(): break
    # natives: missing and extra arguments
    for name, n in (("type", 1), ("typename", 1), ("count", 1), ("keysof", 1), ("istypeof", 2), ("abs", 1), ("min", 2), ("isCallable", 1)):
        for k in range(0, n + 3):
            for a in ([I(1)], [NONE], [("list", [I(1)])], [S("ab")]):
                b.prog([tr, P(S("before ")), P(call(name, *[T(a[0]) for _ in range(k)]), S(" after"))], "native arity")
    for k in range(0, 36):
        b.prog([("fundef", "f", [("a", None, None), ("b", None, None)], ("return", [V("b"), V("a")])), X(("asg", [V("x"), V("y")], call("f", *[I(i) for i in range(k)]))), P(V("x"), V("y"))], "argument count")
        b.prog([P(*[I(i) for i in range(k)])], "argument count")
        b.prog([("fundef", "f", [], ("return", [I(i) for i in range(max(k, 1))])), X(("asg", [V(f"x{i}") for i in range(12)], call("f"))), P(*[V(f"x{i}") for i in range(12)])], "return count")
    for v in (NONE, I(1), S("f"), TRUE, ("list", []), ("map", []), V("int"), F("1.5"), ("un", "?", V("int"))):
        b.prog([tr, P(S("a")), X(("call", v, [T(I(1))])), P(S("b"))], "calling what can't be called")
        b.prog([tr, P(S("a")), X(("mcall", T(v), "m", [T(I(1))])), P(S("b"))], "calling what can't be called")
    b.flush()
    # which argument was refused
    jobs = []
    for n in list(range(1, 16)):
        for k in range(n):
            ps = [f"p{i}" for i in range(n)]
            for typed in ({k}, set(range(n)), {k, n - 1}, {0, k}):
                for short in (False, True):
                    a = ["1"] * n; a[k] = "'s'"
                    if short: a = a[:k] if k and max(typed) == k or k == 0 else a
                    bad = k if a[k:k+1] == ["'s'"] else min((t for t in typed if t >= len(a)), default=None)
                    c = vf.Case(f"fun callee({', '.join(p + (': int' if i in typed else '') for i, p in enumerate(ps))}) {{ print('called'); return {', '.join(ps[:8])}; }} print('x'); callee({', '.join(a)});")
                    jobs.append((c, bad))
    for (c, bad), x in zip(jobs, vf.run_cases([c for c, _ in jobs])):
        chk.observed(c.src); chk.count_kind("refused arguments")
        if chk.crash(c, x, "refused argument"): continue
        m = re.search(r'(\d+) "p(\d+)"', x.msg.decode("utf-8", "replace")) if x.msg else None
        if bad is None:
            if x.ok != 1 or x.out != b"xcalled": chk.violation("refused argument: none was wrong", f"{x.ok} {x.msg!r} {x.out!r}\n{c.src.decode()}", c)
        # (the arguments are checked from the last to the first or the other way)
        elif x.ok or x.err != "runtime" or x.out != b"x" or not m or int(m[1]) != int(m[2]) + 1 or f"p{m[2]}: int" not in c.src.decode(): chk.violation("refused argument: which", f"{x.ok} {x.err} {x.msg!r} {x.out!r}, argument {bad + 1} is wrong\n{c.src.decode()}", c)
        elif b"'s'" in c.src and int(m[2]) != bad: chk.violation("refused argument: which", f"{x.msg!r}, argument {bad + 1} is wrong\n{c.src.decode()}", c)
    # recursion within and over the limit
    for k in range(1, 24):
        b.prog([("fundef", "f", [("n", None, None)], B(P(V("n"), S(" ")), ("if", ("bin", ">", V("n"), I(0)), ("return", [call("f", ("bin", "-", V("n"), I(1)))]), None), ("return", [I(7)]))), P(call("f", I(k)))], "recursion")
    b.flush()
    chk.finish(1000, 500)

vf.main(main)
