from common import *

def main():
    chk = vf.Check("C04", rule="distinct (output, outcome) pairs of random programs run against the reference evaluator")
    r = chk.rng
    b = model.Batch(chk)
    import random
    for i in range(chk.scale(5000, 90000)):
        g = gen.Gen(random.Random(r.random()), wild=r.choice([0, 0.003, 0.01]), trace=r.choice([0, .1, .3]), size=r.choice([6, 15, 30, 50]))
        b.prog(g.program(), "random program", style=r.randrange(2), parens=r.choice([0, 0, .15]), heap=1 << 18)
        if chk.enough(): break
    for i in range(chk.scale(2500, 40000)):
        b.prog(scopes(r), "scoping", heap=1 << 18)
        b.prog(flow(r), "control flow", heap=1 << 18)
        if i % 4 == 0: b.prog(breaks(r), "where breaks are", heap=1 << 18)
        if chk.enough(): break
    b.flush()
    chk.finish(1000, 500)

NAMES = ["a", "b", "c", "d"]

def scopes(r):
    """Few names, many functions: every read depends on which scope a name belongs to at that time."""
    n = [0]
    def fn(d, funs):
        n[0] += 1
        name = f"f{n[0]}"
        ps = [(p, None, None) for p in r.sample(NAMES, r.randrange(0, 3))]
        return name, ("fundef", name, ps, B(*body(d - 1, funs + [name], True, r.randrange(1, 6)))), len(ps)
    def expr(funs):
        x = r.random()
        if x < 0.5: return V(r.choice(NAMES))
        if x < 0.6: return ("bin", "+", V(r.choice(NAMES)), I(r.randrange(1, 9)))
        if x < 0.75 and funs: return call(r.choice(funs[-4:]), *[I(r.randrange(100)) for _ in range(r.randrange(3))])
        if x < 0.8: return V("saved")
        return I(r.randrange(100, 1000))
    def body(d, funs, infun, k):
        out, funs = [], list(funs)
        for _ in range(k):
            x = r.random()
            if x < 0.35: out.append(X(asg(r.choice(NAMES), expr(funs))))
            elif x < 0.6: out.append(P(V(r.choice(NAMES)), S(" ")))
            elif x < 0.75 and d > 0:
                nm, f, _ = fn(d, funs)
                out.append(f)
                if r.random() < .5: out.append(X(asg(nm + "x", V(nm)))); funs.append(nm + "x")
                funs.append(nm)
            elif x < 0.85 and funs: out.append(P(call(r.choice(funs[-4:]), I(r.randrange(50))), S(";")))
            elif x < 0.92: out.append(("if", ("bin", "<", I(r.randrange(4)), I(2)), B(*body(0, funs, infun, 2)), None))
            elif infun and x < 0.97: out.append(("return", [expr(funs)]))
            elif funs: out.append(X(("asg", [("sel", V("reg"), S(r.choice(["x", "y"])))], V(r.choice(funs)))))
        if infun and r.random() < .6: out.append(("return", [r.choice([expr(funs), V(funs[-1]) if d > 0 and funs else expr(funs)])]))
        return out
    top = [X(asg(v, I(i))) for i, v in enumerate(NAMES)] + [X(asg("reg", ("map", []))), X(asg("saved", I(-1)))]
    if r.random() < .2: top.pop(r.randrange(4))
    top += body(3, [], False, r.randrange(6, 14))
    for k in "xy":
        top.append(("if", ("bin", "!=", dot("reg", k), NONE), P(call(dot("reg", k), I(7))), None) if r.random() < .3 else P(call("typename", dot("reg", k))))
    # `==` on functions is an error: use isCallable instead
    top = [("if", call("isCallable", s[1][2]), s[2], None) if s[0] == "if" and s[1][0] == "bin" and s[1][1] == "!=" else s for s in top]
    return top

def flow(r):
    """Nested loops and branches; prints a trace of the path taken."""
    c = [0]
    def st(d, loop):
        c[0] += 1
        x = r.random()
        if d == 0 or x < 0.2: return P(S(f"{c[0]},"))
        if x < 0.35: return ("if", cond(), st(d - 1, loop), st(d - 1, loop) if r.random() < .6 else None)
        if x < 0.42:
            # bodies that aren't blocks
            v = f"i{c[0]}"
            step = ("bin", "<", asg(v, ("bin", "+", V(v), I(1))), I(r.randrange(0, 5)))
            b = r.choice([X(asg("t", ("bin", "+", V("t"), I(1)))), P(S(f"{c[0]};")), P(V(v)), ("if", cond(), ("break",), P(S("e"))), ("if", cond(), P(S("y")), None), ("break",), st(d - 1, True)])
            return B(X(asg(v, I(0))), ("while", step, b) if r.random() < .6 else ("do", b, step))
        if x < 0.55:
            v = f"i{c[0]}"
            inc = X(asg(v, ("bin", "+", V(v), I(1))))
            ss = [st(d - 1, True) for _ in range(r.randrange(1, 4))]
            pos = r.randrange(0, len(ss) + 1)
            lim = I(r.randrange(0, 5))
            first = B(inc, *ss)
            if r.random() < .5: return B(X(asg(v, I(0))), ("while", ("bin", "<", V(v), lim), first))
            return B(X(asg(v, I(0))), ("do", first, ("bin", "<", V(v), lim)))
        if x < 0.7 and loop: return ("if", cond(), ("break",), None) if r.random() < .8 else B(P(S("brk,")), ("break",))
        if x < 0.75: return ("if", cond(), B(P(S("ret,")), ("return", [I(c[0])])), None)
        if x < 0.78: return ("while", TRUE, B(st(d - 1, True), ("break",)))
        return B(*[st(d - 1, loop) for _ in range(r.randrange(0, 4))])
    def cond():
        c[0] += 1
        x = r.random()
        v = V("t")
        step = ("asg", [v], ("bin", "%", ("bin", "+", ("bin", "*", v, I(7)), I(r.randrange(1, 30))), I(31)))
        if x < 0.5: return ("bin", r.choice(["<", ">"]), step, I(r.randrange(31)))
        if x < 0.7: return (r.choice(["and", "or"]), ("bin", "<", step, I(15)), ("bin", ">", ("asg", [v], ("bin", "%", ("bin", "+", v, I(11)), I(31))), I(9)))
        if x < 0.8: return ("un", "not", ("bin", "==", ("bin", "%", step, I(2)), I(0)))
        return r.choice([TRUE, FALSE])
    f = ("fundef", "go", [("t", None, None)], B(*[st(4, False) for _ in range(r.randrange(1, 5))], P(S("end t="), V("t"))))
    return [f] + [s for i in range(3) for s in (P(call("go", I(r.randrange(31))), NL),)]

def breaks(r):
    """Breaks in loops, in functions that are in loops, in loops that are in functions: it's the closest loop of the same function that they end, if any."""
    c = [0]
    def st(d, loop, bad):
        c[0] += 1
        k = c[0]
        x = r.random()
        if d == 0 or x < .1:
            if (loop or r.random() < bad) and r.random() < .6: return ("break",)
            return P(S(f"{k},"))
        if x < .25: return ("if", r.choice([TRUE, TRUE, FALSE]), st(d - 1, loop, bad), st(d - 1, loop, bad) if r.random() < .5 else None)
        if x < .5:
            v = f"i{k}"
            body = B(X(asg(v, ("bin", "+", V(v), I(1)))), *[st(d - 1, True, bad) for _ in range(r.randrange(1, 3))], P(S(f"w{k},")))
            return B(X(asg(v, I(0))), r.choice([("while", ("bin", "<", V(v), I(2)), body), ("do", body, ("bin", "<", V(v), I(2)))]), P(S(f"x{k},")))
        if x < .7:
            # a body that's a block or not, which is called or not, with defaults and types
            body = st(d - 1, False, bad) if r.random() < .4 else B(*[st(d - 1, False, bad) for _ in range(r.randrange(1, 3))], P(S(f"r{k},")))
            ps = r.choice([[], [("a", None, None)], [("a", None, I(1))], [("a", V("int"), I(1))]])
            return B(("fundef", f"f{k}", ps, body), *([X(call(f"f{k}", *([I(2)] if ps else [])))] if r.random() < .8 else []), P(S(f"c{k},")))
        if x < .78:
            body = st(d - 1, False, bad)
            return B(X(asg(f"m{k}", ("map", [(("key", "g"), ("fun", [], body)), (("key", "z"), I(1))]))), X(call(dot(f"m{k}", "g"))), P(S(f"m{k},")))
        return B(*[st(d - 1, loop, bad) for _ in range(r.randrange(1, 4))])
    bad = r.choice([0, 0, 0, .1, .3])
    return [P(S("start,"))] + [st(r.randrange(2, 6), False, bad) for _ in range(r.randrange(1, 4))] + [P(S("end"))]

vf.main(main)
