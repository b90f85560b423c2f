"""Programs that build and alter shared object graphs and print what identity and sharing determine."""
from gen import I, F, S, V, call, dot, asg, X, B, P, NONE, TRUE, FALSE
NL = S("\n")

def graph(r, n=30):
    kinds = {}
    prog = [("fundef", "mk", [("x", None, None)], B(X(asg("c", I(0))), ("fundef", "g", [("v", None, None)], B(
                X(("asg", [("sel", V("x"), call("count", V("x")))], V("v"))), ("return", [call("count", V("x")), V("x"), V("c")]))), ("return", [V("g")]))),
            ("fundef", "mk2", [("x", None, None)], B(("fundef", "h", [], B(("fundef", "k", [("d", None, ("list", [V("x")]))], ("return", [("sel", V("d"), I(0))])), ("return", [V("k")]))), ("return", [call("h")])))]
    def names(k): return [v for v in kinds if kinds[v] == k]
    nv = [0]
    def new(k):
        nv[0] += 1
        v = r.choice(list(kinds)) if len(kinds) > 9 else f"v{nv[0]}"
        return v
    def leaf():
        x = r.random()
        if x < .4 and kinds: return V(r.choice(list(kinds)))
        if x < .55: return I(r.randrange(-5, 1000))
        if x < .65: return S("s%d" % r.randrange(100))
        if x < .7: return F("%d.5" % r.randrange(9))
        if x < .75: return NONE
        if x < .8: return TRUE
        if x < .86: return V(r.choice(["int", "String", "any", "print"]))
        if x < .9: return ("un", "?", V("int"))
        if x < .94: return ("list", [I(r.randrange(9)), S("q")])
        return call(dot("string", "cat"), S("x"), S(str(r.randrange(50))))
    for _ in range(n):
        x = r.random()
        if x < .2 or not kinds:
            v = new("l"); prog.append(X(asg(v, ("list", [leaf() for _ in range(r.randrange(0, 5))])))); kinds[v] = "l"
        elif x < .33:
            v = new("m"); prog.append(X(asg(v, ("map", [(("key", r.choice("abc")) if r.random() < .6 else r.choice([I(r.randrange(5)), S("k%d" % r.randrange(5)), TRUE, NONE, F("0.5")]), leaf()) for _ in range(r.randrange(0, 5))])))); kinds[v] = "m"
        elif x < .4:
            w = r.choice(list(kinds)); v = new("?"); prog.append(X(asg(v, V(w)))); kinds[v] = kinds[w]
        elif x < .52 and names("l"):
            v = r.choice(names("l")); prog.append(X(("asg", [("sel", V(v), call("count", V(v)))], leaf())))
        elif x < .62 and names("m"):
            v = r.choice(names("m")); prog.append(X(("asg", [("sel", V(v), ("key", r.choice("abcd")) if r.random() < .5 else r.choice([I(r.randrange(8)), S("k%d" % r.randrange(8))]))], leaf())))
        elif x < .68 and names("l"):
            w = r.choice(names("l")); v = new("f"); prog.append(X(asg(v, call("mk", V(w))))); kinds[v] = "f"
        elif x < .72 and kinds:
            w = r.choice(list(kinds)); v = new("g"); prog.append(X(asg(v, call("mk2", V(w))))); kinds[v] = "g" + kinds[w]
        elif x < .76 and [w for w in kinds if kinds[w][0] == "g"]:
            w = r.choice([w for w in kinds if kinds[w][0] == "g"]); k = kinds[w][1:]; v = new(k); prog.append(X(asg(v, call(w)))); kinds[v] = k
        elif x < .8 and names("f"):
            v = r.choice(names("f")); prog.append(X(("asg", [V("n"), V("xx"), V("cc")], call(v, leaf())))); prog.append(P(V("n"), S(" "), call("count", V("xx")), V("cc"), NL))
        elif x < .84:
            b = "b%d" % r.randrange(3); s = "s%d" % r.randrange(3); k = r.randrange(5, 12)
            prog += [X(asg(b, call(dot("buffer", "new"), I(k)))), X(asg(s, call(dot("buffer", "sliceUp"), V(b), I(r.randrange(0, 3)), I(r.randrange(1, k - 2))))),
                     X(("asg", [("sel", V(b), I(r.randrange(4)))], I(r.randrange(256))))]
            kinds[b] = kinds[s] = "b"
        elif x < .87 and names("b"):
            prog.append(P(V(r.choice(names("b"))), NL))
            prog.append(X(("asg", [("sel", V(r.choice(names("b"))), I(0))], I(r.randrange(256)))))
        elif x < .9:
            # garbage of various sizes, also bigger than the pool's blocks
            prog.append(X(("list", [("list", [I(i) for i in range(r.randrange(0, 20))]), ("map", [(I(i), S("x" * i)) for i in range(r.randrange(0, 12))]), S("y" * r.randrange(0, 600))])))
        elif x < .93 and names("m"):
            prog.append(P(call("count", call("keysof", V(r.choice(names("m"))))), S(" "), NL))
        else:
            v = r.choice(list(kinds))
            k = kinds[v]
            if k == "l":
                prog.append(P(call("count", V(v)), NL))
                prog.append(("if", ("bin", ">", call("count", V(v)), I(0)), B(X(asg("e", ("sel", V(v), ("bin", "-", call("count", V(v)), I(1))))), show("e")), None))
            elif k == "m":
                prog.append(P(call("count", V(v)), NL)); prog.append(X(asg("e", dot(v, r.choice("abcd"))))); prog.append(show("e"))
            elif k == "b": prog.append(P(V(v), NL))
            else: prog.append(P(call("typename", V(v)), NL))
    for v in kinds:
        if kinds[v] in "lm" and kinds[v]:
            prog.append(P(S(v), call("count", V(v)), NL))
            if kinds[v] == "l":
                prog.append(X(asg("i", I(0))))
                prog.append(("while", ("bin", "<", V("i"), call("count", V(v))), B(X(asg("e", ("sel", V(v), V("i")))), show("e"), X(asg("i", ("bin", "+", V("i"), I(1)))))))
            else:
                prog.append(X(asg("ks", call("keysof", V(v)))))
                prog.append(X(asg("i", I(0))))
                prog.append(("while", ("bin", "<", V("i"), call("count", V("ks"))), B(P(("sel", V("ks"), V("i")), S(":")), X(asg("e", ("sel", V(v), ("sel", V("ks"), V("i"))))), show("e"), X(asg("i", ("bin", "+", V("i"), I(1)))))))
    return prog

def show(e):
    """Prints a value without descending (graphs may be cyclic)."""
    T = call("typename", V(e))
    return ("if", ("or", ("bin", "==", T, S("List")), ("bin", "==", T, S("Map"))), P(T, call("count", V(e)), NL),
            ("if", ("or", ("bin", "==", T, S("int")), ("or", ("bin", "==", T, S("String")), ("or", ("bin", "==", T, S("float")), ("bin", "==", T, S("Buffer"))))), P(V(e), NL), P(T, NL)))
