from common import *

def main():
    chk = vf.Check("C07", rule="distinct printed histories (lookups, counts, key lists) of maps")
    r = chk.rng
    b = model.Batch(chk)
    pools = [
        lambda: I(r.randrange(0, 12)), lambda: I(r.randrange(-300, 300)), lambda: I(r.randrange(0, 40) * (1 << r.choice([4, 8, 16, 32, 40]))),
        lambda: S(r.choice("abcdefgh")), lambda: S("k%d" % r.randrange(200)), lambda: F("%d.%d" % (r.randrange(20), r.choice([0, 5, 25]))), lambda: r.choice([TRUE, FALSE, NONE]),
        lambda: r.choice([F("0.0"), F("-0.0"), I(0), S(""), S("0"), FALSE, I(1), F("1.0"), TRUE, S("1"), S("true"), S("none"), NONE]),
        lambda: I(r.choice([(1 << 63) - 1, -(1 << 63), -1, (1 << 31), -(1 << 31), 1 << 32, (1 << 32) + 1])), lambda: S("é" * r.randrange(1, 5) + r.choice("xyz")), lambda: S("x" * r.randrange(0, 60)),
    ]
    for n in range(chk.scale(3000, 40000)):
        ks = r.sample(pools, r.randrange(1, 4))
        seen = []
        def key():
            if seen and r.random() < .5: return r.choice(seen)
            k = r.choice(ks)()
            seen.append(k)
            return k
        size = r.choice([3, 8, 20, 60, 150])
        lit = [(key(), I(i)) for i in range(r.choice([0, 0, 2, 5, 9, 17, 40]))]
        prog = [X(asg("m", ("map", lit))), X(asg("o", ("map", []))), X(asg("al", V("m"))), ("fundef", "put", [("q", None, None), ("k", None, None), ("v", None, None)], X(("asg", [("sel", V("q"), V("k"))], V("v"))))]
        for i in range(size):
            m = V(r.choice(["m", "m", "m", "o", "al"]))
            x = r.random()
            k = key()
            if x < .45:
                v = r.choice([I(i), S(f"v{i}"), NONE, ("list", [I(i)]), m if r.random() < .05 else I(-i)])
                if r.random() < .2: prog.append(X(call("put", m, k, v)))
                elif k[0] == "str" and k[1].isalpha() and k[1].isascii() and r.random() < .5 and k[1] not in ("none", "true", "false"): prog.append(X(("asg", [("sel", m, ("key", k[1]))], v)))
                else: prog.append(X(("asg", [("sel", m, k)], v)))
            elif x < .8: prog.append(P(("sel", m, k), S(" ")))
            elif x < .88: prog.append(P(call("count", m), NL))
            elif x < .93: prog.append(P(call("keysof", m), NL))
            elif x < .95: prog.append(P(m, NL))
            elif x < .97: prog.append(X(asg("o", ("map", [(key(), I(-1))]))))
            else: prog.append(("if", ("bin", "==", call("typename", ("sel", m, k)), S("None")), P(S("absent ")), P(S("present "))))
        prog.append(P(V("m"), V("o"), V("al"), call("keysof", V("m")), call("count", V("m"))))
        gc = r.random() < .12 and size <= 60
        b.prog(prog, "map history" + (" under collection" if gc else ""), heap=1 << 18, gcper=r.choice([3, 17, 41]) if gc else 0)
        if chk.enough(): break
    # growth: many keys, through loops
    for n in list(range(1, 40)) + [63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 513, 1000, 2050]:
        for stride in (1, 8, 16, 1 << 20, -1, 1 << 40):
            if n > 300 and stride not in (1, 8): continue
            for kind in (0, 1, 2):
                if kind == 2 and n > 300: continue
                key = ("bin", "*", V("i"), I(stride))
                if kind == 1: key = call(dot("string", "cat"), S("k"), call("toString", ("bin", "%", V("i"), I(1000))), S("."), call("toString", ("bin", "/", V("i"), I(1000))))
                if kind == 2: key = ("bin", "*", V("i"), F("0.25"))
                if kind and stride != 1: continue
                loop = lambda *body: B(X(asg("i", I(0))), ("while", ("bin", "<", V("i"), I(n)), B(*body, X(asg("i", ("bin", "+", V("i"), I(1)))))))
                prog = [X(asg("m", ("map", [])))]
                prog.append(loop(X(("asg", [("sel", V("m"), key)], ("bin", "*", V("i"), V("i")))), ("if", ("bin", "!=", call("count", V("m")), ("bin", "+", V("i"), I(1))), P(S("count? "), V("i"), NL), None)))
                prog.append(loop(("if", ("bin", "!=", ("sel", V("m"), key), ("bin", "*", V("i"), V("i"))), P(S("lost "), V("i"), NL), None)))
                prog.append(loop(X(("asg", [("sel", V("m"), key)], ("un", "-", V("i"))))))
                prog.append(X(asg("s", I(0))))
                prog.append(loop(X(asg("s", ("bin", "+", V("s"), ("sel", V("m"), key))))))
                prog.append(X(asg("ks", call("keysof", V("m")))))
                prog.append(loop(("if", ("bin", "!=", ("sel", V("ks"), V("i")), key), P(S("order "), V("i"), NL), None)))
                prog.append(P(call("count", V("m")), S(" "), V("s"), ("sel", V("m"), I(-5)), ("sel", V("m"), I(10**15 + 1)), ("sel", V("m"), S("nokey"))))
                it = ref.Interp(max_steps=10**7)
                out, err = it.run(prog)
                b.add(gen.source(prog), out, err, "map growth", heap=1 << 22, sig=(n, stride, kind), abort_at=0, cpu=60)
    # at every count, keys that are there and keys that aren't
    for n, key, no in ((chk.scale(4200, 40000), "i * 3", "i * 3 + 1"), (2100, "string.cat('k', toString(i))", "string.cat('n', toString(i))"), (2100, "i * 0.5", "i * 0.5 + 0.25"), (4100, "i * 1048576", "0 - 1 - i")):
        src = f"""m = {{}}; bad = 0; i = 0;
while i < {n}: {{ m[{key}] = i; if m[{key}] != i: bad = bad + 1; if m[{no}] != none: bad = bad + 1; if count(m) != i + 1: bad = bad + 1; if i % 7 == 0: m[{key}] = i; i = i + 1; }}
print(bad, ' ', count(m));"""
        b.add(src, f"0 {n}".encode(), None, "every count", heap=1 << 24, sig=src, abort_at=0, cpu=20)
    # what can't be a key
    for k in (V("print"), V("f"), V("int"), ("un", "?", V("int")), ("bin", "|", V("int"), V("None")), call(dot("buffer", "new"), I(1))):
        b.prog([("fundef", "f", [], B()), X(asg("m", ("map", [(I(1), I(2))]))), P(("sel", V("m"), k)), P(S("a")), X(("asg", [("sel", V("m"), k)], I(3))), P(S("b"))], "unhashable key")
        b.prog([("fundef", "f", [], B()), X(asg("n", I(5))), P(S("a")), X(asg("m", ("map", [(I(1), I(2)), (k, I(3)), (I(4), I(5))]))), P(S("b"))], "unhashable key in a literal")
    # keys are copies, equal to what they were when inserted, whatever they are made of
    for src, exp, err in OWN:
        b.add(src, exp, err, "compound keys", heap=1 << 18)
        b.add(src, exp, err, "compound keys", heap=1 << 18, gcper=3)
    # .. in random histories: what the program does later to the lists and maps it used as keys
    cases = []
    for n in range(chk.scale(500, 8000)):
        src, exp, objs, vals = ["m = {};"], [], [], {}
        def show(v):
            if type(v) is list: return "[" + ", ".join(map(show, v)) + "]"
            if type(v) is dict: return "{" + ", ".join(f"{show(a)}: {show(b)}" for a, b in v.items()) + "}"
            return str(v)
        def lit(v):
            if type(v) is list: return "[" + ", ".join(map(lit, v)) + "]"
            if type(v) is dict: return "{" + ", ".join(f"{a}: {lit(b)}" for a, b in v.items()) + "}"
            return repr(v)
        def make(d=0):
            t = f"t{n}_{len(objs)}_{r.getrandbits(40)}"
            x = r.random()
            if x < .5: return [t] + [r.choice([r.randrange(9), "s", make(d + 1) if d < 2 else 1]) for _ in range(r.choice([0, 1, 2, 8, 9]))]
            return {"k": t, **{k: r.choice([r.randrange(9), "s", make(d + 1) if d < 2 else 1]) for k in r.sample("abcdefghij", r.choice([0, 1, 3, 6, 9]))}}
        keys = []
        for i in range(r.choice([2, 4, 9, 14, 20, 20, r.randrange(20, 90), r.randrange(90, 300) if n % 10 == 0 else 30])):
            if r.random() < (.7 if i < 20 else .9) or len(objs) > (4 if i < 20 else 12):
                k = r.choice([i * 7, f"simple{i}"]); keys.append(show(k)); src.append(f"m[{lit(k)}] = {i};"); vals[i] = 1; continue
            k = make(); objs.append(k); keys.append(show(k))
            src.append(f"o{len(objs)} = {lit(k)};" + (f" m[o{len(objs)}] = {i};"))
            for _ in range(r.randrange(3)):
                j = r.randrange(len(objs)); o = objs[j]; at = f"o{j+1}"
                while True:
                    inner = [(q, v) for q, v in (enumerate(o) if type(o) is list else o.items()) if type(v) in (list, dict)]
                    if not inner or r.random() < .5: break
                    q, o = r.choice(inner); at = f"({at}[{lit(q)}])"
                q = r.choice(list(range(len(o) + 1)) if type(o) is list else list(o) + ["zz"])
                nv = r.choice(["X", 77, [5]])
                if type(o) is list and q == len(o): o.append(nv)
                else: o[q] = nv
                src.append(f"{at}[{lit(q)}] = {lit(nv)};")
        src.append("print(keysof(m), '|', count(m), '|', " + ", ".join(f"o{i+1}, ' '" for i in range(min(5, len(objs)))) + ("" if not objs else ", ") + "'\\n');")
        e = "[" + ", ".join(keys) + f"]|{len(keys)}|" + "".join(show(o) + " " for o in objs[:5]) + "\n"
        gc = r.choice([0, 0, 0, 3, 11])
        c = vf.Case("\n".join(src), heap=1 << 18, gcper=gc); c.expect = e.encode(); c.tag = "compound keys in a history"
        if objs: cases.append(c)
    done = 0
    for c, x in zip(cases, vf.run_cases(cases)):
        chk.observed(c.src); chk.count_kind(c.tag)
        if chk.crash(c, x, c.tag): continue
        # Keys that meet in the table are compared, which lists and maps can't be.
        if x.ok == 0 and b"doesn't implement Object_Compare" in x.msg and x.out == b"": continue
        done += 1
        if x.ok != 1 or x.out != c.expect: chk.violation(f"{c.tag}: output", f"{model.differ(x.out, c.expect) if hasattr(model, 'differ') else (x.out[:500], c.expect[:500])}; {x.ok} {x.err} {x.msg[:200]!r}\n{c.src.decode()[:2000]}", c)
    if done < len(cases) // 4 and not chk.violations: raise vf.HarnessError(f"only {done} of {len(cases)} histories of compound keys ended")
    for n in range(chk.scale(300, 6000)):
        ss = []
        for _ in range(r.randrange(1, 9)):
            s = "".join(r.choice("aé日😀\n b") for _ in range(r.randrange(0, 9)))
            if s not in ss: ss.append(s)
        prog = [X(asg("m", ("map", [(S(s), I(i)) for i, s in enumerate(ss[:3])])))] + [X(("asg", [("sel", V("m"), S(s))], I(i))) for i, s in enumerate(ss) if i >= 3] + [X(asg("ks", call("keysof", V("m"))))]
        for i, s in enumerate(ss):
            kk = ("sel", V("ks"), I(i))
            prog.append(P(call("count", kk), S(":"), kk, S(":"), ("sel", kk, I(0)), ("sel", kk, I(len(s) - 1)), ("sel", kk, I(len(s))), ("sel", V("m"), kk), ("bin", "==", kk, S(s)), NL))
        b.prog(prog, "keys read back", heap=1 << 18, gcper=r.choice([0, 0, 5]))
    b.flush()
    chk.finish(1000, 500)

class Err:
    kind, msg = "runtime", None
OWN = [
 ("k = [1, 'a']; m = {}; n = {}; m[k] = 1; n[k] = 2; print(count(m), count(n)); k[0] = 9; print((keysof(m))[0], (keysof(n))[0], k, '\\n');", b"11[1, a][1, a][9, a]\n", None),
 ("k = {a: [1]}; m = {}; m[k] = 1; (k.a)[0] = 2; k.b = 1; print((keysof(m))[0], k, '\\n'); m[k] = 2; print(count(m));", b"{a: [1]}{a: [2], b: 1}\n2", None),
 ("x = {}; x[[1]] = 1; print('once'); x[[1]] = 2; print('twice');", b"once", Err),
 ("x = {}; x[{a: 1}] = 1; print('once'); x = {{a: 1}: 1, {a: 1}: 2}; print('twice');", b"once", Err),
 ("l = []; m = {}; i = 0; while i < 40: { m[[i]] = i; i = i + 1; } print(count(m), (keysof(m))[7]);", b"40[7]", None),
]
vf.main(main)
