from common import *

ATOMS = ["Type", "None", "int", "bool", "float", "String", "Buffer", "List", "Map", "File", "Directory", "NullableType", "SumType", "any", "Func", "NFunc", "Numeric", "Callable", "Collection"]

def main():
    chk = vf.Check("C06", rule="distinct (pattern, value) batches decided by istypeof, parameter assertions, type() and typename()")
    r = chk.rng
    b = model.Batch(chk)
    pre = [("fundef", "fn", [("x", None, None)], ("return", [V("x")])), X(asg("bf", call(dot("buffer", "new"), I(2)))),
           ("fundef", "tr", [("x", None, None)], B(P(S("<"), V("x"), S(">")), ("return", [V("x")])))]
    def value(d):
        x = r.random()
        if d == 0 or x < .6:
            return r.choice([NONE, I(3), I(-1), TRUE, FALSE, F("1.5"), S(""), S("abc"), V("fn"), V("print"), V("toString"), V("bf"), V("int"), V("any"), V("None"), V("Numeric"),
                             ("un", "?", V("int")), ("bin", "|", V("int"), V("String")), ("list", []), ("map", []), V("math"), V("Type")])
        if x < .8: return ("list", [value(d - 1) for _ in range(r.randrange(0, 4))])
        return ("map", [(key(), value(d - 1)) for _ in range(r.randrange(0, 4))])
    def key():
        return r.choice([("key", "a"), ("key", "b"), ("key", "c"), I(1), S("a"), TRUE, F("0.5")])
    def pattern(d, of=None):
        """A pattern; biased towards matching the value `of`."""
        x = r.random()
        if of is not None and x < .75:
            k = of[0]
            y = r.random()
            if k == "list" and y < .7:
                n = len(of[1]) + (r.choice([0, 0, 0, -1, 1]))
                return ("list", [pattern(d - 1, of[1][i] if i < len(of[1]) else None) for i in range(max(n, 0))])
            if k == "map" and y < .7:
                ks = [kv for kv in of[1] if r.random() < .8]
                if r.random() < .15: ks.append((key(), None))
                return ("map", [(kk, pattern(d - 1, vv)) for kk, vv in ks])
            base = {"int": "int", "none": "None", "true": "bool", "false": "bool", "flt": "float", "str": "String", "list": "List", "map": "Map", "un": "int"}.get(k)
            if base is None: base = r.choice(["any", "Func", "NFunc", "Buffer", "Type", "SumType", "Callable"])
            if y < .4: return V(base)
            if y < .6: return ("un", "?", V(base))
            if y < .8:
                o = pattern(d - 1)
                return ("bin", "|", V(base), o) if r.random() < .5 else ("bin", "|", o, V(base))
            return V(r.choice(ATOMS))
        x = r.random()
        if d <= 0 or x < .5: return V(r.choice(ATOMS))
        if x < .6: return ("un", "?", pattern(d - 1))
        if x < .75: return ("bin", "|", pattern(d - 1), pattern(d - 1))
        if x < .85: return ("list", [pattern(d - 1) for _ in range(r.randrange(0, 3))])
        if x < .95: return ("map", [(key(), pattern(d - 1)) for _ in range(r.randrange(0, 3))])
        return r.choice([I(1), S("int"), NONE, V("fn"), V("print"), F("1.0"), TRUE])  # not a pattern
    acc = Acc(b, "istypeof", 30, pre, heap=1 << 18)
    for _ in range(chk.scale(12000, 200000)):
        v = value(r.randrange(0, 4)); p = pattern(r.randrange(0, 4), v)
        acc.add(P(call("istypeof", p, v), NL))
        if chk.enough(): break
    # all atoms against all plain values
    for p in ATOMS:
        for v in [NONE, I(3), TRUE, F("1.5"), S("a"), V("fn"), V("print"), V("bf"), V("int"), V("any"), ("un", "?", V("int")), ("bin", "|", V("int"), V("None")), ("list", []), ("map", []), V("math"), V("toString")]:
            acc.add(P(call("istypeof", V(p), v), call("istypeof", ("un", "?", V(p)), v), call("istypeof", ("bin", "|", V(p), V("int")), v), NL))
            acc.add(P(call("typename", v), ("bin", "==", call("type", v), V(p)) if p not in ("any", "Numeric", "Callable", "Collection") else S("-"), NL))
    acc.flush()
    # assertions on the parameters: the call happens only if they all hold
    for _ in range(chk.scale(4500, 60000)):
        n = r.randrange(1, 5)
        ps, args = [], []
        for i in range(n):
            v = value(2)
            if r.random() < .15: v = NONE
            ty = pattern(2, v if r.random() < .9 else None) if r.random() < .8 else None
            if ty is not None and r.random() < .2: ty = call("tr", ty)
            df = None
            if r.random() < .25: df = r.choice([value(1), call("tr", I(3))])
            ps.append((f"p{i}", ty, df)); args.append(call("tr", v) if r.random() < .2 else v)
        if r.random() < .2: args.pop()
        f = ("fundef", "f", ps, B(P(S("in "), *[V(p[0]) for p in ps]), ("return", [V(ps[0][0])])))
        b.prog(pre + [f, P(S("a ")), P(call("f", *args)), P(S(" z"))], "parameter assertion", heap=1 << 18)
        if chk.enough(): break
    b.flush()
    # big patterns: one item of many is wrong
    acc = Acc(b, "big pattern", 20, pre, heap=1 << 18)
    good = [(V("int"), I(1), S("a")), (V("String"), S("x"), I(1)), (("un", "?", V("int")), NONE, S("")), (("bin", "|", V("int"), V("float")), F("1.5"), NONE), (("list", [V("int")]), ("list", [I(1)]), ("list", [S("a")]))]
    for n in chk.scale([1, 2, 3, 5, 6, 8, 9, 12, 16, 20, 33, 70], range(1, 120)):
        its = [good[i % 5] for i in range(n)]
        for k in sorted(set([0, n - 1] + [r.randrange(n) for _ in range(6)])) + [None]:
            vals = [x[2] if i == k else x[1] for i, x in enumerate(its)]
            acc.add(P(call("istypeof", ("list", [x[0] for x in its]), ("list", vals)), NL))
            keys = [("key", f"k{i}") if i % 3 else I(i) for i in range(n)]
            acc.add(P(call("istypeof", ("map", list(zip(keys, [x[0] for x in its]))), ("map", list(zip(keys, vals)))), NL))
            if n > 24: continue
            sm = V("Buffer")
            for i in range(n): sm = ("bin", "|", sm, ("list", [V("int"), V("String") if i % 2 else V("float"), *[V("int")] * i]))
            acc.add(P(call("istypeof", sm, ("list", [I(1), S("q") if (k or 0) % 2 else F("2.5"), *[I(2)] * (k or 0)])), NL))
    acc.flush()
    b.flush()
    # patterns that contain themselves
    for how in ("p = [int]; p[0] = p;", "p = {a: int}; p.a = p;", "p = [int, [String]]; (p[1])[0] = p;", "q = [int]; p = q | String; q[0] = p;", "q = [int]; p = ?q; q[0] = p;", "q = {k: int}; p = [q]; q.k = p;", "p = [int]; p[0] = ?p;", "p = [int]; p[0] = p | int;", "p = [int]; p[0] = int | p;"):
        for v in ("1", "'s'", "none", "[]", "[1]", "[[1]]", "[[[]]]", "{}", "{a: 1}", "{a: {a: 1}}", "{k: [1]}", "[1, ['x']]", "[1, [[1, ['x']]]]", "c", "d", "[c]", "[none]", "[{k: 1}]", "[{k: [{k: [2]}]}]"):
            src = f"{how} c = [1]; c[0] = c; d = {{a: 1}}; d.a = d; print('a'); x = istypeof(p, {v}); print(x);"
            mod = gen_self(how, v)
            c = vf.Case(src, heap=1 << 18, gcper=r.choice([0, 0, 3]))
            for x in vf.run_cases([c]):
                chk.observed(src); chk.count_kind("patterns that contain themselves")
                if chk.crash(c, x, "cyclic pattern"): continue
                exp = b"a" if mod is None else b"atrue" if mod else b"afalse"
                if x.out != exp or (x.ok != 1) != (mod is None) or mod is None and x.err != "runtime": chk.violation("patterns that contain themselves", f"{src}: {x.ok} {x.err} {x.msg!r} {x.out!r}, expected {exp!r}", c)
    # many parameters: the one that's wrong is the one that's blamed
    cases = []
    for n in range(1, 13):
        for k in range(n):
            for how in range(2):
                ts = [r.choice(["int", "float", "String", "?int", "int | None", "[int]"]) for _ in range(n)]
                vs = {"int": "1", "float": "1.5", "String": "'s'", "?int": "none", "int | None": "2", "[int]": "[3]"}
                src = "fun f(" + ", ".join(f"p{i}: {t}" if how == 0 or i in (k, k + 1) or r.random() < .5 else f"p{i}" for i, t in enumerate(ts)) + ") print('in');\nprint('a');\nf(" + ", ".join("true" if i == k else vs[t] for i, t in enumerate(ts)) + ");\nprint('z');"
                c = vf.Case(src, heap=1 << 18); c.tag = (n, k); cases.append(c)
    for c, x in zip(cases, vf.run_cases(cases)):
        chk.observed(c.src); chk.count_kind("parameters out of many that are wrong")
        if chk.crash(c, x, "many parameters"): continue
        n, k = c.tag
        if x.ok or x.err != "runtime" or x.out != b"a" or not x.msg.startswith(b'Argument %d "p%d" ' % (k + 1, k)):
            chk.violation("many parameters: the wrong one isn't refused or isn't the one blamed", f"argument {k + 1} of {n}: ok={x.ok} {x.err} {x.msg!r} {x.out!r}\n{c.src.decode()}", c)
    chk.finish(1000, 500)

def gen_self(how, v):
    """What the model says of a value and of a pattern that contains itself: None if it's an error."""
    N, M, T = ref.NList, ref.NMap, ref.T
    def m(**k):
        o = M()
        for a, x in k.items(): o.put(a, x)
        return o
    i = T["int"]
    h = how.split(";")
    if how.startswith("p = [int]; p[0] = p;"): p = N([i]); p.items[0] = p
    elif how.startswith("p = {a"): p = m(a=i); p.put("a", p)
    elif how.startswith("p = [int, ["): p = N([i, N([T["String"]])]); p.items[1].items[0] = p
    elif "q | String" in how: q = N([i]); p = ref.NSum(q, T["String"]); q.items[0] = p
    elif "p = ?q" in how: q = N([i]); p = ref.NNullable(q); q.items[0] = p
    elif how.startswith("q = {k"): q = m(k=i); p = N([q]); q.put("k", p)
    elif "?p" in how: p = N([i]); p.items[0] = ref.NNullable(p)
    elif "p | int" in how: p = N([i]); p.items[0] = ref.NSum(p, i)
    else: p = N([i]); p.items[0] = ref.NSum(i, p)
    c = N([1]); c.items[0] = c
    d = m(a=1); d.put("a", d)
    val = eval(v.replace("none", "None").replace("c", "c").replace("{", "m(").replace("}", ")").replace(":", "="), {"c": c, "d": d, "m": m})
    def conv(x): return N([conv(y) for y in x]) if type(x) is list else x
    def fix(x):
        if type(x) is M and x is not d:
            for k in list(x.keys): x.put(k, fix(conv(x.get(k)[0])))
        elif type(x) is N and x is not c: x.items = [fix(conv(y)) for y in x.items]
        return x
    try: return ref.istypeof(p, fix(conv(val)))
    except ref.Err: return None

vf.main(main)
