from common import *
import random, corpus, bvm, build, subprocess, resource, concurrent.futures, re

BIG = 1 << 20

def main():
    chk = vf.Check("C15", rule="distinct (program, heap size) executions, and programs at each count around a limit")
    r = chk.rng
    d = corpus.setup(os.path.join(vf.tmpdir(), "corpus"))
    heaps(chk, r, d)
    stacks(chk, r, d)
    depth(chk, r, d)
    counts(chk, r)
    nesting(chk, r)
    exhaust(chk, r)
    huge(chk, r)
    chk.finish(2000, 1000)

def judge(chk, c, x, base, what):
    """base: (out, ok, err, msg) of the execution with plenty of everything."""
    chk.observed((c.src, c.heap, c.variant, what))
    if chk.crash(c, x, what): return
    how = f"{what}, heap {c.heap} ({c.variant}): {x.ok, x.err, x.msg, x.out[-150:]} instead of {base[1], base[2], base[3], base[0][-150:]}\n{c.src[:1200].decode('utf-8', 'replace')}"
    if c.variant == "asan" and (x.leak or x.fds): chk.violation(what + ": something isn't released", f"leak {x.leak}, descriptors {x.fds}; " + how, c)
    if x.ok == 2: return chk.violation(what + ": success with a pending error", how, c)
    if (x.out, x.ok, x.err, x.msg) == tuple(base):
        chk.count("unaffected"); return
    if x.ok: return chk.violation(what + ": a different result when resources are short", how, c)
    if not base[0].startswith(x.out): return chk.violation(what + ": the output isn't a prefix", how, c)
    if x.err != "internal": return chk.violation(what + ": wrong kind of error", how, c)
    if b"heap" not in x.msg.lower() and b"memory" not in x.msg.lower(): return chk.violation(what + ": the error isn't about the heap", how, c)
    chk.count("ran out of heap in order"); chk.count_kind("output kept before running out: " + ("none" if not x.out else "some"))

def heaps(chk, r, d):
    progs = [(n, s) for n, s in corpus.P.items()]
    k = 0
    while k < chk.scale(30, 800):
        g = gen.Gen(random.Random(r.random()), wild=r.choice([0, .02]), trace=0, size=r.choice([8, 20, 40]))
        progs.append(("random program", gen.source(g.program()))); k += 1
    base = vf.run_cases([vf.Case(s, heap=BIG * 4, stdin=corpus.INPUT) for _, s in progs], cwd=d)
    jobs = []
    for (n, s), b in zip(progs, base):
        c = vf.Case(s, heap=BIG * 4)
        if chk.crash(c, b, n): continue
        bb = (b.out, b.ok, b.err, b.msg)
        hs = {0, 1, 8, 100, 1000, 1 << 16, 1 << 17, BIG, 3 * BIG, 16 * BIG}
        # the prelude needs some 9 KB: below that, a few sizes are enough
        hs |= {r.randrange(0, 9000) for _ in range(chk.scale(8, 200))}
        lo, hi = 7500, 30000 if n not in ("big values", "maps", "lists") else 90000
        step = chk.scale((hi - lo) // 55, 24)
        hs |= set(range(lo + r.randrange(step), hi, step))
        for h in sorted(hs):
            jobs.append((bb, n, vf.Case(s, heap=h, stdin=corpus.INPUT, variant="asan" if r.random() < .7 else "asanpool")))
    step = 4000
    for lo in range(0, len(jobs), step):
        part = jobs[lo:lo+step]
        for (bb, n, c), x in zip(part, vf.run_cases([j[2] for j in part], cwd=d)):
            judge(chk, c, x, bb, "heap sweep: " + n)
            if c.heap >= BIG and not x.crashed and (x.out, x.ok, x.err, x.msg) != bb:
                chk.violation("heap sweep: a big heap isn't enough", f"{n}, heap {c.heap}: {x.ok, x.err, x.msg} instead of {bb[1:]}", c)
        if chk.enough(): return
    chk.sample({"programs": len(progs), "heap sizes": len(jobs)})

def stacks(chk, r, d):
    """Stacks of all the small sizes."""
    progs = list(corpus.P.items()) + [("deep expression", "fun f(n) { if n > 1: return 1 + (2 + (3 + f(n - 1))); return [1, [2, [n]]][0]; } print(f(11)); print(count([1, f(3), {a: f(2), b: [f(5)]}]));"),
        ("arguments", "fun f(a, b, c, d, e) { return [a, b, c, d, e], 1, 2, 3, 4, 5, 6, 7; } print(f(1, 2, 3, 4, f(5, 6, 7, 8, 9))); print(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); a, b, c = f(); print(a, b, c);")]
    for k in range(chk.scale(25, 500)):
        progs.append(("random program", gen.source(gen.Gen(random.Random(r.random()), wild=r.choice([0, .02]), trace=0, size=r.choice([8, 20, 40])).program())))
    base = vf.run_cases([vf.Case(s, heap=BIG * 4, stdin=corpus.INPUT) for _, s in progs], cwd=d)
    jobs = []
    for k, ((n, s), b) in enumerate(zip(progs, base)):
        if b.crashed: continue
        for z in list(range(1, 12)) + sorted(r.sample(range(12, 120), chk.scale(30, 108))) + [150, 200, 255]:
            jobs.append((k, n, z, b, vf.Case(s, heap=BIG * 4, stdin=corpus.INPUT, flags=z << 8, gcper=r.choice([0, 0, 0, 50]), variant=r.choice(["asan", "asan", "plain"]))))
    fits, most = {}, 0
    for (k, n, z, b, c), x in zip(jobs, vf.run_cases([j[4] for j in jobs], cwd=d)):
        chk.observed((c.src, "stack", z))
        if chk.crash(c, x, "stack sweep"): continue
        how = f"stack of {z} ({c.variant}): {x.ok, x.err, x.msg, x.out[-150:]} instead of {b.ok, b.err, b.msg, b.out[-150:]}\n{c.src[:1200].decode('utf-8', 'replace')}"
        if c.variant == "asan" and (x.leak or x.fds): chk.violation("stack sweep: something isn't released", f"leak {x.leak}, descriptors {x.fds}; " + how, c)
        if (x.out, x.ok, x.err, x.msg) == (b.out, b.ok, b.err, b.msg): chk.count_kind("stack: unaffected"); fits.setdefault(k, z); continue
        chk.count_kind("stack: ran out of it")
        if x.ok or x.err not in ("runtime", "internal") or b"stack" not in x.msg.lower(): chk.violation("stack sweep: not an error about the stack", how, c)
        elif not b.out.startswith(x.out): chk.violation("stack sweep: the output isn't a prefix", how, c)
        elif k in fits and fits[k] < z: chk.violation("stack sweep: a bigger stack isn't enough", f"{fits[k]} was; " + how, c)

LIMIT = (b"deep", b"limit", b"stack", b"too ", b"nest", b"memory", b"heap", b"space")
def limit(x):
    """An error about a limit of the implementation."""
    return x.err in ("internal", "runtime", "syntax") and any(w in x.msg.lower() for w in LIMIT)

# -- nesting of calls --------------------------------------------------------
DEPTH = {
 "function": ("fun f(n) { print(n, ' '); if n > 1: f(n - 1); print('.'); } f(%d);", 1),
 "function returning": ("fun f(n) { print(n, ' '); if n > 1: return 1 + f(n - 1); return 1; } print(f(%d));", 1),
 "mutual": ("fun a(n) { print('a'); if n > 1: b(n - 1); } fun b(n) { print('b'); if n > 1: a(n - 1); } a(%d);", 1),
 "method": ("o = {fun m(self, n) { print(n); if n > 1: self->m(n - 1); }}; o->m(%d);", 1),
 "closures": ("fun mk(f, n) { fun g() { print(n); if n > 1: f(); } return g; } h = none; i = 1; while i <= %d: { h = mk(h, i); i = i + 1; } h();", 1),
}
def depth(chk, r, d):
    b = model.Batch(chk)
    cases = []
    for w, (t, per) in DEPTH.items():
        for n in list(range(1, 24)) + [50, 1000]:
            cases.append((w, per, n, vf.Case(t % n, variant=r.choice(["asan", "plain"]))))
    res = vf.run_cases([c[3] for c in cases])
    for (w, per, n, c), x in zip(cases, res):
        chk.observed((c.src, "depth")); chk.count_kind("call depth: " + w)
        if chk.crash(c, x, "call depth: " + w): continue
        # 16 frames: one is the program's, another must be left for print
        fits = n * per + 1 + 1 <= ref.MAX_FRAMES
        if x.ok != (1 if fits else 0) or (not fits and x.err != "internal"):
            chk.violation("call depth: " + w, f"{n} nested calls: {x.ok, x.err, x.msg, x.out[-80:]}, expected {'success' if fits else 'an error about the nesting'}\n{c.src.decode()}", c)
        elif not fits and b"limit" not in x.msg: chk.violation("call depth: the error isn't about the limit", f"{n} {w}: {x.msg!r}", c)
    # after the limit was hit in one place nothing else is affected
    for n in range(1, 12):
        prog = [("fundef", "f", [("n", None, None)], B(P(V("n")), ("if", ("bin", ">", V("n"), I(1)), ("return", [call("f", ("bin", "-", V("n"), I(1)))]), None), ("return", [V("n")])))]
        prog += [P(call("f", I(n))) for _ in range(8)]
        b.prog(prog, "repeated nesting")
    b.flush()

# -- arguments, results, targets, the frame's stack ---------------------------
def counts(chk, r):
    b = model.Batch(chk)
    argc = []
    for n in list(range(0, 40)) + [63, 64, 100, 300]:
        # a native function takes as many arguments as fit a frame's stack
        for callee in ("print", "f"):
            argc.append((callee, n, vf.Case("fun f(a) return a; print('x'); " + callee + "(" + ", ".join(str(i) for i in range(n)) + "); print('y');")))
    for n in range(1, 13):
        prog = [("fundef", "f", [], ("return", [I(i) for i in range(n)])), P(S("a"))]
        tn = r.choice([1, n, n + 1, 2])
        prog += [X(asg("v", call("f"))), P(V("v"))]
        b.prog(prog, "number of results")
        for t in range(1, 12):
            q = [("fundef", "f", [], ("return", [I(i) for i in range(n)])), P(S("a")), X(("asg", [V(f"v{i}") for i in range(t)], call("f"))), P(*[V(f"v{i}") for i in range(min(t, 10))])]
            b.prog(q, "number of targets")
    for n in range(0, 30):
        ps = [(f"p{i}", None, None) for i in range(n)]
        q = [("fundef", "f", ps, P(S("in "), *[V(p[0]) for p in ps[:8]])), P(S("a")), X(call("f", I(1), I(2))), P(S("z"))]
        b.prog(q, "number of parameters")
    b.flush()
    # deep expressions: right up to some size, and an orderly error from then on
    jobs = list(argc)
    shapes = {"right sum": lambda n: "1 + (" * n + "1" + ")" * n, "left sum": lambda n: "(" * n + "1" + " + 1)" * n, "flat sum": lambda n: "1" + " + 1" * n,
              "list": lambda n: "[" * n + "7" + "]" * n, "map": lambda n: "{a: " * n + "7" + "}" * n, "call": lambda n: "id(" * n + "7" + ")" * n, "and": lambda n: "true and (" * n + "true" + ")" * n,
              "args": lambda n: "string.cat(" + ", ".join("'a'" for _ in range(n + 1)) + ")", "index": lambda n: "l[" * n + "0" + "]" * n, "un": lambda n: "-(" * n + "1" + ")" * n, "items": lambda n: "count([" + ", ".join("1" for _ in range(n)) + "])", "method": lambda n: "m->f(" * n + "5" + ")" * n}
    want = {"right sum": lambda n: str(n + 1), "left sum": lambda n: str(n + 1), "flat sum": lambda n: str(n + 1), "list": lambda n: "[" * n + "7" + "]" * n, "map": lambda n: "{a: " * n + "7" + "}" * n, "call": lambda n: "7", "and": lambda n: "true",
            "args": lambda n: "a" * (n + 1), "index": lambda n: "0", "un": lambda n: str((-1) ** n), "items": lambda n: str(n), "method": lambda n: "5"}
    low = {"right sum": 12, "left sum": 400, "flat sum": 2000, "list": 3, "map": 3, "call": 400, "and": 400, "args": 12, "index": 12, "un": 400, "items": 2000, "method": 10}
    for w, f in shapes.items():
        for n in list(range(1, 41)) + [100, 300, 900, 2000]:
            jobs.append((w, n, vf.Case(f"print('x'); fun id(x) return x; l = [0]; m = {{fun f(self, x) return x;}}; v = {f(n)}; print(v);")))
    failed = {}
    for (w, n, c), x in zip(jobs, vf.run_cases([j[2] for j in jobs])):
        chk.observed((c.src, "counts")); chk.count_kind("size of: " + w)
        if chk.crash(c, x, "size of " + w): continue
        how = f"{w} of size {n}: {x.ok, x.err, x.msg, x.out[:120]}\n{c.src[:400].decode()}"
        if w in ("print", "f"):
            ok = n + 1 <= ref.MAX_FRAME_STACK
            exp = b"x" + (("".join(str(i) for i in range(n))).encode() if w == "print" else b"") + b"y"
            if x.ok and (n > ref.MAX_ARGC or x.out != exp): chk.violation(f"arguments of {w}: wrong result", how, c)
            elif not x.ok and (ok or x.out != b"x" or x.err not in ("runtime", "internal")): chk.violation(f"arguments of {w}: refused", how, c)
            continue
        if x.ok:
            if x.out.decode() != "x" + want[w](n): chk.violation(f"size of {w}: wrong result", how, c)
            elif w in failed and n > failed[w] : chk.violation(f"size of {w}: fits although a smaller one doesn't", how, c)
        else:
            failed.setdefault(w, n)
            if n <= low[w]: chk.violation(f"size of {w}: refused", how, c)
            elif x.out not in (b"x", b"") or not limit(x): chk.violation(f"size of {w}: disorderly failure", how, c)
    chk.cov["first size refused"] = failed

# -- nesting of the source ----------------------------------------------------
NEST = {
 "parentheses": lambda n: "x = " + "(" * n + "1" + ")" * n + "; print(x);",
 "blocks": lambda n: "if true: " + "{" * n + " print(1); " + "}" * n,
 "lists": lambda n: "x = " + "[" * n + "]" * n + "; print(1);",
 "unary": lambda n: "x = " + "- " * (2 * n) + "1; print(x);",
 "not": lambda n: "x = " + "not " * (2 * n) + "true; print(1);",
 "if else": lambda n: "if false: 0; else " * n + "print(1);",
 "while": lambda n: "while false: " * (n - 1) + "0; print(1);",
 "functions": lambda n: "fun f() " * n + "return 1; print(1);",
 "calls": lambda n: "fun f(x) return x; if false: " + "f(" * n + "1" + ")" * n + "; print(1);",
 "dots": lambda n: "x = {a: 1}; if false: x" + ".a" * n + "; print(1);",
 "sum": lambda n: "x = 1" + " + 0" * n + "; print(x);",
 "assignments": lambda n: "x = " * n + "1; print(x);",
 "statements": lambda n: "x = 1;" * n + "print(x);",
 "types": lambda n: "x = int" + " | int" * n + "; print(1);",
 "nullable": lambda n: "x = " + "?" * n + "int; print(1);",
 "and": lambda n: "x = true" + " and true" * n + "; print(1);",
 "subscripts": lambda n: "l = [0]; x = " + "l[" * n + "0" + "]" * n + "; print(1);",
 "strings": lambda n: "x = '" + "y" * n + "'; print(1);",
 "comments": lambda n: "#" + "y" * n + "\n" + "print(1);",
 "names": lambda n: "x" + "y" * n + " = 1; print(x" + "y" * n + ");",
}
def nesting(chk, r):
    cases = []
    for w, f in NEST.items():
        for n in [1, 5, 20, 100, 200] + [r.randrange(200, 450) for _ in range(2)] + [495, 998, 999, 1000, 1001, 1002, 2000, 5000, 9990, 10010, 20000] + chk.scale([60000], [60000, 200000, 300000]):
            cases.append((w, n, vf.Case(f(n), heap=1 << 22, abort_at=0, cpu=30, variant="asan" if n < 3000 or r.random() < .3 else "plain")))
    failed = {}
    for (w, n, c), x in zip(cases, vf.run_cases([c[2] for c in cases], per=8)):
        chk.observed((w, n)); chk.count_kind("nesting: " + w)
        if chk.crash(c, x, f"nesting of {w}"): continue
        how = f"{w} x {n}: {x.ok, x.err, x.msg, x.out[:100]}"
        if c.variant == "asan" and x.leak: chk.violation(f"nesting of {w}: leak", how, c)
        if x.ok:
            if x.out != b"1": chk.violation(f"nesting of {w}: wrong result", how, c)
        else:
            failed.setdefault(w, n)
            # what is a limit of the execution isn't decided here
            small = 12 if w in ("subscripts", "lists") else 450 if w not in ("sum", "statements", "types", "and", "dots", "comments", "strings", "names") else 2000
            if w == "names" and n >= 60 : small = 0
            if n <= small: chk.violation(f"nesting of {w}: refused", how, c)
            if not limit(x): chk.violation(f"nesting of {w}: the error isn't about a limit", how, c)
            if x.out not in (b"",) : chk.violation(f"nesting of {w}: ran although refused", how, c)
    chk.cov["first nesting refused"] = failed

# -- growing values until the heap is exhausted -------------------------------
GROW = {
 "list": "l = []; i = 0; while true: { l[i] = i; i = i + 1; if i % 100 == 0: print(i, ' '); }",
 "nested list": "l = []; i = 0; while true: { l = [l]; i = i + 1; if i % 100 == 0: print(i, ' '); }",
 "map": "l = {}; i = 0; while true: { l[i] = 'v'; i = i + 1; if i % 100 == 0: print(i, ' '); }",
 "string": "s = 'x'; i = 0; while true: { s = string.cat(s, s); i = i + 1; print(i, ' '); }",
 "variables": "m = []; i = 0; fun f() { a = [1, 2, 3]; b = {x: a}; fun g() return a, b; return g; } while true: { m[i] = f(); i = i + 1; if i % 10 == 0: print(i, ' '); }",
 "buffers": "l = []; i = 0; while true: { l[i] = buffer.sliceUp(buffer.new(8), 1, 2); i = i + 1; if i % 100 == 0: print(i, ' '); }",
 "sum": "t = int; i = 0; while true: { t = t | int; i = i + 1; if i % 100 == 0: print(i, ' '); }",
 "keys": "m = {}; i = 0; while true: { m[i] = i; i = i + 1; k = keysof(m); if i % 100 == 0: print(i, ' '); }",
 "print": "l = [[]]; i = 0; while true: { l = [l, l]; i = i + 1; if i % 100 == 0: print(i, ' '); }",
}
def exhaust(chk, r):
    jobs = []
    for w, s in GROW.items():
        hs = sorted({r.randrange(12000, 150000) for _ in range(chk.scale(10, 150))} | {1 << 16, 1 << 18})
        for h in hs:
            for v in ("asan", "asanpool"): jobs.append((w, vf.Case(s, heap=h, variant=v, abort_at=0, cpu=20)))
    outs = {}
    for (w, c), x in zip(jobs, vf.run_cases([j[1] for j in jobs], per=4)):
        chk.observed((c.src, c.heap, c.variant)); chk.count_kind("exhausted by: " + w)
        if chk.crash(c, x, "exhausted by " + w): continue
        how = f"{w}, heap {c.heap} ({c.variant}): {x.ok, x.err, x.msg, x.out[-100:]}"
        if x.ok or x.err != "internal" or b"heap" not in x.msg.lower(): chk.violation(f"exhausted by {w}: not an error about the heap", how, c)
        if c.variant == "asan" and (x.leak or x.fds): chk.violation(f"exhausted by {w}: something isn't released", f"leak {x.leak}; " + how, c)
        # the outputs for two heap sizes are prefixes of the same infinite output
        o = outs.setdefault(w, b"")
        a, z = sorted((o, x.out), key=len)
        if not z.startswith(a): chk.violation(f"exhausted by {w}: the output isn't a prefix", how, c)
        outs[w] = z
    for w, o in outs.items():
        if not o: chk.violation(f"exhausted by {w}: nothing fits", w)

def huge(chk, r):
    """Sizes that don't fit an int: what's asked for is either done or refused."""
    H = 2**31 - 1
    G = 1 << 30
    def string(n): return f"buffer.toString(buffer.new({n}))"
    jobs = []   # (what, variant, heap, program, what's printed, limit of the address space)
    def job(*a): jobs.append(a)
    for n in (2**29, 2**28): job("the keys of a big buffer", "plain", None, f"print(count(keysof(buffer.new({n}))));", str(n), 3 * G)
    for n in (2**31 - 1, 2**31, 2**32 - 1, 2**32 + r.randrange(1, 100)): job("a big buffer", "plain", None, f"b = buffer.new({n}); b[{n - 1}] = 7; print(count(b), \" \", b[{n - 1}]);", f"{n} 7", 6 * G)
    n = 2**32 + r.randrange(1, 100); job("a big buffer", "plain", None, f"print(count(buffer.toString(buffer.new({n}))));", str(n), 6 * G)
    for n, k in ((2**29, 8), (2**30, 2), ((2**32 + 2) // 3 + 1, 3)): job("a big string", "plain", H, f"s = {string(n)}; t = string.cat({', '.join(['s'] * k)}); print(count(t));", str(n * k), 16 * G)
    m = r.randrange(150, 220) << 20
    job("much garbage", "asan", H, f"s = {string(m)}; i = 0; while i < {2**31 // m + 3}: {{ t = string.cat(s, \"x\"); i = i + 1; }} print(count(t));", str(m + 1), None)
    job("much garbage", "plain", H, f"s = {string(m)}; i = 0; while i < 45: {{ t = string.cat(s, \"x\"); i = i + 1; }} print(count(t));", str(m + 1), 8 * G)
    exes = {v: build.cli(v) for v in ("plain", "asan")}
    def go(j):
        what, variant, heap, src, want, lim = j
        def pre():
            if lim: resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        try:
            q = subprocess.run([exes[variant]] + (["-H", str(heap)] if heap else []) + ["-i", src], cwd=vf.tmpdir(), env=vf.env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300, preexec_fn=pre)
        except subprocess.TimeoutExpired: return None
        return q.returncode, q.stdout, q.stderr
    with concurrent.futures.ThreadPoolExecutor(3) as ex: outs = list(ex.map(go, jobs))
    for j, o in zip(jobs, outs):
        what, variant, heap, src, want, lim = j
        if o is None or o[0] == -9: chk.inconclusive += 1; continue   # out of time, or of the memory of the machine
        rc, out, err = o
        chk.observed(("huge", j)); chk.count_kind("sizes that don't fit an int: " + what)
        if rc == 0 and out == want.encode() and not err: chk.count("done"); continue
        if rc == 255 and not out and re.match(rb"(Internal|Runtime) Error: .*(memory|heap|too big)", err) and what != "much garbage":
            chk.count("refused"); continue
        chk.violation("sizes that don't fit an int: " + what, f"exit status {rc}, output {out[:100]!r}, {err[-600:]!r} instead of {want!r} or a refusal\nheap {heap}, {variant}, {src}")

if __name__ == "__main__":
    vf.main(main)
