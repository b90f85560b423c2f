from common import *
import graph, random

def main():
    chk = vf.Check("C02", rule="distinct (program, collection schedule, heap size, build) executions with at least one forced collection or a small heap, compared with the collection-free execution and the model")
    r = chk.rng
    def sub(): return random.Random(r.random())
    progs = []
    for i in range(chk.scale(230, 9000)):
        progs.append(("graph", graph.graph(sub(), r.choice([10, 20, 40]))))
    for i in range(chk.scale(130, 6000)):
        g = gen.Gen(sub(), wild=r.choice([0, 0, .01]), trace=0, size=r.choice([10, 25, 40]))
        progs.append(("random program", g.program()))
    for lo in range(0, len(progs), 700):
        compare(chk, r, [(w, gen.source(p), model.predict(p)) for w, p in progs[lo:lo+700]], chk.scale(5, 8))
        if chk.enough(): break
    compare(chk, r, [("texts", t, None) for t in TEXTS], chk.scale(25, 200))
    compare(chk, r, [("deep stack", t, None) for t in [deep(sub()) for _ in range(chk.scale(12, 500))]], chk.scale(5, 10))
    big(chk, r)
    imports(chk, r)
    sweep(chk, r, [("graph", gen.source(p), None) for _, p in [("g", graph.graph(sub(), 6)) for _ in range(chk.scale(6, 60))]] + [("texts", t, None) for t in TEXTS[:chk.scale(3, 20)]])
    garbage(chk, r)
    chk.finish(1000, 500)

HEAP = 1 << 20
def compare(chk, r, items, n, cwd=None):
    base = vf.run_cases([vf.Case(s, heap=HEAP) for _, s, _ in items], cwd=cwd)
    jobs = []
    for (w, s, p), b in zip(items, base):
        c = vf.Case(s, heap=HEAP)
        if chk.crash(c, b, w): continue
        if p is not None:
            m = model.mismatch(b, p[0], p[1])
            if m: chk.violation(f"{w}, no collections: {m}", model.diff_text(c.src, b, p[0], p[1]), c)
        k = min(b.ninstr, 3000)
        for j in range(n):
            x = r.random()
            v = "asan" if r.random() < .6 else "asanpool"
            if j == 0: o = dict(gcper=1, gcphase=1)
            elif x < .3: o = dict(gcper=r.choice([2, 3, 4, 5, 7, 11, 17, 40]), gcphase=r.randrange(1, 20))
            elif x < .6: o = dict(gcper=10 ** 9, gcphase=r.randrange(1, max(2, k)))  # exactly one
            elif x < .8: o = dict(gcper=r.choice([50, 100]), gcphase=r.randrange(1, max(2, k)))
            else: o = dict(heap=r.choice([1 << 15, 3 << 14, 1 << 16, 1 << 17]))
            jobs.append((w, b, vf.Case(s, variant=v, **{"heap": HEAP, **o})))
    judge(chk, jobs, cwd)

def big(chk, r):
    """Objects of tens and hundreds of kilobytes, full to their last byte, through collections."""
    jobs = []
    for n in [1 << k for k in (10, 13, 14)] + [r.randrange(5000, 20000)]:
        for per in (r.choice([499, 997, 2003]), 10 ** 9):
            jobs.append((f"l = []; i = 0; while i < {n}: {{ l[i] = i + 1; i = i + 1; }} j = 0; t = 0; while j < {n}: {{ t = t + l[j] * (j % 7 + 1); j = j + 1; }} print(t, ' ', l[{n} - 1], ' ', count(l));",
                         f"{sum((j + 1) * (j % 7 + 1) for j in range(n))} {n} {n}", n * 14, per))
            jobs.append((f"m = {{}}; i = 0; while i < {n}: {{ m[i * 3] = i + 1; i = i + 1; }} j = 0; t = 0; while j < {n}: {{ t = t + m[j * 3] * (j % 7 + 1); j = j + 1; }} print(t, ' ', m[3 * {n} - 3], ' ', count(m));",
                         f"{sum((j + 1) * (j % 7 + 1) for j in range(n))} {n} {n}", n * 16, per))
    for k in (8, 11, 12, 13, 14, 15):
        for e in ("", "x", "xyz", "0123456789"):
            s = "0123456789abcdef" * (1 << k) + e; n = len(s)
            jobs.append((f"s = '0123456789abcdef'; i = 0; while i < {k}: {{ s = string.cat(s, s); i = i + 1; }} s = string.cat(s, '{e}'); i = 0; while i < 9: {{ g = [i, [i]]; i = i + 1; }} print(count(s), ' ', s[{n} - 1], s[{n} - 2], s[{n} - 8], s[{n} - 9]); print(s[{n // 2}], s[0]);",
                         f"{n} {s[-1]}{s[-2]}{s[-8]}{s[-9]}{s[n // 2]}{s[0]}", 100 + k * 10, r.choice([3, 7, 40])))
    cases = []
    for src, want, where, per in jobs:
        ph = r.randrange(1, 400) if per < 10 ** 9 else where + r.randrange(-where // 40 - 1, where // 40 + 1)
        c = vf.Case(src, variant=r.choice(["asan", "asanpool"]), heap=1 << 25, gcper=per, gcphase=ph, abort_at=0, cpu=60); c.expect = want.encode(); cases.append(c)
    for c, x in zip(cases, vf.run_cases(cases)):
        chk.observed((c.src, c.gcper, c.gcphase, c.variant)); chk.count_kind("big objects")
        if chk.crash(c, x, "big objects"): continue
        if x.ok != 1 or x.out != c.expect: chk.violation("big objects: output", f"{x.out[:100]!r} {x.ok} {x.msg[:100]!r} instead of {c.expect!r}, a collection every {c.gcper} from {c.gcphase}\n{c.src.decode()}", c)

def deep(r):
    """Nested calls with many values waiting on the stack that nothing else refers to."""
    k = r.randrange(1, 12); d = r.randrange(2, 10)
    def value(i):
        return r.choice([f"[n, {i}]", f"{{v: [n, {i}]}}", f"toString(n * {100 + i})", f"(n + {i}000)", f"[[{i}], [n, 'x']]", f"({i}.5 * n)", f"{{fun get() return [n, {i}];}}"])
    ps = [f"p{i}" for i in range(k)]
    call = f"join(down(n - 1), {', '.join(value(i) for i in range(k))})"
    if r.random() < .3: call = f"[{value(0)}, {value(1)}, {call}, {value(2)}]"
    elif r.random() < .3: call = f"string.cat(toString(n), {call})" if r.random() < .5 else f"{{a: {value(3)}, b: {call}, c: {value(4)}}}"
    return f"""
fun show(x) {{ if type(x) == Map: {{ if istypeof(Callable, x.get): return show((x.get)()); return string.cat('<', show(x.v), show(x.a), show(x.b), show(x.c), '>'); }}
    if type(x) == List: {{ s = '['; i = 0; while i < count(x): {{ s = string.cat(s, show(x[i]), ','); i = i + 1; }} return string.cat(s, ']'); }}
    return toString(x); }}
fun join(r, {', '.join(ps)}) {{ s = show(r); {' '.join(f's = string.cat(s, show({q}), " ");' for q in ps)} return s; }}
fun down(n) {{ if n < 1: return ['end', [n]]; return {call}; }}
print(show(down({d})));
"""

def imports(chk, r):
    """Collections while imported files run, and on what they leave behind."""
    d = os.path.join(vf.tmpdir(), "imports")
    os.makedirs(d + "/sub")
    for n, s in FILES.items(): open(os.path.join(d, n), "w").write(s)
    compare(chk, r, [("imports", t, None) for t in IMPORTS], chk.scale(40, 400), cwd=d)

FILES = {"lib.noja": """
seen = []; k = 0; while k < 6: { seen[k] = [k, toString(k)]; k = k + 1; }
fun get(i) return seen[i]; fun put(x) { seen[count(seen)] = x; return count(seen); }
""", "val.noja": "a = [1, [2]]; b = {x: a}; c = b.x; fun f() return a, b; p, q = f(); return [p, q, c], {r: p}, 'third';",
 "sub/deep.noja": "l = import('../val.noja'); m = import('../lib.noja'); m.put(l); return m;",
 "files.noja": "f, e = files.openFile('lib.noja', files.READ); b = buffer.new(64); n = files.read(f, b); d = files.openDir('.'); k = 0; while k < 5: { x = [k, b]; k = k + 1; } return f, b, d, x;",
 "bad.noja": "z = ['kept']; error(toString(z));"}
IMPORTS = ["""
x = ['mine', [1, 2, 3]]; y = {a: x}; r = import('lib.noja'); r.put(y); print(x, y.a[1], count(r.seen), count(r.get(6)), r.get(6).a[0], (r.get)(2), '\n');
""", """
fun g(n) { loc = [n, {k: n}]; r, s, t = import('val.noja'); loc[2] = r; return loc, s, t; } a, b, c = g(5); d, e = g(6); print(a[0], a[1].k, a[2][0], count(d), b, c, e.r[1][0], '\n');
""", """
fun f(o) { l = {w: [o]}; fun h() { q = import('sub/deep.noja'); l.z = q; return l; } return h; } a = f(1); b = f(2); u = a(); v = b(); print(u.w, v.w, count(u.z.seen), u.z.get(6), v.z.get(1), '\n');
""", """
l = []; i = 0; while i < 3: { l[i] = {m: import('lib.noja'), i: i}; l[i].m.put([l]); i = i + 1; } print(count(l), count((l[2].m.get(6))[0]), l[1].m.get(1), count(l[0].m.seen), '\n');
""", """
a = [1, 2]; f, b, d, x = import('files.noja'); c = buffer.new(16); n = files.read(f, c); b[1] = 65; print(a, n, c, x[1], '\n'); q = 0; while q < 3: { e = files.nextDirItem(d); q = q + 1; } print(x[0]);
""", """
k = ['pre']; fun t() { w = [k]; import('bad.noja'); } print(k); t(); print('no');
""", """
p = {list: [import, print, count]}; fun via(f, a) { keep = [a, a]; r = f(a); return r, keep; } r, s = via(p.list[0], 'lib.noja'); print(s[0], r.get(3), count(r.seen), '\n');
"""]

def judge(chk, jobs, cwd=None):
    for (w, b, c), x in zip(jobs, vf.run_cases([j[2] for j in jobs], cwd=cwd)):
        chk.observed((c.src, c.gcper, c.gcphase, c.heap, c.variant))
        chk.count_kind(w + (" forced collections" if c.gcper else " small heap"))
        chk.count("forced collections", x.ngc)
        chk.count("instructions executed", x.ninstr)
        how = f"{w}, collections at {c.gcphase}+k*{c.gcper}, heap {c.heap}, {c.variant}"
        if chk.crash(c, x, w): continue
        if c.gcper and x.gcerr: chk.violation(f"{w}: a collection failed", f"{how}: {x.msg!r}\n{c.src[:1200].decode("utf-8", "replace")}", c); continue
        if c.heap < HEAP and not x.ok and x.err == "internal" and b"heap" in x.msg.lower():
            chk.count("heap too small for the program"); continue
        chk.sample({"what": how, "source": c.src[:500].decode("utf-8", "replace"), "collections": x.ngc, "output": x.out[:200].decode("utf-8", "replace")})
        if (x.out, x.ok, x.err, x.ninstr) != (b.out, b.ok, b.err, b.ninstr):
            i = next((i for i, (p, q) in enumerate(zip(x.out, b.out)) if p != q), min(len(x.out), len(b.out)))
            chk.violation(f"{w}: a collection changed the execution", f"{how}: output at byte {i}: {x.out[i:i+60]!r} instead of {b.out[i:i+60]!r}; {x.ok, x.err, x.msg, x.ninstr} instead of {b.ok, b.err, b.msg, b.ninstr}\n{c.src[:1500].decode("utf-8", "replace")}", c)

def sweep(chk, r, items):
    """One collection, at every instruction in turn."""
    base = vf.run_cases([vf.Case(s, heap=HEAP) for _, s, _ in items])
    jobs = []
    for (w, s, _), b in zip(items, base):
        if b.crashed or b.ninstr > 2500: continue
        step = chk.scale(max(1, b.ninstr // 120), 1)
        for k in range(1, b.ninstr + 1, step): jobs.append(("sweep of a " + w, b, vf.Case(s, heap=HEAP, gcper=10 ** 9, gcphase=k)))
    judge(chk, jobs)

def garbage(chk, r):
    """Programs that make many times the heap's size of garbage and keep little: they must not run out of it."""
    jobs = []
    for body, out in GARBAGE:
        for heap in (1 << 16, 3 << 15, 1 << 17, 1 << 19):
            for v in ("asan", "asanpool"):
                jobs.append((out, vf.Case(body, heap=heap, abort_at=0, cpu=60, variant=v)))
    for (out, c), x in zip(jobs, vf.run_cases([j[1] for j in jobs])):
        chk.observed((c.src, c.heap, c.variant)); chk.count_kind("garbage-heavy program in a small heap"); chk.count("instructions executed", x.ninstr)
        if chk.crash(c, x, "garbage"): continue
        if x.ok != 1 or x.out != out: chk.violation("a program with little live data doesn't fit the heap", f"heap {c.heap}: {x.ok, x.err, x.msg, x.out[:100]} instead of {out!r}\n{c.src.decode("utf-8", "replace")}", c)

N = 3000
GARBAGE = [
 (f"i = 0; while i < {N}: {{ l = [i, [i], 'abc']; m = {{a: l}}; i = i + 1; }} print(m.a[0], count(l));", b"29993"),
 (f"fun mk(x) {{ fun g() return x; return g; }} keep = mk(7); i = 0; while i < {N}: {{ f = mk([i]); i = i + 1; }} print((f())[0], keep());", b"29997"),
 (f"s = 'x'; i = 0; while i < {N}: {{ s = string.cat('a', string.slice('hello world', i % 5, 3)); b = buffer.new(20); b[i % 20] = i % 256; c = buffer.sliceUp(b, 1, 5); i = i + 1; }} print(s, count(c));", b"ao w5"),
 (f"l = [none, none, none]; i = 0; while i < {N}: {{ l[i % 3] = [l[(i + 1) % 3] == none, i]; if i % 10 == 0: l = [1, 2, 3]; i = i + 1; }} print(count(l));", None),
 (f"m = {{}}; i = 0; while i < {N}: {{ if i % 50 == 0: m = {{}}; m[i] = toString(i); m[toString(i)] = m; i = i + 1; }} print(count(m), m['2999'] == m);", None),
 (f"l = []; l[0] = l; i = 0; while i < {N}: {{ x = [l]; x[1] = x; y = {{x: x}}; y.y = y; l = [y]; if i % 7 == 0: l = []; i = i + 1; }} print(count(l));", b"1"),
]
GARBAGE = [g for g in GARBAGE if g[1] is not None] + [
 (f"m = {{}}; i = 0; while i < {N}: {{ if i % 50 == 0: m = {{}}; m[i] = toString(i); m[toString(i)] = i; i = i + 1; }} print(count(m), m['2999'], m[2950]);", b"10029992950"),
 (f"l = [0, 0, 0]; i = 0; while i < {N}: {{ l[i % 3] = [i, l[0] == l[1]]; if i % 10 == 0: l = [1, 2, 3]; i = i + 1; }} print(count(l));", None)][:1]

import c01
TEXTS = c01.SCENARIOS[:7] + ["""
fun Stack() return { items: [], fun push(s, x) { s.items[count(s.items)] = x; return s; } fun top(s) return s.items[count(s.items) - 1]; };
s = Stack(); i = 0; while i < 12: { s->push([i, s]); i = i + 1; } t = s->top(); u = t[1]; print(t[0], count(u.items), u == s);
""", """
fun outer(a) { b = [a]; fun mid(c) { d = {k: c}; fun inner(e) { b[count(b)] = e; d.z = b; return a, b, c, d, e; } return inner; } return mid; }
f = outer(1); g = f(2); h = f(3); a, b, c, d, e = g(4); a, b2, c2, d2, e2 = h(5); print(a, b, c, e, b2, c2, e2, count(d), count(d2), count(d.z));
""", """
fun fact(n) { if n < 2: return 1; return n * fact(n - 1); } fun fib(n) { if n < 2: return n; return fib(n - 1) + fib(n - 2); } print(fact(15), ' ', fib(9), '\\n');
fun swap(a, b) return b, a; x = [1]; y = {q: 2}; i = 0; while i < 9: { x, y = swap(x, y); i = i + 1; } print(x.q, y[0]);
""", """
l = [1.5, 'é', none, true, int, ?int, int | String, [int], print]; i = 0; while i < count(l): { print(typename(l[i]), istypeof(any, l[i]), '\\n'); i = i + 1; }
c = {}; c[l[0]] = 1; c[l[1]] = 2; c[l[3]] = 3; print(c[1.5], c['é'], c[true]); error(string.cat('stop ', toString(c)));
"""]
if __name__ == "__main__":
    vf.main(main)
