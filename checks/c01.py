from common import *
import hostile, random, corpus

def main():
    chk = vf.Check("C01", rule="distinct (source, collection schedule, heap, build) executions under AddressSanitizer and UBSan that ran at least one instruction")
    r = chk.rng
    d = corpus.setup(os.path.join(vf.tmpdir(), "corpus"))
    cases = []
    def opts():
        """How the execution is monitored: build, heap size, forced collections."""
        v = "asan" if r.random() < .75 else "asanpool"
        x = r.random()
        o = dict(variant=v, abort_at=30000, flags=vf.F_OPS)
        if x < .3: o.update(gcper=1, gcphase=1, abort_at=3000)
        elif x < .6: o.update(gcper=r.choice([2, 3, 5, 7, 13]), gcphase=r.randrange(1, 30), abort_at=10000)
        elif x < .7: o.update(gcper=1000000, gcphase=r.randrange(1, 300))
        o["heap"] = r.choice([1 << 14, 1 << 15, 1 << 16, 1 << 18, 1 << 20])
        if v == "asanpool" and o.get("gcper"): o["heap"] = r.choice([1 << 15, 1 << 16])
        if r.random() < .15: o["flags"] |= vf.F_PROFILE
        if r.random() < .05: o["flags"] |= vf.F_TWICE
        return o
    def run():
        nonlocal cases
        for c, res in zip(cases, vf.run_cases(cases, cwd=d)): judge(chk, c, res)
        cases = []
    def add(src, what, **kw):
        o = opts(); o.update(kw)
        c = vf.Case(src, **o); c.tag = what
        cases.append(c)
        if len(cases) >= 1500: run()

    def sub(): return random.Random(r.random())
    # the sources of the generated programs also feed the mutators
    srcs = []
    for i in range(chk.scale(1200, 40000)):
        g = gen.Gen(sub(), wild=r.choice([0, 0.01, 0.05]), trace=0, size=r.choice([6, 15, 30]))
        s = gen.source(g.program(), r)
        srcs.append(s)
        add(s, "random program")
        if chk.enough(): break
    for s in SCENARIOS:
        for per in range(1, 12):
            for v in ("asan", "asanpool"):
                add(s, "scenario", variant=v, gcper=per, gcphase=per, heap=1 << 16, abort_at=60000)
        add(s, "scenario", heap=1 << 20, gcper=0); add(s, "scenario", heap=1 << 14, gcper=0, variant="asanpool")
    # programs that use every part of the library: imports, files, input...
    for s in corpus.P.values():
        for per in range(0, chk.scale(8, 60)):
            for v in ("asan", "asanpool"):
                for fl in (0, vf.F_PROFILE):
                    add(s, "program of the corpus", variant=v, gcper=per, gcphase=per + 1, heap=r.choice([1 << 15, 1 << 16, 1 << 18]), abort_at=60000, flags=vf.F_OPS | fl, stdin=corpus.INPUT)
    for i in range(chk.scale(2000, 60000)):
        add(hostile.wild(sub(), r.choice([1, 2, 4, 6, 10])), "wild calls", stdin=b"line one\nline two\n")
        if chk.enough(): break
    for i in range(chk.scale(1500, 40000)):
        add(hostile.mutate_tokens(r, r.choice(srcs) if r.random() < .7 else hostile.wild(sub(), 3), r.choice(srcs)).replace("net", "met"), "mutated source")
        if chk.enough(): break
    run()
    # bytecode: what the compiler makes of the sources, altered, and random
    codes = []
    pick = r.sample(srcs, min(len(srcs), chk.scale(150, 1500)))
    for c in vf.run_cases([vf.Case(s, mode=vf.EMIT) for s in pick]):
        if c.ok == 1: codes.append(hostile.asm_parse(c.out.decode("utf-8", "replace")))
    chk.count("compiled programs whose bytecode was mutated", len(codes))
    if not codes: raise vf.HarnessError("no bytecode")
    for i in range(chk.scale(2500, 50000)):
        add(hostile.asm_text(hostile.mutate_code(r, r.choice(codes))), "mutated bytecode", mode=vf.ASM)
        if chk.enough(): break
    for i in range(chk.scale(2000, 50000)):
        add(hostile.asm_text(hostile.typed_asm(r)), "random bytecode", mode=vf.ASM)
        if chk.enough(): break
    run()
    chk.finish(2000, 1000)

def judge(chk, c, res):
    chk.observed((c.src, c.gcper, c.gcphase, c.heap, c.variant) if res.ninstr else None)
    chk.count_kind(c.tag + ", build " + c.variant)
    chk.count("instructions executed", res.ninstr)
    chk.count("forced collections", res.ngc)
    if res.ops:
        d = chk.cov.setdefault("instructions by opcode", {})
        for i, n in enumerate(res.ops):
            if n: d[vf.OPNAMES[i]] = d.get(vf.OPNAMES[i], 0) + n
    if chk.crash(c, res, c.tag): return
    chk.count("ended with " + (f"a {res.err} error" if res.ok == 0 else "success"))
    chk.sample({"what": c.tag, "source": c.src[-300:].decode("utf-8", "replace"), "gc every": c.gcper, "ok": res.ok, "error": res.err})
    if res.gcerr and res.msg.strip() == b"": chk.violation("collection failed without an error", res.msg.decode(errors="replace"), c)

# Every kind of object referring to every other, alive in every kind of place,
# while collections happen.
SCENARIOS = ["""
fun mk(n) { l = [n, [n], {k: n}]; fun get(d = 1) { l[count(l)] = d; return l, d, n; } return get; }
fs = {}; i = 0;
while i < 6: { fs[i] = mk(i); i = i + 1; }
i = 0;
while i < 6: { a, b, c = (fs[i])(i); print(a, b, c, '\\n'); i = i + 1; }
""", """
b = buffer.new(16); s = buffer.sliceUp(b, 2, 8); t = buffer.sliceUp(s, 1, 3); b[3] = 65; b = none; s = none;
i = 0; while i < 20: { x = string.cat('a', toString(i)); i = i + 1; }
print(t[0], count(t), '\\n'); t = none; u = buffer.toString(buffer.fromString('héllo')); print(u);
""", """
m = {}; i = 0;
while i < 40: { m[string.cat('k', toString(i))] = [i, {v: i}]; m[i] = m; i = i + 1; }
ks = keysof(m); i = 0; n = 0;
while i < count(ks): { if istypeof(List, m[ks[i]]): n = n + (m[ks[i]])[0]; i = i + 1; }
print(n, ' ', count(m), '\\n');
""", """
T = ?int | String | [int, ?String] | {a: int, b: [any]};
fun f(x: T, y: ?T = none) return x, y;
a, b = f([1, 'x']); print(a, b); a, b = f({a: 1, b: [2]}, 'q'); print(a, b, istypeof(T, none), istypeof(T, 2.5));
""", """
fun rec(n, acc) { if n == 0: return acc; acc[count(acc)] = [n, acc]; return rec(n - 1, acc); }
l = rec(10, []); print(count(l)); x = l[3]; y = x[1]; print(count(y), y[0] == x);
""", """
it = makeIterator({a: 1, b: [2], c: 'z'}); v, k, i = it->next();
while v != none: { print(k, v, i); v, k, i = it->next(); }
it2 = makeIterator([5, 6]); print(it2->next()); print(toString({a: [1, 2.5, none, 'x'], t: {fun toString(self) return 'me';}}));
""", """
l = []; i = 0; while i < 70: { append(l, string.cat(string.slice('abcdef', i % 6, 1), string.chr(200 + i))); i = i + 1; }
print(l); m = {q: l}; m.q[0] = m; l = none; print(count(m.q)); d = {}; d[[1, 'a']] = 5; d[{z: 1}] = 6; print(d[[1, 'a']], d[{z: 1}]);
""", """
f, e = files.openFile('c01-scratch', files.WRITE); n = files.write(f, buffer.fromString('hello'), 5); f = none; i = 0;
while i < 5: { i = i + 1; d, e = files.openDir('.'); } d = none; g, e = files.openFile('c01-scratch', files.READ); b = buffer.new(9); print(files.read(g, b, 9)); 
"""]
if __name__ == "__main__":
    vf.main(main)
