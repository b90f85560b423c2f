from common import *
import random
M = 1 << 63
SMALL = [(0, 1), (0, 2), (0, 9), (-3, 3), (5, 6), (-1, 0), (0, 100), (-10, -5), (1000, 1003), (M - 4, M - 1), (-M, -M + 3), (1 << 31, (1 << 31) + 4), (-(1 << 31) - 2, -(1 << 31) + 2), ((1 << 53), (1 << 53) + 5)]
WIDE = [(0, M - 1), (-M, M - 1), (-M, 0), (-1, M - 1), (0, 1 << 31), (0, (1 << 31) - 1), (-(1 << 31), 1 << 31), (0, 1 << 32), (0, 1 << 53), (-(1 << 40), 1 << 40), (-M, -1), ((1 << 62), M - 1), (-M, -(1 << 62)), (0, 1000), (-500000, 7), (0, 255), (1 << 33, 1 << 34)]

def num(n): return f"(-{M - 1} - 1)" if n == -M else str(n)
def loop(n, body): return f"i = 0; while i < {n}: {{ {body} i = i + 1; }}"

def main():
    chk = vf.Check("C25", rule="distinct (bounds, seed) pairs whose values were judged")
    r = chk.rng
    cases = []
    def add(src, judge, what):
        for v in ("asan", "plain"):
            c = vf.Case(src, variant=v, abort_at=0, cpu=60, heap=1 << 21, gcper=r.choice([0, 0, 97])); c.tag = what; c.expect = judge
            cases.append(c)
    def values(x): return [int(l) for l in x.out.split()]
    def bounded(a, b, n, every=False, spread=0):
        lo, hi = min(a, b), max(a, b)
        def j(x):
            vs = values(x)
            if len(vs) != n: return f"{len(vs)} values"
            for v in vs:
                if not lo <= v <= hi: return f"{v} isn't between {lo} and {hi}"
            # (whether the upper bound itself is ever reached isn't specified)
            if every and not set(range(lo, hi)) <= set(vs): return f"never {sorted(set(range(lo, hi)) - set(vs))[:5]} in {n} values of {lo}..{hi}"
            if spread:
                h = {(v - lo) * spread // (hi - lo + 1) for v in vs}
                if len(h) < spread: return f"{n} values of {lo}..{hi} fall in {len(h)} of its {spread} parts"
            chk.count_kind("values in their range", len(vs)); chk.count_kind("distinct values", len(set(vs)))
        return j
    def bnd(a, b):
        return f"{num(a)}, {num(b)}" if r.random() < .5 else f"{num(b)}, {num(a)}"
    for k in range(chk.scale(6, 100)):
        seed = r.choice([0, 1, 42, -1, M - 1, 1 << 32, r.getrandbits(31), r.getrandbits(62)])
        s = f"random.seed({num(seed)});" if k else ""
        for a, b in SMALL:
            n = max(60, 25 * (b - a))
            add(s + loop(n, f"print(random.generate({bnd(a, b)}), '\\n');"), bounded(a, b, n, every=True), f"small range {a} {b}")
        for a, b in WIDE:
            add(s + loop(200, f"print(random.generate({bnd(a, b)}), '\\n');"), bounded(a, b, 200, spread=8), f"wide range {a} {b}")
        for a in (0, 5, -7, M - 1, -M, 1 << 40):
            add(s + loop(20, f"print(random.generate({num(a)}, {num(a)}), '\\n');"), bounded(a, a, 20), "single value")
        # the default bounds
        add(s + loop(200, "print(random.generate(), '\\n');"), bounded(0, M - 1, 200, spread=8), "default bounds")
        for m in (1, 2, 5): add(s + loop(100, f"print(random.generate(none, {m}), '\\n');"), bounded(0, m, 100, every=True), "default minimum")
        for m in (1, 2, 5): add(s + loop(100, f"print(random.generate({M - 1 - m}, none), '\\n');"), bounded(M - 1 - m, M - 1, 100, every=True), "default maximum")
        add(s + loop(200, "print(random.generate(none, 100), '\\n');"), bounded(0, 100, 200, spread=8), "default minimum")
        add(s + loop(200, "print(random.generate(9223372036854770000, none), '\\n');"), bounded(9223372036854770000, M - 1, 200, spread=8), "default maximum")
        add(s + loop(200, "print(random.generate(9223372036854770000), '\\n');"), bounded(9223372036854770000, M - 1, 200, spread=8), "default maximum")
    for k in range(chk.scale(250, 6000)):
        a, b = sorted(r.choice([r.getrandbits(r.randrange(1, 63)) * r.choice([-1, 1]), r.randrange(-M, M), r.randrange(-20, 20)]) for _ in "ab")
        wide = b - a >= 64
        n = 100 if wide else max(60, 25 * (b - a))
        seed = r.randrange(-M, M)
        add(f"random.seed({num(seed)});" + loop(n, f"print(random.generate({bnd(a, b)}), '\\n');"), bounded(a, b, n, every=not wide, spread=4 if wide else 0), f"range {a} {b}")
    # the same seed, the same values; another seed, others
    for k in range(chk.scale(150, 4000)):
        s1, s2 = r.randrange(-M, M), r.randrange(-M, M)
        if k < 40: s1 = r.randrange(0, 50); s2 = s1 + r.randrange(1, 9)
        if (s1 - s2) % (1 << 32) == 0 or {s1 % (1 << 32), s2 % (1 << 32)} == {0, 1}: continue
        a, b = r.choice(WIDE)
        n = r.choice([10, 50])
        def j(x, n=n):
            vs = values(x)
            if len(vs) != 4 * n: return f"{len(vs)} values"
            p = [vs[i*n:(i+1)*n] for i in range(4)]
            if p[0] != p[1] or p[0] != p[3]: return "the sequence isn't the same after the same seed"
            if p[0] == p[2]: return "the sequence is the same after another seed"
            chk.count_kind("sequences repeated", 2)
        go = loop(n, f"print(random.generate({bnd(a, b)}), '\\n');")
        add(f"random.seed({num(s1)}); {go} random.seed({num(s1)}); {go} random.seed({num(s2)}); {go} q = [1, 2, 3]; random.seed({num(s1)}); {go}", j, f"seeds {s1} {s2}")
    # seeds that differ by little, or only in their high or low digits
    for k in range(32):
        for s1 in (0, 1, 5, r.getrandbits(31), r.getrandbits(31), -3):
            for s2 in (s1 ^ 1 << k, s1 + (1 << k), s1 - (1 << k), s1 * (k + 2)):
                if (s1 - s2) % (1 << 32) == 0 or {s1 % (1 << 32), s2 % (1 << 32)} == {0, 1}: continue
                if not chk.thorough and r.random() < .5: continue
                def j(x):
                    vs = values(x)
                    if len(vs) != 20: return f"{len(vs)} values"
                    if vs[:10] == vs[10:]: return "the sequence is the same after another seed"
                    chk.count_kind("pairs of seeds told apart")
                go = loop(10, "print(random.generate(0, 1000000000), '\\n');")
                add(f"random.seed({num(s1)}); {go} random.seed({num(s2)}); {go}", j, f"seeds {s1} {s2}")
    for c, x in zip(cases, vf.run_cases(cases)):
        chk.observed(c.src)
        chk.sample({"program": c.src.decode(), "output": x.out[:200].decode()})
        if chk.crash(c, x, c.tag): continue
        m = f"fails: {x.err} {x.msg!r}" if x.ok != 1 else c.expect(x)
        if m: chk.violation("random: " + c.tag.split(" ")[0], f"{c.tag}: {m}\n{c.src.decode()}", c)
    # across processes too
    seqs = {}
    cs = [vf.Case(f"random.seed({s});" + loop(30, "print(random.generate(0, 1000000), ' ');"), variant=v, gcper=g) for s in range(2, chk.scale(12, 60)) for v in ("asan", "plain") for g in (0, 5)]
    for c, x in zip(cs, vf.run_cases(cs)):
        chk.observed(("process", c.src, c.variant, c.gcper))
        if seqs.setdefault(c.src, x.out) != x.out: chk.violation("random: processes", f"the sequence differs from that of another process with the same seed\n{c.src.decode()}", c)
    # what can't be bounds or seeds
    b = model.Batch(chk)
    for v in ("1.0", "'1'", "true", "[1]", "{a: 1}", "random", "int", "print"):
        for e in (f"random.generate({v}, 5)", f"random.generate(0, {v})", f"random.seed({v})", f"random.generate({v})"):
            b.add(f"print('before'); {e}; print('after');", b"before", ref.Err("runtime"), "random, not allowed", sig=e)
    b.add("print('before'); random.seed(); print('after');", b"before", ref.Err("runtime"), "random, not allowed", sig="noseed")
    b.add("print('before'); random.seed(none); print('after');", b"before", ref.Err("runtime"), "random, not allowed", sig="noseed2")
    b.add("print(random.seed(5), random.seed(5, 6));", b"nonenone", None, "seed", sig="seed")
    b.flush()
    chk.finish(500, 300)

vf.main(main)
