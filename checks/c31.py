from common import *
import hostile, random, corpus

def main():
    chk = vf.Check("C31", rule="distinct executions of the debug build, whose assertions watch every step, compared with the release build")
    r = chk.rng
    d = corpus.setup(os.path.join(vf.tmpdir(), "w")) if not os.makedirs(os.path.join(vf.tmpdir(), "w")) else None
    def sub(): return random.Random(r.random())
    jobs = []
    def run():
        both = []
        for c in jobs:
            both.append(c)
            o = vf.Case.load(c.dump()); o.variant = {"debug": "asan", "debugpool": "asanpool"}[c.variant]; both.append(o)
        res = vf.run_cases(both, cwd=d)
        for i, c in enumerate(jobs): judge(chk, c, res[2*i], res[2*i+1])
        jobs.clear()
    def add(src, what, comparable=True, **kw):
        v = "debug" if r.random() < .6 else "debugpool"
        o = dict(variant=v, abort_at=30000, heap=r.choice([1 << 14, 1 << 16, 1 << 18, 1 << 20]))
        x = r.random()
        if x < .3: o.update(gcper=r.choice([1, 2, 3, 7, 20]), gcphase=r.randrange(1, 30), abort_at=4000, heap=1 << 16)
        elif x < .4: o.update(intr_at=r.randrange(1, 400))
        if r.random() < .2: o.update(flags=vf.F_PROFILE)
        o.update(kw)
        c = vf.Case(src, **o); c.tag = what; c.expect = comparable
        jobs.append(c)
        if len(jobs) >= 800: run()
    for n, s in corpus.P.items():
        for k in range(chk.scale(4, 40)): add(s, "hand-written: " + n, stdin=corpus.INPUT)
        for h in range(6000, 16000, chk.scale(2000, 100)): add(s, "small heap", variant="debugpool", heap=h, gcper=0, stdin=corpus.INPUT)
    srcs = []
    for i in range(chk.scale(900, 30000)):
        s = gen.source(gen.Gen(sub(), wild=r.choice([0, .01, .05, .2]), trace=0, size=r.choice([6, 15, 30])).program(), r)
        srcs.append(s); add(s, "random program")
        if chk.enough(): break
    for i in range(chk.scale(1200, 40000)):
        add(hostile.wild(sub(), r.choice([1, 2, 4, 6])), "wild calls", False, stdin=b"line one\nline two\n")
        if chk.enough(): break
    for i in range(chk.scale(900, 40000)):
        s = hostile.mutate_tokens(r, r.choice(srcs), r.choice(srcs)); x = r.random()
        add(s, "mutated source", mode=vf.NOJA if x < .6 else vf.DISASM if x < .8 else vf.DIAGRAM)
        if chk.enough(): break
    for i in range(chk.scale(400, 20000)):
        add(hostile.mutate_bytes(r, r.choice(srcs).encode()), "mutated bytes")
        if chk.enough(): break
    run()
    codes = [hostile.asm_parse(x.out.decode("utf-8", "replace")) for x in vf.run_cases([vf.Case(s, mode=vf.EMIT) for s in r.sample(srcs, min(len(srcs), chk.scale(120, 1500)))]) if x.ok == 1]
    if not codes: raise vf.HarnessError("no bytecode")
    for i in range(chk.scale(1500, 50000)):
        if r.random() < .6: add(hostile.asm_text(hostile.mutate_code(r, r.choice(codes))), "mutated bytecode", mode=vf.ASM)
        else: add(hostile.asm_text(hostile.typed_asm(r)), "random bytecode", mode=vf.ASM)
        if chk.enough(): break
    for i in range(chk.scale(300, 10000)):
        add(hostile.mutate_bytes(r, hostile.asm_text(hostile.typed_asm(r)).encode()), "mutated bytecode text", mode=vf.ASMDIS)
        if chk.enough(): break
    run()
    chk.finish(4000, 3000)

def judge(chk, c, a, b):
    chk.observed((c.src, c.mode, c.heap, c.gcper, c.gcphase, c.intr_at, c.variant))
    chk.count_kind(c.tag.split(":")[0] + ", build " + c.variant)
    chk.count("instructions executed with the assertions on", a.ninstr); chk.count("collections with the assertions on", a.ngc)
    if chk.crash(c, a, c.tag.split(":")[0]): return
    chk.count("ended with " + (f"a {a.err} error" if a.ok == 0 else "success"))
    if b.crashed: return      # the release build is for C01 to judge
    if not c.expect: return
    chk.count("compared with the release build")
    fa, fb = [(x.ok, x.err, x.msg, x.out) for x in (a, b)]
    if fa != fb:
        chk.violation(f"{c.tag}: the debug build ends differently", f"debug {str(fa)[:500]}\nrelease {str(fb)[:500]}\n{c.src[:600]!r}", c)
    chk.sample({"what": c.tag, "source": c.src[:200].decode("utf-8", "replace"), "ok": a.ok, "error": a.err, "instructions": a.ninstr})

if __name__ == "__main__":
    vf.main(main)
