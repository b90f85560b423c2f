from common import *
import hostile, random, corpus

def main():
    chk = vf.Check("C32", rule="distinct executions under MemorySanitizer, or run by several builds over differently filled memory and compared")
    r = chk.rng
    w = os.path.join(vf.tmpdir(), "w"); os.makedirs(w); corpus.setup(w)
    def sub(): return random.Random(r.random())
    jobs = []
    def run():
        for c, x in zip(jobs, vf.run_cases(jobs, cwd=w)): watch(chk, c, x)
        jobs.clear()
    def add(src, what, **kw):
        o = dict(variant="msan" if r.random() < .6 else "msanpool", abort_at=30000, heap=r.choice([1 << 14, 1 << 16, 1 << 18, 1 << 20]))
        x = r.random()
        if x < .35: o.update(gcper=r.choice([1, 2, 3, 7, 20]), gcphase=r.randrange(1, 30), abort_at=4000, heap=1 << 16)
        if r.random() < .2: o.update(flags=vf.F_PROFILE)
        o.update(kw)
        c = vf.Case(src, **o); c.tag = what
        jobs.append(c)
        if len(jobs) >= 1500: run()
    for n, s in corpus.P.items():
        for k in range(chk.scale(4, 40)): add(s, "hand-written", stdin=corpus.INPUT)
        for m in (vf.DISASM, vf.DIAGRAM): add(s, "compiled or drawn", mode=m)
        for h in range(6000, 16000, chk.scale(2000, 100)): add(s, "small heap", variant="msanpool", heap=h, gcper=0, stdin=corpus.INPUT)
    srcs = []
    for i in range(chk.scale(900, 30000)):
        s = gen.source(gen.Gen(sub(), wild=r.choice([0, .01, .05]), trace=0, size=r.choice([6, 15, 30])).program(), r)
        srcs.append(s); add(s, "random program")
        if chk.enough(): break
    for i in range(chk.scale(1800, 40000)):
        add(hostile.wild(sub(), r.choice([1, 2, 4, 6])), "wild calls", stdin=b"line one\nline two\n")
        if chk.enough(): break
    for i in range(chk.scale(900, 40000)):
        s = hostile.mutate_tokens(r, r.choice(srcs), r.choice(srcs)); x = r.random()
        add(s, "mutated source", mode=vf.NOJA if x < .6 else vf.DISASM if x < .8 else vf.DIAGRAM)
        if chk.enough(): break
    for i in range(chk.scale(400, 20000)):
        add(hostile.mutate_bytes(r, r.choice(srcs).encode()), "mutated bytes")
        if chk.enough(): break
    run()
    codes = [hostile.asm_parse(x.out.decode("utf-8", "replace")) for x in vf.run_cases([vf.Case(s, mode=vf.EMIT) for s in r.sample(srcs, min(len(srcs), chk.scale(120, 1500)))]) if x.ok == 1]
    if not codes: raise vf.HarnessError("no bytecode")
    for i in range(chk.scale(1200, 50000)):
        if r.random() < .6: add(hostile.asm_text(hostile.mutate_code(r, r.choice(codes))), "mutated bytecode", mode=vf.ASM)
        else: add(hostile.asm_text(hostile.typed_asm(r)), "random bytecode", mode=vf.ASM)
        if chk.enough(): break
    for i in range(chk.scale(300, 10000)):
        add(hostile.mutate_bytes(r, hostile.asm_text(hostile.typed_asm(r)).encode()), "mutated bytecode text", mode=vf.ASMDIS)
        if chk.enough(): break
    run()
    # the same programs, by different compilers and over different leftovers in the memory
    ways = ["plain", "plain+p90", "plain+p255", "clang0+p1"]
    todo = [(s, {}) for s in corpus.P.values()] + [(s, {}) for s in srcs[:chk.scale(500, 15000)]]
    todo += [(hostile.asm_text(hostile.mutate_code(r, r.choice(codes))), {"mode": vf.ASM}) for _ in range(chk.scale(300, 10000))]
    for at in range(0, len(todo), 500):
        part = todo[at:at+500]; cs = []
        for s, kw in part:
            g = r.choice([0, 0, 3, 11])
            for v in ways:
                c = vf.Case(s, variant=v, abort_at=30000, stdin=corpus.INPUT, gcper=g, heap=1 << 18, **kw); c.tag = "compared"; cs.append(c)
        res = vf.run_cases(cs, cwd=w)
        for i in range(0, len(cs), len(ways)):
            sigs = [(x.how, x.code, x.ok, x.err, x.msg, x.out, x.ninstr) for x in res[i:i+len(ways)]]
            for c, x in zip(cs[i:i+len(ways)], res[i:]): watch(chk, c, x)
            if len(set(sigs)) != 1:
                k = next(k for k in range(len(ways)) if sigs[k] != sigs[0])
                chk.violation("compared: the result depends on the build or on what the memory contained", f"{ways[0]}: {str(sigs[0])[:600]}\n{ways[k]}: {str(sigs[k])[:600]}\n{cs[i].src[:600]!r}", cs[i+k])
    chk.finish(4000, 3000)

def watch(chk, c, x):
    chk.observed((c.src, c.mode, c.heap, c.gcper, c.gcphase, c.variant))
    chk.count_kind(c.tag + ", build " + c.variant)
    chk.count("instructions executed", x.ninstr); chk.count("collections", x.ngc)
    if chk.crash(c, x, c.tag): return
    chk.count("ended with " + (f"a {x.err} error" if x.ok == 0 else "success"))
    chk.sample({"what": c.tag, "build": c.variant, "source": c.src[:200].decode("utf-8", "replace"), "ok": x.ok, "error": x.err, "instructions": x.ninstr})

if __name__ == "__main__":
    vf.main(main)
