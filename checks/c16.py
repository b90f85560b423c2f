from common import *
import random, re, corpus, hostile

BIG = 1 << 21

def main():
    chk = vf.Check("C16", rule="distinct (program, way of ending, collection schedule) executions whose acquired memory and descriptors were accounted for; distinct counts of open descriptors observed from inside programs")
    r = chk.rng
    d = corpus.setup(os.path.join(vf.tmpdir(), "corpus"))
    endings(chk, r, d)
    descriptors(chk, r, d)
    memory(chk, r, d)
    acquisition(chk, r, d)
    chk.finish(3000, 2500)

def account(chk, c, x, what):
    """Everything acquired must have been released."""
    chk.observed((c.src, c.mode, c.gcper, c.gcphase, c.abort_at, c.intr_at, c.flags, c.heap))
    chk.count_kind(what)
    if chk.crash(c, x, what): return
    chk.count("ended well" if x.ok else f"ended with a {x.err} error"); chk.count("collections", x.ngc)
    if x.leak > 0: chk.violation(what + ": memory not released", f"{x.leak} bytes left; ok={x.ok} {x.err} {x.msg[:100]!r}\n{c.src[:1500].decode(errors='replace')}", c)
    elif x.leak < 0: chk.violation(what + ": more released than acquired", f"{x.leak} bytes; ok={x.ok} {x.err} {x.msg!r}\n{c.src[:1500].decode(errors='replace')}", c)
    # sockets are plain numbers, closed only by net.close
    if x.fds and b"socket" not in c.src: chk.violation(what + ": descriptors not released", f"{x.fds} descriptors left; ok={x.ok} {x.err} {x.msg[:100]!r}\n{c.src[:1500].decode(errors='replace')}", c)

def endings(chk, r, d):
    progs = [("corpus", n, s) for n, s in corpus.P.items()]
    for i in range(chk.scale(60, 3000)):
        g = gen.Gen(random.Random(r.random()), wild=r.choice([0, .03, .08]), trace=0, size=r.choice([6, 15, 30]))
        progs.append(("random", "", gen.source(g.program(), r)))
    for i in range(chk.scale(120, 4000)):
        progs.append(("wild calls", "", hostile.wild(random.Random(r.random()), r.choice([2, 5, 10]))))
    base = vf.run_cases([vf.Case(s, heap=BIG, stdin=corpus.INPUT, abort_at=60000) for _, _, s in progs], cwd=d)
    jobs = []
    for (w, n, s), b in zip(progs, base):
        def add(how, **kw):
            kw = dict(dict(heap=BIG, stdin=corpus.INPUT, abort_at=60000), **kw)
            jobs.append((f"{w}, {how}", vf.Case(kw.pop("src", s), **kw)))
        c = vf.Case(s, heap=BIG, stdin=corpus.INPUT, abort_at=60000)
        account(chk, c, b, w + ", plain")
        if b.crashed: continue
        N = max(b.ninstr, 1)
        k = chk.scale(6, 40) if w == "corpus" else chk.scale(2, 6)
        for _ in range(k):
            add("stopped by the callback", abort_at=r.randrange(1, N + 2))
            add("interrupted", intr_at=r.randrange(1, N + 2))
            add("out of heap", heap=r.randrange(8000, 24000))
            add("collected at some points", gcper=r.choice([2, 3, 5, 11, 37, 100]), gcphase=r.randrange(1, 40), abort_at=6000, variant="asan")
            add("collected and stopped", gcper=r.choice([1, 3, 10]), abort_at=r.randrange(1, min(N, 4000) + 2))
        add("profiled", flags=vf.F_PROFILE); add("run twice", flags=vf.F_TWICE); add("profiled, run twice", flags=vf.F_TWICE | vf.F_PROFILE)
        add("run twice, collected", flags=vf.F_TWICE, gcper=7, abort_at=4000); add("no callback", flags=vf.F_NOCALLBACK) if b.ok or b.ninstr < 60000 else None
        add("no builtins", flags=vf.F_NOBUILTINS)
        add("compiled only", mode=vf.DISASM); add("drawn", mode=vf.DIAGRAM); add("emitted and reassembled", mode=vf.EMIT); add("compared", mode=vf.EQUIV, name=s)
        for _ in range(chk.scale(5 if w == "corpus" else 2, 12)):
            m = hostile.mutate_tokens(r, s, r.choice(progs)[2])
            # not opening sockets or writing files by accident is up to the word list
            if r.random() < .3: m = m[:r.randrange(len(m) + 1)]
            md = r.choice([vf.NOJA, vf.DISASM, vf.DIAGRAM, vf.EMIT])
            add("altered source" + ("" if md == vf.NOJA else ", not run"), src=m, mode=md)
    for f in list(corpus.FILES) + ["nothing.noja", "sub", "."]:
        for md in (vf.FILE, vf.DIAGFILE, vf.ASMFILE): jobs.append(("file", vf.Case("", name=f, mode=md, stdin=corpus.INPUT)))
    # the bytecode the compiler makes, as it is and altered
    ems = vf.run_cases([vf.Case(s, mode=vf.EMIT) for _, _, s in progs])
    for (w, n, s), e in zip(progs, ems):
        if e.ok != 1: continue
        t = e.out.decode("utf-8", "replace")
        jobs.append(("bytecode", vf.Case(t, mode=vf.ASM, heap=BIG, stdin=corpus.INPUT, abort_at=60000)))
        code = hostile.asm_parse(t)
        for _ in range(chk.scale(2, 8)):
            jobs.append(("altered bytecode", vf.Case(hostile.asm_text(hostile.mutate_code(r, code)), mode=vf.ASM, stdin=corpus.INPUT, abort_at=20000, gcper=r.choice([0, 0, 5]))))
        jobs.append(("altered bytecode text", vf.Case(hostile.mutate_tokens(r, t, t), mode=r.choice([vf.ASM, vf.ASMDIS, vf.REASM]), abort_at=20000)))
    for lo in range(0, len(jobs), 4000):
        part = jobs[lo:lo+4000]
        for (w, c), x in zip(part, vf.run_cases([j[1] for j in part], cwd=d)): account(chk, c, x, w)
        if chk.enough(): return

# -- what is open while a program runs, counted by the program itself ---------
COUNT = "fun fds() { d = files.openDir('/proc/self/fd'); n = 0; while files.nextDirItem(d) != none: n = n + 1; return n; }\n"
def descriptors(chk, r, d):
    """Histories of opening, keeping and dropping files, with a collection at every
    instruction: what's open is exactly what is reachable."""
    cases = []
    for _ in range(chk.scale(60, 1500)):
        src = [COUNT, "base = fds();"]
        # place -> number of descriptors reachable from it
        held, want = {}, []
        ops = r.randrange(3, 12)
        for i in range(ops):
            k = f"v{r.randrange(4)}"
            x = r.random()
            op = r.choice(["files.openFile('data.txt', files.READ)", "files.openDir('sub')", f"files.openFile('tmp{len(cases)}', files.WRITE)", "files.openFile('data.txt', files.APPEND)"])
            if x < .3: src.append(f"{k} = {op};"); held[k] = 1
            elif x < .45: src.append(f"{k} = [1, [{op}, {{a: {op}}}]];".replace(op, "f1(" + op + ")")); held[k] = 2
            elif x < .55: src.append(f"{k} = none;"); held[k] = 0
            elif x < .65: src.append(f"{k} = mk({op});"); held[k] = 1
            elif x < .75: src.append(f"{op}; t = {op}; t = none;")
            elif x < .85: src.append(f"t, e = files.openFile('no-such-file', files.READ); t = files.openDir('no-such-dir'); t = none;")
            else: src.append(f"fun loc() {{ a = {op}; b = [a, {op}]; return 1; }} loc();")
            src.append("print(fds() - base, ' ');"); want.append(sum(held.values()))
        pre = "fun f1(f) return f; fun mk(f) { x = [f]; fun g() return x; return g; }\n"
        c = vf.Case(pre + "\n".join(src), heap=BIG, gcper=1, abort_at=0, cpu=30, variant=r.choice(["asan", "asan", "plain"])); c.expect = " ".join(str(w) for w in want) + " "
        cases.append(c)
    seen = set()
    for c, x in zip(cases, vf.run_cases(cases, cwd=d)):
        account(chk, c, x, "history of files, collected at every instruction") if c.variant == "asan" else chk.observed(c.src)
        if x.crashed: chk.crash(c, x, "history of files"); continue
        seen |= set(x.out.split())
        if x.ok != 1 or x.out.decode() != c.expect: chk.violation("history of files: what's open isn't what's reachable", f"open descriptors {x.out!r}, reachable {c.expect!r} ({x.ok} {x.msg!r})\n{c.src.decode()}", c)
    chk.cov["numbers of open files seen"] = sorted(int(s) for s in seen if re.fullmatch(rb"-?\d+", s))
    # dropped files don't accumulate, kept ones go on working
    cases = []
    for kind, op, use in (("files", "files.openFile('data.txt', files.READ)", "b = buffer.new(10); n = files.read(KEEP, b); print(b, ' ');"), ("directories", "files.openDir('sub')", "print(files.nextDirItem(KEEP), ' ');")):
        for per in (1, 7, 50, 400):
            n = 300 if per == 1 else 3000
            src = COUNT + f"keep, e = {op}; base = fds(); high = 0; i = 0; while i < {n}: {{ f, e = {op}; i = i + 1; if i % 50 == 0: {{ k = fds() - base; if k > high: high = k; }} }}\nprint(high, ' ');" + use.replace("KEEP", "keep")
            want = b"[66, 69, 72, 73, 74, 20, 6C, 69, 6E, 65] " if kind == "files" else None
            cases.append((kind, per, want, vf.Case(src, heap=1 << 22, gcper=per, abort_at=0, cpu=40, variant="plain")))
    for (kind, per, want, c), x in zip(cases, vf.run_cases([k[3] for k in cases], cwd=d, per=1)):
        chk.observed(c.src + b"%d" % per); chk.count_kind("dropped " + kind)
        if chk.crash(c, x, kind): continue
        m = re.match(rb"(\d+) ", x.out)
        if x.ok != 1 or not m or int(m.group(1)) > per / 4 + 3: chk.violation(f"dropped {kind} accumulate", f"collection every {per} instructions: {x.out[:100]!r} {x.ok} {x.msg!r}", c)
        elif want and not x.out.endswith(want) or x.out.endswith(b"none "): chk.violation(f"kept {kind}: not usable after collections", f"{x.out!r}", c)

ACQUIRE = ["od(p)", "of(q, z)", "bn(n)", "bs(b, z, z)", "bf(p)", "mk(n)", "{a: p}", "[p, p]", "(t | p)", "(?t)", "sc(p, q)", "ko(m)", "im(i)", "bt(b)", "makeIterator(l)", "toString(l)"]
def acquisition(chk, r, d):
    """The heap ends exactly when something is acquired."""
    jobs = []
    for a in ACQUIRE:
        for h in r.sample(range(9800, 12600, 8), chk.scale(20, 350)):
            # (nothing else is made, so that what's asked of the heap is mostly the thing itself)
            s = "fun mk(n) { fun g() return n; return g; } od = files.openDir; of = files.openFile; p = 'sub'; q = 'data.txt'; i = 'ret.noja'; z = 0; n = 10; t = int; l = [1, 2]; m = {a: 1, b: 2}; sc = string.cat; ko = keysof; im = import; b = buffer.fromString('xyz'); bt = buffer.toString; bn = buffer.new; bs = buffer.sliceUp; bf = buffer.fromString;\n" + "".join(f"x{j} = {a};\n" for j in range(30)) + "k = []; while true: k = [k];"
            jobs.append((a, vf.Case(s, heap=h, abort_at=0, cpu=20)))
    fails = {}
    for (a, c), x in zip(jobs, vf.run_cases([j[1] for j in jobs], cwd=d)):
        account(chk, c, x, "out of heap while acquiring")
        if x.crashed: continue
        if x.ok or x.err != "internal" or b"eap" not in x.msg and b"emory" not in x.msg: chk.violation("out of heap while acquiring: wrong ending", f"{a}, heap {c.heap}: {x.ok} {x.err} {x.msg!r}", c)
        k = fails.setdefault(a, {"in a library function": 0, "before": 0, "later": 0})
        m = re.search(rb"#(\d+) \(unnamed\):(\d+)\n$", x.stderr)
        k["in a library function" if b"(no source)" in x.stderr else "later" if m and int(m[2]) > 31 else "before"] += 1
    chk.cov["where the heap ended"] = fails

def memory(chk, r, d):
    """What's dropped is given back at a collection: the process doesn't grow."""
    size = "fun kb() { f, e = files.openFile('/proc/self/statm', files.READ); b = buffer.new(12); files.read(f, b); i = 0; n = 0; while b[i] != 32: { n = n * 10 + b[i] - 48; i = i + 1; } return n * 4; }\n"
    body = {
     "buffers": "x = buffer.new(1000000); x[5] = 1;",
     "slices": "x = buffer.new(1000000); y = buffer.sliceUp(x, 10, 20); z = buffer.sliceUp(y, 1, 2);",
     "big strings": "x = 'abcdefghij'; j = 0; while j < 14: { x = string.cat(x, x); j = j + 1; }",
     "errors of opening": "x, e = files.openFile('no-such-file', files.READ); j = 0; while j < 30: { x, e = files.openFile('no-such-file', files.READ); j = j + 1; }",
     "conversions": "x = buffer.fromString('some text that is not that short'); s = buffer.toString(buffer.new(100000)); t = buffer.sliceUp(x, 0, 5);",
    }
    cases = []
    for w, b in body.items():
        n = {"errors of opening": 300}.get(w, 250)
        src = size + f"i = 0; while i < {n}: {{ {b} i = i + 1; if i == 50: a = kb(); }} print(kb() - a);"
        cases.append((w, vf.Case(src, heap=1 << 20, gcper=25, abort_at=0, cpu=40, variant="plain")))
    for (w, c), x in zip(cases, vf.run_cases([k[1] for k in cases], cwd=d, per=1)):
        chk.observed(c.src); chk.count_kind("growth of the process: " + w)
        if chk.crash(c, x, w): continue
        chk.cov.setdefault("growth of the process (KB)", {})[w] = x.out.decode("latin-1")
        if x.ok != 1 or not re.fullmatch(rb"-?\d+", x.out) or int(x.out) > 30000: chk.violation("the process grows: " + w, f"{x.out!r} KB, {x.ok} {x.msg!r}\n{c.src.decode()}", c)

if __name__ == "__main__":
    vf.main(main)
