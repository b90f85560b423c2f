from common import *
import random, corpus, hostile

# The embedding interface is run with the n-th memory request of the library refused, for
# each n: what's observed must be either what happens without the refusal or a prefix of it
# followed by an error, with everything released.
STICKY = 128
BIG = 1 << 21
EXTRA = {
 "long line": ("l = input(); print(count(l), '\\n'); l = input(); print(l);", b"x" * 5000 + b"\nshort\n"),
 "long lines": ("l = input(); while l != none: { print(count(l), ' '); l = input(); }", b"".join(b"y" * n + b"\n" for n in (255, 256, 257, 511, 512, 600, 1100))),
 "many strings": ("s = string.cat(" + ", ".join("'%s'" % ("abcdefgh" * k) for k in range(1, 30)) + "); print(count(s)); t = string.cat('a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm'); print(t);", b""),
 "large objects": ("l = []; i = 0; while i < 6: { b = buffer.new(700000); l[i] = b; b[5] = i; i = i + 1; } i = 0; while i < 6: { print((l[i])[5]); i = i + 1; }", b""),
 "slices": ("b = buffer.new(100); l = []; i = 0; while i < 30: { l[i] = buffer.sliceUp(b, i, 10); b = l[i]; i = i / 1 + 1; if i > 8: break; } print(count(l));", b""),
 "deep names": ("fun f(a, b, c) { g = [a]; fun h(d) { return g, d, {a: a, b: b}; } return h(c); } x, y, z = f(1, 2, 3); print(x, y, z);", b""),
 "long expression": ("x = " + " + ".join(str(i) for i in range(300)) + "; print(x);", b""),
 "long source": ("\n".join(f"v{i} = [{i}, 'string {i}', {{k: v{i-1 if i else 'x'}}}];" if i else "vx = 0; v0 = 1;" for i in range(120)) + " print(count(v119));", b""),
}

# .. each of their requests, one by one
SMALL = {
 "a folder": "d = files.openDir('sub'); x = files.nextDirItem(d); y = files.nextDirItem(d);",
 "a file": "f, e = files.openFile('data.txt', files.READ); b = buffer.new(9); n = files.read(f, b);",
 "no file": "f, e = files.openFile('gone', files.READ); print(e);",
 "written": "f, e = files.openFile('w.txt', files.WRITE); files.write(f, buffer.fromString('text'));",
 "socket": "s, e = net.socket(net.AF_INET, net.SOCK_STREAM, 0); net.close(s);",
 "keys": "m = {}; k = [[1], {a: 2}]; m[k] = 3; print(keysof(m), m);",
 "strings": "s = string.cat('a', 'bc'); t = string.trim(' x '); u = string.slice('abc', 1, 1); n, e = string.toInt('12x'); c = string.chr(960); print(s, t, u, n, e, c, s[1]);",
 "types": "t = ?int | [String]; print(istypeof(t, ['a']), t, typename(t)); fun f(x: ?t = none) return x; print(f(), f(3));",
 "buffers": "b = buffer.new(3); c = buffer.sliceUp(b, 1, 1); s, e = buffer.toString(c); d = buffer.fromString('x'); print(s, d, b);",
 "input": "print(input());", "import": "x = import('sub/deep.noja'); print(x);", "iterate": "it = makeIterator([1]); v, k, i = it->next(); print(v, k, i);",
 "functions": "fun f(a, b = 2) { fun g(c) return a, b, c; return g; } x, y, z = (f(1))(3); print(x, y, z);",
 "lists": "l = [1, 2]; append(l, 3); l[3] = 4; l[4] = 5; m = {a: l}; m.b = 6; print(l, m, count(m));",
 "error": "fun f() error('no'); f();", "long error": "fun f() error('" + "a long message " * 40 + "'); f();", "long type error": "fun f(x: " + " | ".join(["[String]", "{a: int}", "?List"] * 12) + ") return x; f(5);", "syntax": "x = (1;", "where": "print(count(getCurrentScriptDirectory()), getCurrentScriptLocation(), count(getCurrentWorkingDirectory()));",
}

def main():
    chk = vf.Check("C30", rule="distinct (program, way of running it, refused request) executions in which a memory request of the library was refused")
    r = chk.rng
    d = corpus.setup(os.path.join(vf.tmpdir(), "corpus"))
    progs = [(n, s, corpus.INPUT) for n, s in corpus.P.items()] + [(n, s, i) for n, (s, i) in EXTRA.items()]
    for i in range(chk.scale(4, 150)):
        g = gen.Gen(random.Random(r.random()), wild=r.choice([0, .03]), trace=0, size=r.choice([6, 15]))
        progs.append((f"random", gen.source(g.program(), r), corpus.INPUT))
    jobs = []
    # the heap as shipped, and with a request for each object
    for v in ("asanpool+oom", "asan+oom"):
        opt = dict(variant=v, heap=BIG, abort_at=60000)
        jobs += plan(chk, r, progs, opt)
    base = vf.run_cases([c for _, c in jobs], cwd=d)
    tests = []
    per = chk.scale(7, 250)
    setup = {v: vf.run_cases([vf.Case("", variant=v, heap=BIG)])[0].depth for v in ("asanpool+oom", "asan+oom")}
    for (what, c), b in zip(jobs, base):
        chk.count_kind("without refusals")
        if chk.crash(c, b, what): continue
        N = b.depth
        chk.cov["most requests made by a run"] = max(chk.cov.get("most requests made by a run", 0), N)
        if N == 0: continue
        # the requests of the setup are the same for each: they are tried elsewhere
        first = int(setup[c.variant] * .85) if c.mode in (vf.NOJA, vf.FILE, vf.ASM) else 1
        span = range(min(first, N), N + 1)
        if what.startswith("small: "):
            for n in range(max(1, min(setup[c.variant] - 60, N)), N + 1):
                k = vf.Case.load(c.dump()); k.flags = c.flags | n << 16 | (STICKY if r.random() < .3 else 0)
                tests.append((what, n, b, k))
            continue
        pts = set(span) if len(span) <= per else set(r.sample(span, per)) | {N}
        for n in sorted(pts):
            fl = c.flags | n << 16 | (STICKY if r.random() < .3 else 0)
            k = vf.Case.load(c.dump()); k.flags = fl
            tests.append((what, n, b, k))
    # the setup of a runtime, completely
    for v in ("asanpool+oom", "asan+oom"):
      c = vf.Case("print('hello');", variant=v, heap=BIG)
      b = vf.run_cases([c], cwd=d)[0]
      for n in range(1, b.depth + 1):
        for st in (0, STICKY):
            k = vf.Case.load(c.dump()); k.flags = c.flags | n << 16 | st
            tests.append(("setup", n, b, k))
      chk.cov["requests made by the setup and the smallest program: " + v] = b.depth
    for lo in range(0, len(tests), 4000):
        part = tests[lo:lo+4000]
        for (what, n, b, c), x in zip(part, vf.run_cases([t[3] for t in part], cwd=d)): judge(chk, what, n, b, c, x)
        if chk.enough(): break
    chk.finish(1000, 900)

def plan(chk, r, progs, opt):
    jobs = []
    def add(what, c): jobs.append((what, c))
    for n, s, i in progs:
        add("run: " + n, vf.Case(s, stdin=i, **opt))
        add("drawn: " + n, vf.Case(s, mode=vf.DIAGRAM, **opt))
        add("compiled: " + n, vf.Case(s, mode=vf.DISASM, **opt))
        add("profiled: " + n, vf.Case(s, stdin=i, **dict(opt, flags=vf.F_PROFILE)))
        add("collected: " + n, vf.Case(s, stdin=i, gcper=r.choice([5, 20, 60]), **opt))
        add("small heap: " + n, vf.Case(s, stdin=i, **dict(opt, heap=r.choice([9000, 11000, 14000, 20000]))))
        add("run twice: " + n, vf.Case(s, stdin=i, **dict(opt, flags=vf.F_TWICE)))
    for n in list(corpus.FILES) + ["nothing.noja"]:
        for md in (vf.FILE, vf.DIAGFILE): add("file: " + n, vf.Case("", name=n, mode=md, **opt))
    for n, s in SMALL.items():
        add("small: " + n, vf.Case(s, stdin=b"line", **opt))
        if "import" in n or "error" in n: continue
        add("small: profiled, " + n, vf.Case(s, stdin=b"line", **dict(opt, flags=vf.F_PROFILE)))
    ems = vf.run_cases([vf.Case(s, mode=vf.EMIT) for _, s, _ in progs])
    for (n, s, i), e in zip(progs, ems):
        if e.ok != 1: continue
        t = e.out.decode("utf-8", "replace")
        add("bytecode: " + n, vf.Case(t, mode=vf.ASM, stdin=i, **opt))
        add("assembled: " + n, vf.Case(t, mode=vf.ASMDIS, **opt))
    return jobs

def judge(chk, what, n, b, c, x):
    kind = what.split(":")[0]
    if chk.crash(c, x, f"{what}, request {n} refused"): chk.observed((c.src, c.mode, c.flags, c.heap, c.gcper, c.name)); return
    if not x.gcerr: chk.count("not reached (the requests depend on the run)"); return
    chk.observed((c.src, c.mode, c.flags, c.heap, c.gcper, c.name))
    chk.count_kind(kind); chk.count("requests refused", x.gcerr)
    w = f"{what}, request {n} of {b.depth} refused" + (" and all that follow" if c.flags & STICKY else "")
    ctx = f"\n{c.src[:800].decode(errors='replace')}\n{x.stderr[-500:]!r}"
    if x.ok == 2: chk.violation(w + ": success with an error pending", f"{x.msg!r}" + ctx, c); return
    if x.ok:
        chk.count("completed all the same")
        if c.flags & vf.F_PROFILE == 0 and (not b.ok or x.out != b.out): chk.violation(w + ": completed differently", f"{x.out[:300]!r} instead of {b.out[:300]!r} (without: {b.ok} {b.msg!r})" + ctx, c); return
    else:
        chk.count_kind("error: " + str(x.err))
        if x.err is None: chk.violation(w + ": failed without an error", ctx, c); return
        # a collection that fails makes the monitor's callback stop the program
        if x.err not in ("internal", "init") and not (c.gcper and x.msg == b"Forced abortion") and (x.err != b.err or x.msg != b.msg and (len(x.msg) < 100 or not b.msg.startswith(x.msg))): chk.violation(w + ": the error is another one", f"{x.err} {x.msg!r} (without: {b.ok} {b.err} {b.msg!r})" + ctx, c); return
        if not x.msg and x.err != "init": chk.violation(w + ": error without a message", ctx, c); return
        if c.mode in (vf.NOJA, vf.FILE, vf.ASM) and not b.out.startswith(x.out): chk.violation(w + ": the output isn't a prefix", f"{x.out[:300]!r} of {b.out[:300]!r}" + ctx, c); return
    if x.leak: chk.violation(w + ": memory " + ("not released" if x.leak > 0 else "released too much"), f"{x.leak} bytes; ok={x.ok} {x.err} {x.msg!r}" + ctx, c)
    elif x.fds and b"socket" not in c.src: chk.violation(w + ": descriptors not released", f"{x.fds}" + ctx, c)

if __name__ == "__main__":
    vf.main(main)
