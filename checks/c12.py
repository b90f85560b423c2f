from common import *
import hostile, random, os, subprocess, re, shutil, glob

MODES = {vf.DISASM: "noja", vf.ASMDIS: "assembly", vf.DIAGRAM: "diagram"}
OFF = re.compile(rb"offset=(-?\d+)\n$")

def main():
    chk = vf.Check("C12", rule="distinct texts given to the compiler, the assembler or the diagram printer whose outcome, error, offset and allocations were checked")
    r = chk.rng
    cases = []
    def run():
        for c, x in zip(cases, vf.run_cases(cases)): judge(chk, c, x)
        cases.clear()
    def add(text, what, modes):
        for m in modes:
            c = vf.Case(text, mode=m); c.tag = what
            cases.append(c)
        if len(cases) > 3000: run()
    D, A, G = vf.DISASM, vf.ASMDIS, vf.DIAGRAM
    srcs = []
    for i in range(60):
        g = gen.Gen(random.Random(r.random()), wild=0, trace=0, size=r.choice([4, 10, 20]))
        srcs.append(gen.source(g.program(), r, 1))
    codes = [hostile.asm_text(hostile.asm_parse(x.out.decode("utf-8", "replace"))) for x in vf.run_cases([vf.Case(s, mode=vf.EMIT) for s in srcs[:20]]) if x.ok]
    if not codes: raise vf.HarnessError("no bytecode")
    for t in TEXTS + [b"".join([a] * 3000) for a in (b"(", b"[", b"{", b"-", b"not ", b"if 1:", b"fun f()", b"x=", b"?", b"[[", b"{a:", b"f(", b"while 1:", b"do ", b"else ", b"1+", b"1,", b"x|", b"x->", b"x.", b"x[", b"#", b"'", b"\\", b"\"", b";", b"}", b"return ", b"{ ", b"L0: ")]:
        add(t, "hand-written", (D, A, G))
    for s in SNIPPETS:
        for k in range(len(s) + 1): add(s[:k], "truncated", (D, G))
    for s in r.sample(ASMS + codes[:3], 4):
        for k in range(0, min(len(s), 400) + 1): add(s[:k], "truncated", (A,))
    for i in range(chk.scale(1500, 60000)):
        s = r.choice(srcs + SNIPPETS)
        add(hostile.mutate_tokens(r, s, r.choice(srcs)), "mutated tokens", (D, G))
        if chk.enough(): break
    for i in range(chk.scale(1200, 60000)):
        s = r.choice(srcs + SNIPPETS + codes + ASMS).encode()
        add(hostile.mutate_bytes(r, s), "mutated bytes", r.choice([(D, G), (A,), (A,)]))
        if chk.enough(): break
    for i in range(chk.scale(800, 30000)):
        add(" ".join(r.choice(hostile.VOCAB) for _ in range(r.randrange(1, 25))), "random tokens", (D, G))
        add("\n".join(r.choice(["", "L%d: " % r.randrange(3), "x:"]) + r.choice(hostile.OPS + ["FOO", "push"]) + " " + ", ".join(r.choice(["1", "-1", "9223372036854775807", "9223372036854775808", "1.5", "\"a\"", "L0", "L1", "x", "\"", "+", "1.", ".5", "\"\\q\""]) for _ in range(r.randrange(0, 4))) + r.choice([";", ";", "", ","]) for _ in range(r.randrange(1, 6))), "random assembly", (A,))
    run()
    fuzz(chk, srcs + SNIPPETS, codes + ASMS)
    chk.finish(3000, 1500)

def judge(chk, c, x):
    what, fe = c.tag, MODES[c.mode]
    chk.observed((c.mode, c.src)); chk.count_kind(f"{what} to {fe}")
    if chk.crash(c, x, f"{what} to {fe}"): return
    def bad(key): chk.violation(f"{fe}: {key}", f"{what}: {key}: ok={x.ok} err={x.err} msg={x.msg[:200]!r} leak={x.leak} fds={x.fds} {x.stderr[-60:]!r}\n{c.src[:800]!r}", c)
    if x.leak != 0: bad("leak")
    if x.fds != 0: bad("open descriptors")
    if x.ok:
        chk.count(f"{fe} accepted")
        if x.err is not None: bad("success with an error")
        if c.mode == vf.DIAGRAM and not x.out.startswith(b"digraph"): bad("the diagram isn't a graph")
    else:
        chk.count(f"{fe} refused with a {x.err} error")
        if x.err not in ("syntax", "semantic", "internal"): bad("wrong kind of error")
        if not x.msg: bad("no message")
        if c.mode != vf.DIAGRAM:
            m = OFF.search(x.stderr)
            if not m or not (-1 <= int(m.group(1)) <= len(c.src)): bad("offset out of the text")
            if x.err == "syntax" and m and int(m.group(1)) < 0: bad("syntax error without an offset")
        chk.sample({"text": c.src[:200].decode("utf-8", "replace"), "error": x.err, "message": x.msg[:100].decode("utf-8", "replace")})

def fuzz(chk, srcs, codes):
    """Coverage-guided, in process; bounded by the number of runs."""
    exe = build.harness("fuzz", "fuzz.c")
    n = chk.scale(50000, 3000000)
    d = os.path.join(vf.tmpdir(), "fuzz")
    os.makedirs(d)
    with open(d + "/dict", "w") as f:
        for i, w in enumerate(hostile.VOCAB + hostile.OPS): f.write('"%s"\n' % "".join("\\x%02x" % b for b in w.encode()))
    jobs = []
    for j in range(8):
        c = f"{d}/c{j}"; os.makedirs(c)
        for i, s in enumerate(srcs[j::8] + srcs[-6:]):
            open(f"{c}/s{i}", "wb").write(b"\0" + s.encode()[:600]); open(f"{c}/d{i}", "wb").write(b"\2" + s.encode()[:600])
        for i, s in enumerate(codes[j::8] + codes[-4:]): open(f"{c}/a{i}", "wb").write(b"\1" + s.encode()[:600])
        cmd = [exe, c, f"-runs={n}", f"-seed={vf.SEED * 8 + j + 1}", f"-dict={d}/dict", "-max_len=700", "-timeout=25", "-rss_limit_mb=4000", f"-artifact_prefix={d}/{j}-", "-print_final_stats=1", "-detect_leaks=0"]
        jobs.append(subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(f"{d}/log{j}", "wb"), env=vf.env(), preexec_fn=vf.big_stack, cwd=d, stdin=subprocess.DEVNULL))
    for j, p in enumerate(jobs):
        rc = p.wait()
        log = open(f"{d}/log{j}", "rb").read().decode("utf-8", "replace")
        cov = re.findall(r"cov: (\d+)", log)
        for m in re.findall(r"FUZZSTAT (\w+) (\d+) (\d+) (\d+) (\d+) (\d+)", log):
            for k, v in zip(("texts", "accepted", "syntax errors", "semantic errors", "internal errors"), m[1:]): chk.count_kind(f"fuzzer {m[0]}: {k}", int(v))
        if cov: chk.cov["fuzzer: edges covered (best job)"] = max(chk.cov.get("fuzzer: edges covered (best job)", 0), int(cov[-1]))
        arts = [a for a in glob.glob(f"{d}/{j}-*") if os.path.basename(a).split("-", 1)[1].startswith(("crash", "timeout", "oom", "leak"))]
        units = len(os.listdir(f"{d}/c{j}"))
        chk.count("fuzzer: inputs that reached new coverage", units)
        m = re.search(r"number_of_executed_units: (\d+)", log)
        if m: chk.evals += int(m.group(1)); chk.count("fuzzer: executions", int(m.group(1)))
        for u in os.listdir(f"{d}/c{j}"): chk.observed(open(f"{d}/c{j}/{u}", "rb").read(), 0)
        if arts:
            data = open(arts[0], "rb").read()
            why = re.findall(r"FUZZFAIL (.*)|runtime error: (.*)|SUMMARY: (.*)", log)
            key = next((w for t in why for w in t if w), "crash")
            fe = ("noja", "assembly", "diagram")[data[0] % 3] if data else "?"
            if "timeout" in os.path.basename(arts[0]):
                # believed only if it happens again
                r2 = subprocess.run([exe, arts[0], "-timeout=60"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=vf.env(), preexec_fn=vf.big_stack)
                if r2.returncode == 0: chk.inconclusive += 1; continue
                key = "hang"
            chk.violation(f"{fe}: fuzzer: {re.sub('0x[0-9a-f]+', '..', key)}", f"{data[1:400]!r}\n{log[-1500:]}", {"input": data.decode("latin-1")})
        elif rc != 0: raise vf.HarnessError(f"libFuzzer exited with {rc}: {log[-1500:]}")

SNIPPETS = ["fun f(a, b: ?int = 3) { return a, b; }\nx, y = f(1);\nm = {a: 1, 'b': [1, 2.5], fun g(self) return 1;};\nm.a = 2; m['q'] = true;",
            "if x < y and not false: print(\"h\\n\\x\", x); else { while true: break; }\ndo x = x + 1; while x < 5; m->g(1, (2));",
            "a = b = {x: {y: [none, -1, +2]}}; a.x.y[0] = int|?String; t = (1 + 2) * 3 % 4 / 5 - 6; # comment\nreturn a, b;", "'é日𝄞' ; x['a'](1)(2).b->c(); fun (x) return;", "{ { if a: {} } } fun h() {}"]
ASMS = ['a: PUSHINT 1;\n PUSHSTR "x\\n\\"\\\\"; b: PUSHFLT -1.5; JUMP a; JUMPIFANDPOP b; PUSHFUN a, 2, "f"; CALL 1, 2; EXIT;', 'PUSHVAR "print"; CALL +0, 1; POP 1; RETURN 0; # x', 'CHECKTYPE 0, "p"; ASS "x"; l_1:PUSHLST 3;']
TEXTS = [b"", b"\0", b"x\0y", b"\xff\xfe", b"'\xff'", b"'\xc3'", b"x = '\xe2\x82';", b"\xc3\xa9 = 1;", b"'", b"\"", b"'\\", b"'\\'", b"#", b"1.", b".1", b"1..2", b"1e5", b"9223372036854775807;", b"9223372036854775808;", b"0" * 70 + b";", b"1" * 64 + b".5;",
         b"0." + b"1" * 61 + b";", b"0." + b"1" * 62 + b";", b"x" * 5000 + b" = 1;", b"'" + b"a" * 5000 + b"';", b"'" + b"\\n" * 3000 + b"';", b"x = {", b"x = {a", b"x = {a:", b"x = {a:1", b"x = {a:1,", b"x = {fun", b"x = {fun f", b"x = {fun f(", b"x = {fun f()", b"x = {fun f() return 1;", b"fun", b"fun f", b"fun f(", b"fun f(a", b"fun f(a:", b"fun f(a=", b"fun f(a,", b"fun f(a=1)", b"return", b"return;", b"break", b"break;", b"if", b"if 1", b"if 1:", b"if 1: 2; else", b"while", b"while 1", b"while 1:", b"do", b"do 1;", b"do 1; while", b"do 1; while 1", b"a,", b"a,b", b"a,b=", b"a.", b"a->", b"a->b", b"a->b(", b"a[", b"a[]", b"a[1", b"a(", b"a(1", b"a(1,", b"(", b"()", b"(1", b"[", b"[1", b"[1,", b"-", b"not", b"?", b"a|", b"1 +", b"1 ==", b"a =", b"{", b"{}", b"{;", b"};", b";", b";;;", b"1 1", b"== 1", b"a = = 1;", b"a := 1;", b"a ! b;", b"a & b;", b"a -> 1;", b"a . 1;", b"if: 1;", b"else 1;", b"fun f() {} fun f() {}", b"fun f(a, a) {}", b"x = fun f() 1;", b"print(print(print(1)));", b"a, b = c, d = 1;", b"a, 1 = 2;", b"(a, b) = 1;", b"a = (b, c);", b"f((1, 2));",
         b"PUSHINT", b"PUSHINT ;", b"PUSHINT 1", b"PUSHINT 1,", b"PUSHINT 1,2;", b"PUSHINT \"a\";", b"PUSHSTR 1;", b"PUSHSTR \"a", b"PUSHSTR \"" + b"a" * 1023 + b"\";", b"PUSHSTR \"" + b"a" * 1024 + b"\";", b"PUSHSTR \"" + b"a" * 5000 + b"\";", b"PUSHFLT 1;", b"PUSHINT 1.5;", b"JUMP x;", b"x: x: JUMP x;", b"x: JUMP x; x: EXIT;", b"x:", b":", b"JUMP 1;", b"JUMP -1;", b"PUSHINT -9223372036854775807;", b"PUSHINT -9223372036854775808;", b"PUSHINT 9223372036854775808;", b"A" * 127 + b";", b"A" * 128 + b";", b"A" * 500 + b";", b"PUSHFLT " + b"9" * 400 + b".0;", b"PUSHFLT 0." + b"0" * 400 + b"1;", b"EXIT EXIT;", b"EXIT 1;", b"EXIT;;", b"PUSHINT +;", b"PUSHINT - 1;", b"CALL 1, 2, 3, 4, 5, 6, 7, 8, 9, 10;", b"PUSHSTR \"\\", b"PUSHSTR \"\\q\";", b"L" * 3000 + b": EXIT;"]

if __name__ == "__main__":
    vf.main(main)
