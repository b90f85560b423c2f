from common import *
import random, bvm, hostile

def main():
    chk = vf.Check("C14", rule="distinct programs whose assembly text was reassembled, rerun and compared; distinct bytecode texts disassembled and compared with what they say; distinct bytecode runs compared with the model of the instructions; distinct malformed texts refused")
    r = chk.rng
    sub = lambda: random.Random(r.random())
    compiled(chk, sub)
    layouts(chk, r, sub)
    equivalence(chk, r, sub)
    machine(chk, r, sub)
    refusals(chk, r)
    places(chk, r)
    chk.finish(3000, 3000)

def compiled(chk, sub):
    """source -> code -> text -> code: same code, same behaviour, and the behaviour of the source."""
    n = chk.scale(700, 20000)
    left = n
    while left > 0 and not chk.enough():
        k = min(left, 700); left -= k
        items = []
        for i in range(k):
            r = sub()
            if i % 7 == 6: p = strings(r)
            elif i % 100 == 50: p = texts(r)
            else: p = gen.Gen(r, wild=r.choice([0, .03]), trace=r.choice([0, .3]), size=r.choice([4, 10, 25])).program()
            items.append((gen.source(p), model.predict(p)))
        em = vf.run_cases([vf.Case(s, mode=vf.EMIT) for s, _ in items])
        runs = []
        for (src, pr), x in zip(items, em):
            c = vf.Case(src, mode=vf.EMIT)
            chk.observed(x.out); chk.count_kind("compiled and reassembled")
            if chk.crash(c, x, "emit"): continue
            if x.ok != 1 or not x.stderr.endswith(b"equivalent\n"):
                chk.violation("the assembled text isn't the code of the program: " + re_kind(x), f"{x.stderr[-300:]!r} {x.msg!r}\n{src[:1500]}", c); continue
            runs.append((src, x.out, pr))
        cases = []
        for src, t, _ in runs: cases += [vf.Case(src), vf.Case(t, mode=vf.ASM)]
        rs = vf.run_cases(cases)
        for i, (src, t, pr) in enumerate(runs):
            a, b = rs[2*i], rs[2*i+1]
            if chk.crash(cases[2*i], a, "source") or chk.crash(cases[2*i+1], b, "text"): continue
            chk.count_kind("ran as source and as text")
            if (a.out, a.ok, a.err, a.msg) != (b.out, b.ok, b.err, b.msg):
                chk.violation("the text of a program doesn't behave as the program", f"source: {a.ok} {a.err} {a.msg!r} {a.out[-200:]!r}\ntext: {b.ok} {b.err} {b.msg!r} {b.out[-200:]!r}\n{src[:1500]}", cases[2*i+1])
            elif pr is not None:
                m = model.mismatch(b, pr[0], pr[1])
                if m and m != "death": chk.violation("the text of a program: " + m, model.diff_text(cases[2*i+1].src, b, pr[0], pr[1]), cases[2*i+1])
            chk.sample({"source": src[:200], "text": t[:200].decode("utf-8", "replace")})

STRCH = ["a", "b", " ", "\n", "\t", "\r", '"', "\\", "'", ";", ",", ":", "é", "日", "𝄞", "[", "]", "%", "#", "0"]
def strings(r):
    s = lambda: "".join(r.choice(STRCH) for _ in range(r.choice([0, 1, 2, 10, 60, 250])))
    out = []
    for _ in range(4):
        out += [X(asg("v", S(s()))), P(V("v"), S(s()), call("count", V("v")), NL)]
    out.append(P(F(r.choice(["0.5", "0.1", "3.14159265358979", "123456789.123456789", "0.000001", "1000000000000000000000.0", "2.718281828459045"])), I(r.choice([0, 9223372036854775807, 4294967296, 255])), NL))
    return out

def texts(r):
    """Tens of kilobytes of strings."""
    out = []
    for i in range(r.choice([70, 150, 300, 600])):
        s = f"{i}" + "".join(r.choice("abcdefghijklmnopqrstuvwxyz") for _ in range(8)) * r.choice([1, 30, 60])
        out.append(P(S(s), NL))
    return out

def re_kind(x):
    t = x.stderr.decode("utf-8", "replace")
    return "can't be reassembled" if "can't be" in t else "different" if "different" in t else "no text"

def rand_code(r):
    k = r.random()
    if k < .3: return hostile.typed_asm(r)
    if k < .6: return bvm.Gen(r).program(r.choice([5, 15, 40]))
    n = r.choice([1, 2, 5, 15, 40, 150])
    code = [hostile.rand_instr(r, n) for _ in range(n)]
    for op, a in code:
        for i, o in enumerate(a):
            if isinstance(o, str) and r.random() < .5: a[i] = "".join(r.choice(STRCH) for _ in range(r.choice([0, 1, 3, 20, 200, 1000 if n < 20 else 5])))[:500]
    return code

def clamp(code):
    n = len(code)
    return [(op, [("l", min(max(o[1], 0), n - 1)) if isinstance(o, tuple) else o for o in a]) for op, a in code]

def layouts(chk, r, sub):
    """text -> code -> disassembly says what the text said, whatever its layout; and again through text."""
    left = chk.scale(3500, 80000)
    while left > 0 and not chk.enough():
        k = min(left, 2000); left -= k
        cases = []
        for _ in range(k):
            q = sub()
            code = clamp(rand_code(q))
            t = bvm.text(code, q)
            c = vf.Case(t, mode=vf.ASMDIS if q.random() < .7 else vf.REASM); c.expect = code
            cases.append(c)
        for c, x in zip(cases, vf.run_cases(cases)):
            chk.observed(c.src); chk.count_kind("layout disassembled" if c.mode == vf.ASMDIS else "layout reassembled")
            if chk.crash(c, x, "layout"): continue
            if x.ok != 1:
                chk.violation("a valid bytecode text is refused", f"{x.msg!r} {x.stderr[-100:]!r}\n{c.src[:1500]!r}", c); continue
            if c.mode == vf.REASM:
                if not x.stderr.endswith(b"equivalent\n"): chk.violation("a bytecode text reassembled is other code", f"{x.stderr[-300:]!r}\n{c.src[:1500]!r}", c)
                continue
            want = bvm.dump(c.expect)
            if x.out != want:
                g, w = x.out.split(b"\n"), want.split(b"\n")
                d = next((i for i in range(min(len(g), len(w))) if g[i] != w[i]), min(len(g), len(w)))
                chk.violation("the disassembly differs from the text", f"line {d}: got {g[d:d+1]!r}, expected {w[d:d+1]!r}\n{c.src[:1500]!r}", c)

def change(r, code):
    """Other code."""
    code = [(op, list(a)) for op, a in code]
    x = r.random(); i = r.randrange(len(code))
    if x < .15: return code + [hostile.rand_instr(r, 1)]
    if x < .25: return code[:-1] if len(code) > 1 and not any(isinstance(o, tuple) and o[1] >= len(code) - 1 for _, a in code[:-1] for o in a) else None
    op, a = code[i]
    ks = [j for j in range(len(a))]
    if not ks or x < .4:
        other = [o for o in hostile.OPS if o != op and hostile.SIG[o] == hostile.SIG[op]]
        if not other: return None
        code[i] = (r.choice(other), a); return code
    j = r.choice(ks); o = a[j]
    if isinstance(o, tuple):
        if len(code) < 2: return None
        a[j] = ("l", (o[1] + r.randrange(1, len(code))) % len(code))
    elif isinstance(o, str): a[j] = r.choice([o + "x", o[:-1], "y" + o, o.swapcase()])
    elif isinstance(o, float): a[j] = o + r.choice([1.0, -1.0, o * 1e-9 + 1e-9, 0.5])
    else: a[j] = r.choice([o + 1, o - 1, -o, o ^ (1 << r.choice([1, 8, 31, 32, 40]))])
    if a[j] == o or isinstance(a[j], int) and not -M63 < a[j] < M63: return None
    return code
M63 = 1 << 63

def equivalence(chk, r, sub):
    """Two texts are the same code if and only if they say the same."""
    cases = []
    for _ in range(chk.scale(2500, 50000)):
        q = sub(); code = clamp(rand_code(q))
        if not code: continue
        other, same = code, True
        if q.random() < .7:
            other = change(q, code)
            if other is None: continue
            other = clamp(other); same = bvm.dump(other) == bvm.dump(code)
            # (zeros compare equal, whatever their sign)
            if bvm.dump(other).replace(b"-0.000000", b"0.000000") == bvm.dump(code).replace(b"-0.000000", b"0.000000"): continue
        a, b = bvm.text(code, q), bvm.text(other, q)
        if q.random() < .5: a, b = b, a
        c = vf.Case(b, name=a, mode=vf.EQUIV, flags=2); c.expect = same
        cases.append(c)
    for a, b in [("1000000.125", "1000000.126"), ("0.1", "0.10000001"), ("0.000001", "0.000002"), ("2251799813685249.5", "2251799813685250.5"), ("1.0", "1.00000000001"), ("16777216.0", "16777217.0"), ("0.0", "0.0000000000000000000001")]:
        for p, q in ((a, b), (b, a), (a, a)):
            c = vf.Case(f"NOPE; PUSHFLT {p}; EXIT;", name=f"NOPE; PUSHFLT {q}; EXIT;", mode=vf.EQUIV, flags=2); c.expect = p == q; cases.append(c)
    for c, x in zip(cases, vf.run_cases(cases)):
        chk.observed((c.src, c.name)); chk.count_kind("texts compared (%s)" % ("same" if c.expect else "different"))
        if chk.crash(c, x, "equivalence"): continue
        if x.ok != 1: chk.violation("a valid bytecode text is refused", f"{x.msg!r} {x.stderr[-100:]!r}\n{c.name[:800]!r}\n{c.src[:800]!r}", c)
        elif (x.out == b"equivalent\n") != c.expect: chk.violation("equivalence of bytecode texts", f"{x.out!r}, they're {'the same' if c.expect else 'different'} {x.stderr[-300:]!r}\n{c.name[:1500]!r}\n{c.src[:1500]!r}", c)

def machine(chk, r, sub):
    left = chk.scale(6000, 150000)
    while left > 0 and not chk.enough():
        k = min(left, 3000); left -= k
        cases = []
        for _ in range(k):
            q = sub()
            x = q.random()
            code = bvm.Gen(q, q.choice([0, .01, .05])).program(q.choice([5, 15, 40, 80])) if x < .8 else clamp(hostile.typed_asm(q))
            if q.random() < .15: code = clamp(hostile.mutate_code(q, code))
            pr = bvm.predict(code)
            if pr is None: chk.count("not covered by the model"); continue
            for o in pr[2]: chk.count_kind("ran " + o, pr[2][o])
            c = vf.Case(bvm.text(code), mode=vf.ASM, abort_at=200000, gcper=q.choice([0, 0, 0, 1, 3]), variant=q.choice(["asan", "plain"])); c.expect = pr
            cases.append(c)
        for c, x in zip(cases, vf.run_cases(cases)):
            out, err, _ = c.expect
            chk.observed((x.out[:3000], x.ok, x.err, b"" if x.out else c.src))
            chk.count("bytecode ended with an error" if err else "bytecode ended well")
            if err is not None and err.kind is None:
                err = ref.Err(x.err)
                if x.ok: err = ref.Err("some")
            if err is not None: err = ref.Err(err.kind)
            m = model.mismatch(x, out, err)
            if m == "death": chk.crash(c, x, "bytecode")
            elif m: chk.violation("bytecode: " + m, model.diff_text(c.src, x, out, err), c)

BAD = ["ADD 1;", "PUSHINT;", "PUSHINT 1, 2;", 'PUSHINT "1";', "PUSHINT 1.5;", "PUSHFLT 1;", 'PUSHFLT "1.5";', "PUSHSTR 1;", "PUSHSTR a; a: ADD;", "PUSHSTR;", 'PUSHSTR "a", "b";', "CALL 1;", "CALL 1, 2, 3;", 'CALL 1, "a";', "JUMP 0;", 'JUMP "a";', "JUMP;", "JUMP nowhere;",
       "a: JUMP a; a: ADD;", "a: ADD; a: ADD;", "add;", "Add;", "ADDD;", "AD;", "PUSH;", "PUSHIN 1;", "PUSHINTS 1;", "a:", "a: ;", "a: b: ADD;", ":ADD;", ";", "ADD;;", "ADD ADD;", "1;", "PUSHINT 1", None, "PUSHINT 9223372036854775808;", "PUSHINT -9223372036854775809;", "PUSHINT 99999999999999999999;", "PUSHINT 18446744073709551617;",
       'PUSHSTR "a;', 'PUSHSTR "a\\";', 'PUSHSTR "\\q";', 'PUSHSTR "\\x41";', "PUSHSTR 'a';", "PUSHSTR abc def;", "PUSHINT 1,;", "PUSHINT ,1;", "CALL 1 2;", "CALL 1; 2;", "PUSHINT - 1;", "PUSHINT +;", "PUSHINT --1;", "PUSHINT 0x10;", "PUSHINT 1a;", "PUSHFLT 1.;", "PUSHFLT .5;", "PUSHFLT 1.5.5;", "PUSHFLT 1.5e3;", "PUSHINT 1 # c\n;",
       "ADD $;", "POP;", "POP 1.0;", "PUSHFUN a, 1; a: ADD;", 'PUSHFUN 0, 1, "f";', 'PUSHFUN a, "f", 1; a: ADD;', 'CHECKTYPE "a", 1;', 'CHECKTYPE 1;', 'ASS a; a: ADD;', "ASS 1;", "PUSHVAR 1;", "RETURN;", "RETURN 1, 2;", "EXIT 0;", "PUSHLST;", "PUSHMAP 1.0;", "PUSHTRU 1;", "JUMPIFANDPOP;", "JUMPIFNOTANDPOP 1;", "ADD 1,2,3,4,5,6,7,8,9;", "CALL 1,2,3,4,5,6,7,8,9,10;",
       "a ADD;", "ADD:;", "\\ADD;", "ADD\x01;", "é: ADD;", "ADD é;", "NOPE; JUMP b; c: NOPE;", "_", "a", "PUSHSTR \"" + "x" * 1025 + "\";", "PUSHSTR \"" + "x" * 1024 + "\\n\";", "PUSHSTR \"" + "x" * 1000 + "\\n" * 25 + "\";", "PUSHSTR \"" + "\\\"" * 1025 + "\";", "PUSHSTR \"\\n" + "x" * 1024 + "\";", "PUSHNNE 1;", "SELECT 1;", "INSERT2 a; a: ADD;"]
GOOD = ["", " \n\t ", "ADD", "ADD;", "ADD ;", "a:ADD;", "a : ADD ;", "ADD:ADD;", "_:ADD", "PUSHINT 1", "PUSHINT 9223372036854775807;", "PUSHINT -9223372036854775807;", "PUSHINT +1;", "PUSHINT 000000000000000000000000001;", 'PUSHSTR "";', 'PUSHSTR "\\n\\t\\r\\"\\\\";', "PUSHFLT 0.0;", "PUSHFLT -0.5;", "PUSHFLT +1.5;", "JUMP a; a: ADD;", "a: JUMP a;", "CALL 1,2;", "CALL 1 , 2 ;", "CALL\n1\n,\n2\n;",
        "PUSHSTR \"" + "x" * 1024 + "\";", "PUSHSTR \"" + "x" * 1023 + "\\n\";", "PUSHSTR \"" + "\\\"" * 1024 + "\";", "PUSHSTR \"\\n" + "x" * 1023 + "\";", 'PUSHFUN a,1,"f";a:EXIT;', 'PUSHSTR "a;b";', 'PUSHSTR ";";', "a1_B: JUMP a1_B", "POP -1;", "ADD;ADD;ADD"]

def refusals(chk, r):
    cases = []
    def add(t, ok, what):
        c = vf.Case(t, mode=vf.ASMDIS); c.expect, c.tag = ok, what
        cases.append(c)
    bad = [b for b in BAD if b is not None and b != "PUSHINT 1" and b != "a1"]
    for b in bad:
        add(b, False, "refusal")
        add("NOPE;\n" + b, False, "refusal after another"); add(b + "\nNOPE;" if b.endswith(";") else "x: NOPE; " + b, False, "refusal before another")
    for g in GOOD:
        add(g, True, "acceptance")
        if g.strip(): add("NOPE; zz: NOPE; " + g, True, "acceptance after another")
    # operand lists against the signatures
    lit = {"i": lambda: str(r.choice([0, 1, 5, -3, 9999999])), "f": lambda: r.choice(["1.5", "0.25", "-2.0"]), "s": lambda: r.choice(['"a"', '""', '"\\n"']), "l": lambda: "lab"}
    for _ in range(chk.scale(1500, 20000)):
        op = r.choice(hostile.OPS)
        sig = "".join(hostile.SIG[op])
        ks = list(sig)
        for _ in range(r.choice([0, 1, 1, 2])):
            x = r.random()
            if x < .4 and ks: ks[r.randrange(len(ks))] = r.choice("ifsl")
            elif x < .7: ks.insert(r.randrange(len(ks) + 1), r.choice("ifsl"))
            elif ks: del ks[r.randrange(len(ks))]
        # a label stands for a number wherever one fits
        if any(k == "l" and (i >= len(sig) or sig[i] in "if") for i, k in enumerate(ks)) and len(ks) == len(sig): continue
        add(f"lab: NOPE; {op} {', '.join(lit[k]() for k in ks)};", "".join(ks) == sig, "signature")
    for c, x in zip(cases, vf.run_cases(cases)):
        chk.observed(c.src); chk.count_kind(c.tag + (" (valid)" if c.expect else " (invalid)"))
        if chk.crash(c, x, c.tag): continue
        if (x.ok == 1) != c.expect:
            chk.violation("a malformed bytecode text is assembled" if not c.expect else "a valid bytecode text is refused", f"{c.src!r}: ok={x.ok} {x.msg!r} {x.out[:200]!r}", c)
        elif not c.expect and x.err not in ("syntax", "semantic", "internal"):
            chk.violation("a malformed bytecode text fails with the wrong kind of error", f"{c.src!r}: {x.err} {x.msg!r}", c)

ELSEWHERE = ("JUMP nowhere;", "NOPE; JUMP b; c: NOPE;", 'PUSHSTR "a;', 'PUSHSTR "a\\";')
def places(chk, r):
    """A defect is where the error says."""
    cases = []
    for b in BAD:
        if b is None or not b.endswith(";") or b in ELSEWHERE or "\n" in b: continue
        for _ in range(chk.scale(3, 20)):
            k = r.choice([0, 1, 3, 10, 200])
            pre = "".join(r.choice(["NOPE;\n", "\n", "PUSHINT 5; POP 1;\n", "l%d: NOPE;\n" % i, "PUSHSTR\n\"a\"\n;\n", "\r\n", 'PUSHSTR "é";\n', 'PUSHSTR "\n";\n']) for i in range(k))
            c = vf.Case(pre + r.choice(["", "\t", "NOPE; "]) + b + "\n" + "NOPE;\n" * r.randrange(4) + "EXIT;", mode=vf.ASM); c.tag = pre.count("\n") + 1
            cases.append(c)
    for c, x in zip(cases, vf.run_cases(cases)):
        chk.observed(c.src); chk.count_kind("places of defects")
        if chk.crash(c, x, "places"): continue
        if x.ok != 0 or x.out: chk.violation("a malformed bytecode text runs", f"{c.src[-500:]!r}: ok={x.ok} {x.out[:200]!r}", c)
        elif not x.stderr.endswith(b"Stack trace:\n\t#0 (unnamed):%d\n" % c.tag): chk.violation("a defect of a bytecode text isn't where it's said to be", f"line {c.tag} expected: {x.stderr[-300:]!r}\n{c.src[-500:]!r}", c)

if __name__ == "__main__":
    vf.main(main)
