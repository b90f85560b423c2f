from common import *
import random, re, subprocess, corpus, bvm, hostile, shutil, stat
from concurrent.futures import ThreadPoolExecutor

USAGE = re.compile(r"Usage:\n  \$ \S+ \.\.OPTIONS <file>\n")
HEADS = {"syntax": "Syntax Error", "semantic": "Semantic Error", "runtime": "Runtime Error", "internal": "Internal Error", "unspecified": "Runtime Error"}
OPTS = ["-h", "--help", "-i", "--inline", "-a", "--assembly", "-p", "--profile", "-o", "--output", "-H", "--heap", "--diagram-ast"]

class Misuse(Exception): pass
def parse(argv):
    """What the options ask for."""
    o = dict(mode="run", inline=False, profile=False, output=None, heap=1 << 20, input=None)
    i = 0
    while i < len(argv):
        a = argv[i]
        if a in ("-h", "--help"): o["mode"] = "help"
        elif a in ("-i", "--inline"): o["inline"] = True
        elif a in ("-a", "--assembly"): o["mode"] = "asm"
        elif a == "--diagram-ast": o["mode"] = "diagram"
        elif a in ("-p", "--profile"): o["profile"] = True
        elif a in ("-o", "--output", "-H", "--heap"):
            if i + 1 == len(argv) or argv[i+1].startswith("-"): raise Misuse("missing argument")
            i += 1
            if a in ("-o", "--output"): o["output"] = argv[i]
            else:
                if not re.fullmatch(r"[0-9]+", argv[i]) or not 0 < int(argv[i]) < 1 << 31: raise Misuse("heap size")
                o["heap"] = int(argv[i])
        else: o["input"] = a; break
        i += 1
    if o["mode"] != "help" and o["input"] is None: raise Misuse("no input")
    return o

FIXED = ["print('hello\\n');", "print(1 + 2, 'x', none, true, 1.5, [1, 2], {a: 1});", "", "# nothing", "x = 1;\ny = x + 1;\nprint(y);", "fun f(n) { if n < 1: return 0; return f(n - 1) + 1; } print(f(6)); f(3);",
         "print(1", "x = ;", "break;", "print('before\\n'); error('my message');", "a = undefined_name;", "print('a'); x = 1 / 0;", "fun f(n) return f(n + 1); f(0);", "assert(1 == 2);", "x = input(); while x != none: { print('<', x, '>'); x = input(); }", "print(input());",
         "s = ''; i = 0; while i < 3000: { print('0123456789abcdef'); i = i + 1; }", "l = []; i = 0; while i < 4000: { l[count(l)] = [i, i, i]; i = i + 1; } print(count(l));", "import('lib.noja');", "import('nope.noja');", "print(type(1), print, int);", "print('\u00e8\u20ac');", "-x;", "-1;"]
ASM = ["\tEXIT;\n", "\tPUSHINT 41; PUSHINT 1; ADD; PUSHVAR \"print\"; CALL 1, 1; POP 1; EXIT;", "PUSHSTR \"from the assembly\\n\"; PUSHVAR \"print\"; CALL 1, 1; POP 1; EXIT;", "NOPE", "PUSHINT;", "PUSHVAR \"nothing\"; EXIT;", "JUMP end; PUSHINT 1; end: EXIT;", "JUMP nowhere; EXIT;", "PUSHINT 1; PUSHINT 0; DIV; EXIT;", "print(1);", "PUSHSTR \"x\"; PUSHVAR \"error\"; CALL 1, 1; EXIT;"]
HEAPS = ["1048576", "70000", "20000", "9000", "1", "2000000", "100000", "0", "00", "-5", "abc", "", "5x", "3000000000", "4294967296", "99999999999999999999", "1e6", "0x10000", "100k", "65536 "]

def text(r):
    x = r.random()
    if x < .45: return "run", r.choice(FIXED)
    if x < .65: return "asm", r.choice(ASM)
    if x < .75: return "asm", bvm.text(bvm.Gen(random.Random(r.random()), .02).program(r.choice([5, 20])))
    if x < .95: return "run", gen.source(gen.Gen(random.Random(r.random()), wild=r.choice([0, .03]), trace=.2, size=r.choice([4, 12])).program(), r, r.randrange(2))
    return "run", hostile.wild(random.Random(r.random()), 4)

def scenario(r, i):
    kind, s = text(r)
    if isinstance(s, bytes): s = s.decode("utf-8", "surrogateescape")
    if "\0" in s or re.search(r"\bfiles\b|\bnet\b|\brandom\b", s): s = "print('replaced');"; kind = "run"
    if r.random() < .05:
        # a large one
        n = r.choice([4000, 8000, 20000, 66000, 120000])
        pad = r.choice(["\n", "        \n"] if kind == "asm" else ["x = 1;\n", "# padding \n", "\n"])
        s = pad * (n // len(pad)) + s
    argv = []
    if r.random() < .85:
        # what one would mean
        inline = r.random() < .5
        parts = []
        if inline: parts.append([r.choice(["-i", "--inline"])])
        if kind == "asm" and r.random() < .95: parts.append([r.choice(["-a", "--assembly"])])
        elif r.random() < .25: parts.append(["--diagram-ast"])
        if r.random() < .2: parts.append([r.choice(["-p", "--profile"])])
        if r.random() < .25: parts.append([r.choice(["-o", "--output"]), r.choice(["out", "out", "sub/out", "missing/out", "sub", "/dev/full", "", "existing"])])
        if r.random() < .3: parts.append([r.choice(["-H", "--heap"]), r.choice(HEAPS)])
        if r.random() < .06: parts.append([r.choice(["-h", "--help"])])
        r.shuffle(parts)
        for p in parts: argv += p
        if r.random() < .06: argv.append(r.choice(argv or ["-p"]))
        if r.random() < .95: argv.append(s if inline else r.choice(["prog", "prog", "-Hx", "-ix", "--heap=5", "-a1", "./prog", "sub/../prog", "@/prog", "sub/prog2", "link", "missing", "sub", "missing/prog", "@/missing"]))
        if r.random() < .1: argv += r.choice([["-i"], ["-h"], ["other", "-a"], ["-H", "0"]])
    else:
        argv = [r.choice(OPTS + ["-Hx", "-H5", "-hx", "-ix", "-px", "-a1", "-ox", "--heap=5", "--inline=", "--helping", "--out", "prog", "-x", "--unknown", "-", "--", "-io", "", "7", "out", s]) for _ in range(r.randrange(5))]
    argv = [a for a in argv if "\0" not in a]
    return dict(argv=argv, src=s, stdin=r.choice([b"", b"", b"one\ntwo\n", b"last", corpus.INPUT]), variant=r.choice(["asan", "plain"]))

def unwritable(chk, r):
    """The standard output can't be written to."""
    for v in ("asan", "plain"):
        for args in (["-i", "print('x');"], ["-i", "i = 0; while true: { print('0123456789', [i]); i = i + 1; }"], ["-p", "-i", "fun f() {} f();"], ["--diagram-ast", "-i", "a = 1;"], ["-a", "-i", 'PUSHSTR "x"; PUSHVAR "print"; CALL 1, 1; POP 1; EXIT;'], ["-i", "x = 1;"]):
            p = subprocess.run([build.cli(v)] + args, cwd=vf.tmpdir(), env=vf.env(), stdin=subprocess.DEVNULL, stdout=open("/dev/full", "w"), stderr=subprocess.PIPE, timeout=100)
            chk.observed(("full", v, tuple(args))); chk.count_kind("nowhere to write the output to")
            if args[-1] == "x = 1;": ok = p.returncode == 0 and not p.stderr
            else: ok = p.returncode not in (0, 99) and p.returncode > 0 and p.stderr
            if not ok: chk.violation("the output can't be written: " + args[0], f"{args} on a full device: exit {p.returncode}, {p.stderr[-300:]!r}", {"arguments": args, "variant": v})

def special(chk):
    """What isn't a regular file, given as a program."""
    d = os.path.join(vf.tmpdir(), "special"); os.makedirs(d + "/folder")
    import socket
    s = socket.socket(socket.AF_UNIX); s.bind(d + "/socket")
    for n, t in (("empty", ""), ("ok", "print('ran');"), ("import", "print('a'); import('folder'); print('b');"), ("import2", "print('a'); import('socket');"), ("import3", "print('a'); import('/dev/null'); print('b');")):
        with open(f"{d}/{n}", "w") as f: f.write(t)
    os.symlink("ok", d + "/link"); os.symlink("loop", d + "/loop"); os.symlink("gone", d + "/dangling")
    for v in ("asan", "plain"):
        for how in ([], ["-a"], ["--diagram-ast"], ["-p"]):
            for name, good in (("folder", False), ("folder/", False), (".", False), ("/", False), ("socket", False), ("loop", False), ("dangling", False), ("/dev/stdin", False), ("ok/x", False), ("/dev/null", True), ("empty", True), ("link", True), ("ok", True), ("import", None), ("import2", None), ("import3", True)):
                if how == ["-a"] and good is not False: continue
                if how == ["--diagram-ast"] and good is None: good = True
                p = subprocess.run([build.cli(v)] + how + [name], cwd=d, env=vf.env(), input=b"print('from a pipe');", stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
                chk.observed(("special", v, tuple(how), name)); chk.count_kind("programs that aren't regular files" if good is False else "other programs")
                if good is None: ok = p.returncode == 255 and p.stdout == b"a" and p.stderr.count(b"\n") >= 3
                elif good: ok = p.returncode == 0 and not p.stderr and (how or p.stdout == {"link": b"ran", "ok": b"ran", "import3": b"ab"}.get(name, b""))
                else: ok = p.returncode == 255 and not p.stdout and b"Error: " in p.stderr
                if not ok: chk.violation("a program that isn't a regular file", f"{how} {name}: exit {p.returncode}, {p.stdout[-300:]!r}, {p.stderr[-300:]!r}", {"arguments": how + [name], "variant": v})
    s.close()
    shutil.rmtree(d)

def tree(d):
    """Everything in the directory, with its content."""
    out = {}
    for root, dirs, files in os.walk(d):
        for f in dirs: out[os.path.relpath(os.path.join(root, f), d)] = "directory"
        for f in files:
            p = os.path.join(root, f)
            out[os.path.relpath(p, d)] = os.readlink(p) if os.path.islink(p) else open(p, "rb").read()
    return out

PROGS = ("prog", "sub/prog2", "-Hx", "-ix", "--heap=5", "-a1")
def setup(d, sc):
    os.makedirs(os.path.join(d, "sub"))
    b = sc["src"].encode("utf-8", "surrogateescape")
    for f in PROGS: open(os.path.join(d, f), "wb").write(b)
    os.symlink("prog", os.path.join(d, "link"))
    open(os.path.join(d, "existing"), "wb").write(b"to be replaced" * 100)
    for f in ("lib.noja", "sub/lib.noja"): open(os.path.join(d, f), "w").write("print('in the library\\n');")

def launch(job):
    i, sc, root = job
    d = os.path.join(root, str(i)); setup(d, sc)
    argv = [a.replace("@/", d + "/") if a.startswith("@/") else a for a in sc["argv"]]
    before = tree(d)
    p = None
    for t in range(2):
        if t: shutil.rmtree(d); setup(d, sc)
        try:
            p = subprocess.run([build.cli(sc["variant"])] + [a.encode("utf-8", "surrogateescape") for a in argv], cwd=d, env=vf.env(), input=sc["stdin"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60 * (t + 1), preexec_fn=vf.big_stack); break
        except subprocess.TimeoutExpired: pass
    after = tree(d); shutil.rmtree(d)
    return argv, d, p, before, after

def main():
    chk = vf.Check("C29", rule="distinct (arguments, program, input) runs of the real command compared with what the options ask of the library")
    r = chk.rng
    for v in ("asan", "plain"): build.cli(v)
    unwritable(chk, r)
    special(chk)
    left = chk.scale(1300, 40000)
    while left > 0 and not chk.enough():
        n = min(left, 1300); left -= n
        batch(chk, r, n)
    ev = chk.cov.get("events", {})
    for need in ("help", "misuse", "inline run", "file run", "inline asm", "file asm", "inline diagram", "file diagram", "diagrams written to a file", "profiles written to a file", "failures to write", "runs that failed"):
        if not chk.violations and not ev.get(need): raise vf.HarnessError(f"nothing observed of {need}")
    chk.finish(1000, 700)

def batch(chk, r, n):
    root = os.path.join(vf.tmpdir(), "w"); os.makedirs(root)
    oroot = os.path.join(vf.tmpdir(), "o"); shutil.rmtree(oroot, ignore_errors=True); os.makedirs(oroot)
    scs = [scenario(r, i) for i in range(n)]
    asks, lib = [], []
    # what the library does when asked the same
    cases = []
    for i, sc in enumerate(scs):
        try: o = parse(sc["argv"])
        except Misuse as e: o = e
        asks.append(o)
        if isinstance(o, Misuse) or o["mode"] == "help": continue
        src, present = content(sc, o)
        if not present: continue
        m = {"run": vf.NOJA, "asm": vf.ASM, "diagram": vf.DIAGRAM}[o["mode"]]
        cases.append((i, vf.Case(src, mode=m, stdin=sc["stdin"], heap=o["heap"], abort_at=3000000, flags=vf.F_PROFILE if o["profile"] else 0, cpu=20, variant=sc["variant"])))
    open(os.path.join(oroot, "lib.noja"), "w").write("print('in the library\\n');")
    res = {}
    for (i, c), x in zip(cases, vf.run_cases([c for _, c in cases], cwd=oroot)): res[i] = (c, x)
    jobs = [(i, sc, root) for i, sc in enumerate(scs) if not (i in res and (res[i][1].crashed or res[i][1].ninstr >= 3000000))]
    with ThreadPoolExecutor(8) as ex:
        for (i, sc, _), got in zip(jobs, ex.map(launch, jobs)): judge(chk, sc, asks[i], res.get(i), got)
    shutil.rmtree(root)

def content(sc, o):
    a = o["input"]
    if o["inline"]: return a.encode("utf-8", "surrogateescape"), True
    ok = a in PROGS + ("prog", "./prog", "sub/../prog", "@/prog", "sub/prog2", "link")
    if a in ("existing", "lib.noja"): return b"", False
    return (sc["src"].encode("utf-8", "surrogateescape"), True) if ok else (b"", False)

def judge(chk, sc, o, lib, got):
    argv, d, p, before, after = got
    show = lambda: f"arguments {argv!r}, input {sc['stdin'][:100]!r}, program {sc['src'][:700]!r}\n" + ("" if p is None else f"exit {p.returncode}\nstdout {p.stdout[:500]!r}\nstderr {p.stderr[:700]!r}")
    rep = {"arguments": argv, "program": sc["src"], "stdin": sc["stdin"].decode("latin-1"), "variant": sc["variant"]}
    chk.observed((tuple(sc["argv"]), sc["src"], sc["stdin"]))
    def bad(what, more=""): chk.violation(what, f"{what} {more}\n{show()}", rep); return False
    if p is None: return bad("the command doesn't end")
    if p.returncode < 0 or p.returncode == 99: return bad("the command dies", vf.san_summary(p.stderr))
    err = p.stderr.decode("utf-8", "replace")
    changed = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
    if isinstance(o, Misuse):
        chk.count_kind("misuse")
        if p.returncode == 0: return bad("misuse succeeds", str(o))
        if p.stdout: return bad("misuse writes to the standard output", str(o))
        if not USAGE.search(err): return bad("misuse isn't explained", str(o))
        if changed: return bad("misuse changes files", str(changed))
        return
    if o["mode"] == "help":
        chk.count_kind("help")
        out = p.stdout.decode("utf-8", "replace")
        if p.returncode or err: return bad("help fails")
        if not USAGE.search(out) or any(not re.search(r"(^|[\s,])" + re.escape(x) + r"[\s,]", out) for x in OPTS): return bad("help doesn't list the options")
        if changed: return bad("help changes files", str(changed))
        return
    chk.count_kind(("inline " if o["inline"] else "file ") + o["mode"])
    # the file that may be written
    outp = o["output"]
    target = None if outp is None else os.path.normpath(outp)
    writable = outp in ("out", "sub/out", "existing", "7", "prog") if outp else False
    known = outp is None or outp in ("out", "sub/out", "existing", "missing/out", "sub", "/dev/full", "")
    if not known: chk.count_kind("other outputs (only checked for crashes)"); return
    allowed = {target} if outp and (o["mode"] == "diagram" or o["profile"]) else set()
    if not set(changed) <= {x for x in allowed if x}: return bad("other files are changed", str(changed))
    failing = lib is None or lib[1].ok != 1
    if failing:
        chk.count_kind("runs that failed" if lib else "inputs that can't be read")
        if p.returncode == 0: return bad("failure with exit status zero")
        if not err: return bad("failure without an explanation")
        if USAGE.search(err) and "Error" not in err: return bad("failure reported as misuse")
        if lib is None:
            if p.stdout: return bad("output without a program")
            return
        c, x = lib
        if p.stdout != (x.out if o["mode"] != "diagram" else b""): return bad("another output before failing", f"expected {x.out[:500]!r}")
        head = err.split(":")[0]
        want = HEADS.get(x.err) if o["mode"] != "diagram" else {**HEADS, "unspecified": "Error"}.get(x.err)
        if head != want: return bad("another kind of error", f"expected {want}")
        names = lambda t: re.sub(r'"/[^"]*/', '"', t)   # the directories differ
        if names(x.msg.decode("utf-8", "replace"))[:200] not in names(err): return bad("another message", f"expected {x.msg[:200]!r}")
        if o["mode"] == "run" and x.err in ("runtime",) and "Stack trace:" not in err: return bad("no stack trace")
        if o["mode"] == "diagram" and changed: return bad("a diagram is written although there's none")
        return
    c, x = lib
    chk.count_kind("runs that succeeded")
    cant = outp is not None and not writable and (o["mode"] == "diagram" or o["profile"])
    empty_profile = o["mode"] != "diagram" and outp == "/dev/full" and b"calls" not in x.stderr
    if o["mode"] == "diagram":
        want_out = b"" if outp is not None else x.out
        want_file = x.out
    else:
        want_out, want_file = x.out, None
    if cant and not empty_profile:
        chk.count_kind("failures to write")
        if p.returncode == 0: return bad("failing to write the output isn't an error")
        if not err: return bad("failing to write the output isn't reported")
        if p.stdout != want_out: return bad("another output", f"expected {want_out[:500]!r}")
        return
    if p.returncode: return bad("success with another exit status")
    if err: return bad("success with something on the standard error")
    prof = o["profile"] and o["mode"] != "diagram"
    if prof:
        rows = lambda b: sorted(re.sub(rb"- *[0-9.]+us$", b"", l) for l in b.splitlines())
        w = x.stderr.split(b"PROFILE\n", 1)[1] if b"PROFILE\n" in x.stderr else b""
        if not o["inline"]:   # the library ran the text, unnamed
            w = w.replace(b" - (unnamed) - ", b" - @ - ")
        text = (after.get(target) if outp is not None else p.stdout[len(x.out):]) or b""
        if outp == "/dev/full": text = None
        if p.stdout[:len(x.out)] != x.out: return bad("another output when profiling", f"expected {x.out[:500]!r}")
        if outp is not None and p.stdout != x.out: return bad("the profile is on the standard output too")
        if text is not None:
            if not o["inline"]: text = re.sub(rb" - " + re.escape(d.encode()) + rb"/\S* - ", b" - @ - ", text)
            a, b = rows(text), rows(w)
            if a != b: return bad("another profile", f"\ngot {a[:20]}\nexpected {b[:20]}")
        chk.count_kind("profiles written to a file" if outp is not None else "profiles on the standard output")
    elif p.stdout != want_out: return bad("another output", f"expected {want_out[:500]!r}")
    if o["mode"] == "diagram" and outp is not None:
        chk.count_kind("diagrams written to a file")
        if after.get(target) != want_file: return bad("another diagram in the file", f"{after.get(target)!r:.300}")
    chk.sample({"arguments": [a[:80] for a in argv], "exit": p.returncode, "stdout": p.stdout[:100].decode(errors="replace")})

vf.main(main)
