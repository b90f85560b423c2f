from common import *
import random, subprocess, threading, time
LOOP = "l = input(); while l != none: { print('[', l, ']', count(l), '\\n'); l = input(); } print('end', input(), input());"
FEW = "print('<', input(), '>');"

def valid(b):
    return ref.dec(b)

def expect_loop(data):
    """What LOOP prints (up to the first line that isn't valid), and whether it fails."""
    lines = data.split(b"\n")
    if lines[-1] == b"": lines.pop()
    out = b""
    for l in lines:
        s = valid(l)
        if s is None: return out, True, len(lines)
        out += b"[" + l + b"]%d\n" % len(s)
    return out + b"endnonenone", False, len(lines)

def expect_few(data, n):
    lines = data.split(b"\n")
    if lines[-1] == b"": lines.pop()
    out = b""
    for i in range(n):
        if i < len(lines):
            if valid(lines[i]) is None: return out, True
            out += b"<" + lines[i] + b">"
        else: out += b"<none>"
    return out, False

CH = ["a", " ", "é", "日", "𝄞", "\r", "\t", "\0", "'", "\x7f", "\u0080", "\U0010ffff", "z", "\ufeff", "0"]
BAD = [b"\x80", b"\xc0\x80", b"\xff", b"\xed\xa0\x80", b"\xe6\x97", b"\xf0\x9d\x84", b"\xc3", b"\xf5\x80\x80\x80", b"\xe0\x80\x80", b"\xf4\x90\x80\x80"]
LENGTHS = [0, 0, 0, 1, 2, 3, 10, 80, 253, 254, 255, 256, 257, 509, 510, 511, 512, 513, 1019, 1020, 1021, 1023, 1024, 1025, 2041, 4095, 4096, 4097, 8191, 16400]
def line(r, n=None, bad=0.0):
    n = r.choice(LENGTHS) if n is None else n
    x = r.random()
    if x < .4: b = bytes(r.choice(b"abcdefghij") for _ in range(n))
    elif x < .8:
        b = "".join(r.choice(CH) for _ in range(n // 2 + 1)).encode()[:n]
        while valid(b) is None: b = b[:-1]
        b += b"." * (n - len(b))
    else: b = (r.choice(CH) * n).encode()
    if r.random() < bad:
        i = r.choice([0, len(b), r.randrange(len(b) + 1)])
        b = b[:i] + r.choice(BAD) + b[i:]
    return b.replace(b"\n", b"")

def main():
    chk = vf.Check("C26", rule="distinct (stream, program) pairs whose lines were compared")
    r = chk.rng
    cases = []
    def add(data, src, out, fails, n, **o):
        c = vf.Case(src, stdin=data, heap=1 << 21, abort_at=0, cpu=30, variant=r.choice(["asan", "asan", "plain"]), gcper=r.choice([0, 0, 0, 1, 7]), **o)
        c.expect = (out, fails); c.tag = "input"
        cases.append(c)
        chk.count_kind("lines", n); chk.count_kind("streams with a line that isn't valid" if fails else "valid streams")
    # each length, with and without its terminator
    for n in list(range(0, 20)) + list(range(240, 270)) + list(range(500, 520)) + [1017, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 2038, 2040, 2047, 2048, 2049, 4080, 4081, 4095, 4096, 4097, 8160, 16320, 32640, 65280, 65535, 65536, 65537, 100000]:
        for tail in (b"", b"\n", b"\nx", b"\n\n"):
            d = line(r, n) + tail
            out, f, k = expect_loop(d)
            add(d, LOOP, out, f, k)
    for bad in BAD:
        for pre in (b"", b"ok\n", b"a" * 254, b"a" * 300 + b"\n"):
            for post in (b"", b"\n", b"b\nafter\n"):
                d = pre + bad + post
                out, f, k = expect_loop(d); add(d, LOOP, out, f, k)
    for i in range(chk.scale(1500, 30000)):
        k = r.choice([0, 1, 2, 3, 5, 10, 30])
        d = b"\n".join(line(r, bad=r.choice([0, 0, .1])) for _ in range(k))
        if r.random() < .5: d += b"\n"
        if r.random() < .05: d = b"\n" * r.randrange(1, 40)
        if r.random() < .6: out, f, n = expect_loop(d); add(d, LOOP, out, f, n)
        else:
            m = r.choice([1, 2, 3, 6])
            out, f = expect_few(d, m)
            src = FEW * m if r.random() < .6 else "fun f() { return input(); } " + "print('<', f(), '>'); " * m
            add(d, src, out, f, min(m, k))
    for c, x in zip(cases, vf.run_cases(cases)):
        out, fails = c.expect
        chk.observed(c.stdin + b"|" + c.src)
        chk.sample({"stdin": repr(c.stdin[:200]), "program": c.src.decode(), "output": repr(x.out[:200]), "error": x.err})
        if chk.crash(c, x, "input"): continue
        what = None
        if x.out != out: what = "lines"
        elif fails and x.ok: what = "accepts what isn't valid text"
        elif fails and x.err != "runtime" and x.err != "internal": what = f"error kind {x.err}"
        elif not fails and x.ok != 1: what = "fails"
        elif c.variant == "asan" and (x.leak or x.fds): what = "leaks"
        if what:
            i = next((i for i in range(min(len(out), len(x.out))) if out[i] != x.out[i]), min(len(out), len(x.out)))
            chk.violation("input: " + what, f"{len(c.stdin)} bytes of input {c.stdin[:100]!r}; outputs agree on {i} bytes, got {x.out[i:i+60]!r}, expected {out[i:i+60]!r}, {x.err} {x.msg!r} leak {x.leak}", c)
    # out of the heap: an error, nothing leaks
    cs = [vf.Case(LOOP, stdin=b"ok\n" + b"x" * n + b"\nafter\n", heap=h) for h in (12 << 10, 16 << 10, 20 << 10) for n in (100, 5000, 9000, 30000, 100000)]
    for c, x in zip(cs, vf.run_cases(cs)):
        chk.observed(("heap", c.heap, len(c.stdin))); chk.count_kind("lines bigger than the heap", x.err == "internal")
        if chk.crash(c, x, "input, out of the heap"): continue
        full = expect_loop(c.stdin)[0]
        if not full.startswith(x.out) or (x.ok != 1 and x.err != "internal") or x.leak: chk.violation("input: out of the heap", f"{x.ok} {x.err} {x.msg} {x.leak} {x.out[-80:]!r}", c)
    pipes(chk, r)
    chk.finish(1500, 1000)

def pipes(chk, r):
    """The command, with its input arriving in pieces."""
    exe = build.cli("asan")
    for i in range(chk.scale(25, 300)):
        d = b"\n".join(line(r, bad=.02) for _ in range(r.choice([1, 3, 8]))) + r.choice([b"", b"\n"])
        out, fails, n = expect_loop(d)
        p = subprocess.Popen([exe, "-i", LOOP], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=vf.env(), cwd=vf.tmpdir())
        def feed():
            pos = 0
            try:
                while pos < len(d):
                    k = r.choice([1, 7, 255, 256, 4096])
                    p.stdin.write(d[pos:pos+k]); p.stdin.flush(); pos += k
                    time.sleep(r.choice([0, 0, .001]))
                p.stdin.close()
            except BrokenPipeError: pass
        t = threading.Thread(target=feed); t.start()
        got = p.stdout.read(); err = p.stderr.read(); t.join(); rc = p.wait()
        chk.observed(("pipe", d)); chk.count_kind("streams fed in pieces")
        if got != out or (rc != 0) != fails: chk.violation("input: from a pipe", f"exit {rc}, {err[-500:]!r}, {len(got)} bytes for {len(out)}, input {d[:200]!r}")
    # an input that can't be read has no lines
    for what, how in (("a directory", lambda: os.open("/tmp", os.O_RDONLY)), ("only writable", lambda: os.open("/dev/null", os.O_WRONLY)), ("closed", None)):
        fd = how() if how else None
        p = subprocess.run([exe, "-i", "i = 0; while i < 5: { print('[', input(), ']'); i = i + 1; }"], stdin=subprocess.DEVNULL if fd is None else fd, preexec_fn=(lambda: os.close(0)) if fd is None else None, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=vf.env(), cwd=vf.tmpdir(), timeout=60)
        if fd is not None: os.close(fd)
        chk.observed(("unreadable", what)); chk.count_kind("inputs that can't be read")
        if p.returncode < 0 or p.stdout.replace(b"[none]", b"") not in (b"", b"[") or (p.returncode == 0) != (p.stdout == b"[none]" * 5): chk.violation("input: lines from what can't be read", f"{what}: exit {p.returncode} {p.stdout!r} {p.stderr[-300:]!r}")

vf.main(main)
