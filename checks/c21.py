from common import *
import corpus, hostile, random, re, subprocess, itertools
from concurrent.futures import ThreadPoolExecutor
ERRNAME = vf.ERR

def programs(r, n):
    """Programs of every kind that depend on nothing but their input."""
    out = []
    fixed = [s for k, s in corpus.P.items() if not re.search(r"files\.|net\.|random\.", s)]
    while len(out) < n:
        x = r.random(); inp = b""
        if x < .35: s = gen.source(gen.Gen(random.Random(r.random()), wild=r.choice([0, 0, .01]), trace=r.choice([0, .2]), size=r.choice([6, 15, 30])).program(), r, r.randrange(2))
        elif x < .6: s = hostile.wild(random.Random(r.random()), r.choice([3, 6, 10]))
        elif x < .8: s = r.choice(fixed); inp = corpus.INPUT
        elif x < .9:
            # plenty of objects, collected all the time
            s = f"l = []; i = 0; while i < {r.choice([20, 60])}: {{ l[i % 7] = [i, {{a: i, 'b': [i]}}, toString(i), ?int]; if i % 7 != count(l) - 1 and false: print(i); i = i + 1; }} print(l);".replace("l[i % 7]", "l[min(count(l), i % 7)]")
        else: s = r.choice(MORE)
        if isinstance(s, bytes): s = s.decode("utf-8", "surrogatepass")
        if re.search(r"\bfiles\b|\bnet\b|\brandom\b|getCurrent", s): continue
        out.append(vf.Case(s, stdin=inp, heap=r.choice([1 << 16, 1 << 18, 1 << 20]), gcper=0 if 'while true' in s else r.choice([0, 0, 0, 7, 31]), abort_at=r.choice([60000, 60000, 60000, 50, 300])))
    return out

MORE = ["error('one');", "x = (1;", "break;", "fun f(n) return f(n + 1); f(0);", "print(1 / 0);", "a = undefined;", "print(input(), input());", "import('lib.noja');", "x = import('lib.noja'); print(x.next(), x.next());", "import('missing.noja');", "import('bad.noja');", "import('fails.noja');",
        "assert(false);", "l = []; while true: { l[count(l)] = [1, 2, 3, 4, 5, 6, 7, 8]; }", "print('" + "z" * 3000 + "');", "import('self.noja');", "print(int, String, [any], print, ?int, int | float);", "fun g() {} print(g, [g], {a: g}, type(g), type(print), math, string);", "print(buffer.new(5)); b = buffer.sliceUp(buffer.fromString('hello'), 1, 3); print(b);",
        "m = {}; i = 0; while i < 100: { m[i * 64] = i; m[toString(i)] = i; i = i + 1; } print(m);", "f = 0.1; i = 0; while i < 30: { print(math.sin(f), ' ', math.pow(f, 2.5), '\\n'); f = f * 1.7; i = i + 1; }", "it = makeIterator({a: 1, b: 2}); it->next(); print(it);"]

def key(x): return (x.out, x.ok == 1, x.err, x.msg)
def show(k): return f"ok={k[1]} err={k[2]} {k[3][:100]!r} {len(k[0])} bytes {k[0][-100:]!r}"

def main():
    chk = vf.Check("C21", rule="distinct (programs, schedule) groups whose executions were compared with isolated ones")
    r = chk.rng
    root = corpus.setup(os.path.join(vf.tmpdir(), "work"))
    for k in range(chk.scale(1, 12)):
        one(chk, r, root, k)
        if chk.enough(): break
    chk.finish(400, 250)

def one(chk, r, root, k):
    P_ = programs(r, chk.scale(400, 1500))
    base = vf.run_cases(P_, cwd=root)
    ok = []
    for c, x in zip(P_, base):
        if chk.crash(c, x, "isolated"): continue
        ok.append((c, x))
    if not ok: return chk.violation("no program can be run", show(key(base[0])))
    if not any(x.ok == 1 for _, x in ok): chk.violation("no program ends well", show(key(ok[0][1])))
    # again, in other processes, builds, and addresses
    again = []
    for c, _ in ok:
        d = vf.Case.load(c.dump()); d.variant = r.choice(["asan", "plain"]); again.append(d)
    for (c, x), y in zip(ok, vf.run_cases(again, cwd=root)):
        chk.observed(("again", c.src)); chk.count_kind("repeated in another process")
        if not y.crashed and (key(x), x.ninstr) != (key(y), y.ninstr): chk.violation("another process", f"{show(key(x))} {x.ninstr} instructions, then {show(key(y))} {y.ninstr}\n{c.src[:1200].decode(errors='replace')}", c)
    # twice in the same runtime
    twice = [(c, x) for c, x in ok if x.ok == 1 and not c.stdin and c.abort_at == 60000][:chk.scale(250, 1500)]
    ds = []
    for c, x in twice:
        d = vf.Case.load(c.dump()); d.flags |= vf.F_TWICE; d.abort_at = 0; d.heap *= 2; ds.append(d)
    for (c, x), d, y in zip(twice, ds, vf.run_cases(ds, cwd=root)):
        chk.observed(("twice", c.src)); chk.count_kind("repeated in the same runtime")
        if chk.crash(d, y, "twice in a runtime"): continue
        if y.ok != 1 or y.out != x.out * 2: chk.violation("twice in the same runtime", f"once {show(key(x))}, twice {show(key(y))}\n{c.src[:1200].decode(errors='replace')}", d)
    # with others in the same process
    jobs = []
    for i in range(chk.scale(200, 2000)):
        mode = r.choice([0, 1, 1, 2, 2, 3])
        n = r.choice([2, 2, 3, 4, 6]) if mode != 3 else r.choice([2, 4, 8])
        v = "tsan" if mode == 3 or mode == 2 and r.random() < .2 else "asan"
        jobs.append((i, mode, r.getrandbits(40), r.choice([1, 2, 3]), [ok[r.randrange(len(ok))] for _ in range(n)], v))
    for v in ("asan", "tsan"): build.harness(v, "multi.c", ("-lpthread",))
    with ThreadPoolExecutor(4) as ex:
        for j, (rc, data, err) in zip(jobs, ex.map(lambda j: launch(j, root), jobs)):
            judge(chk, j, rc, data, err)

WHAT = ["one after the other in a process", "one in the middle of the other", "taking turns", "in free threads"]
def launch(j, root):
    i, mode, seed, rounds, ps, v = j
    jf, rf = os.path.join(vf.tmpdir(), f"job{i}"), os.path.join(vf.tmpdir(), f"res{i}")
    with open(jf, "wb") as f:
        f.write(f"{mode} {seed} {rounds} {len(ps)}\n".encode())
        for c, _ in ps:
            f.write(f"{c.heap} {c.gcper} {c.abort_at} {len(c.src)} {len(c.stdin)}\n".encode()); f.write(c.src); f.write(c.stdin)
    e = vf.env(); e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=0:symbolize=1:history_size=4:external_symbolizer_path=/usr/bin/llvm-symbolizer"
    for t in range(2):
        try: p = subprocess.run([build.harness(v, "multi.c", ("-lpthread",)), jf, rf], cwd=root, env=e, preexec_fn=vf.big_stack, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120 * (t + 1)); break
        except subprocess.TimeoutExpired: p = None
    data = open(rf, "rb").read() if os.path.exists(rf) else b""
    for q in (jf, rf):
        if os.path.exists(q): os.unlink(q)
    return (None, data, b"") if p is None else (p.returncode, data, p.stdout)

def where(v, text):
    """Names the functions of a report of the race detector; returns it and the functions at the top of its stacks."""
    at = sorted(set(re.findall(r"\+(0x[0-9a-f]+)\) \(BuildId", text)))
    names = {}
    if at:
        p = subprocess.run(["addr2line", "-f", "-e", build.harness(v, "multi.c", ("-lpthread",))] + at, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout.split("\n")
        names = {a: (p[2*i], os.path.basename(p[2*i+1])) for i, a in enumerate(at) if 2*i+1 < len(p)}
    first = []
    def sub(m):
        n, l = names.get(m[2], ("?", "?"))
        if m[1] == "0": first.append(n)
        return f"#{m[1]} {n} {l}"
    return re.sub(r"#(\d+) .*?\+(0x[0-9a-f]+)\) \(BuildId.*", sub, text), first

def judge(chk, j, rc, data, err):
    i, mode, seed, rounds, ps, v = j
    text = lambda: f"mode {mode} ({WHAT[mode]}), seed {seed}, {rounds} rounds, {v}\n" + "\n-- \n".join(f"heap {c.heap} gc {c.gcper} stop {c.abort_at}\n" + c.src.decode(errors="replace")[:700] for c, _ in ps)
    rep = {"mode": mode, "seed": seed, "rounds": rounds, "variant": v, "programs": [c.dump() for c, _ in ps]}
    chk.observed((mode, seed)); chk.count_kind(WHAT[mode] + ("" if v == "asan" else " (race detector)"))
    if rc is None: return chk.violation("together: doesn't end: " + WHAT[mode], text(), rep)
    if rc == 2: raise vf.HarnessError(f"multi: {err[-500:]!r}")
    if b"ThreadSanitizer" in err:
        t, first = where(v, err[:6000].decode(errors="replace"))
        chk.violation("race: " + " / ".join(first[:2]), t + text(), rep); return
    if rc: return chk.violation("together: death: " + WHAT[mode], f"exit {rc} {vf.san_summary(err)}\n{err[-1000:].decode(errors='replace')}\n{text()}", rep)
    pos, seen, end = 1, 0, None
    while pos < len(data):
        e = data.index(b"\n", pos)
        f = data[pos:e].split(); pos = e + 1
        if f[0] == b"end": end = f; break
        id, ok_, er, n, nm, no = map(int, f)
        msg = data[pos:pos+nm]; pos += nm
        out = data[pos:pos+no]; pos += no
        c, x = ps[id]; seen += 1
        got = (out, ok_ == 1, ERRNAME.get(er, er), msg[:1024])
        want = key(x)
        chk.count_kind("executions compared")
        if got != want or n != x.ninstr: return chk.violation("together: " + WHAT[mode], f"program {id}: {show(got)} after {n} instructions; isolated {show(want)} after {x.ninstr}\n{text()}", rep)
    if end is None or seen != rounds * len(ps): raise vf.HarnessError(f"multi: {seen} executions of {rounds * len(ps)}")
    chk.count_kind("switches between runtimes", int(end[2]))
    if v == "asan" and mode < 2 and int(end[1]) > 0: chk.violation("together: leak: " + WHAT[mode], f"{int(end[1])} bytes\n{text()}", rep)
    chk.sample({"how": WHAT[mode], "switches": int(end[2]), "programs": [c.src[:120].decode(errors="replace") for c, _ in ps], "outputs": [x.out[:60].decode(errors="replace") for _, x in ps]})

vf.main(main)
