from common import *
import random, re, signal, subprocess, threading, time, corpus, bvm, resource

BIG = 1 << 21

def main():
    chk = vf.Check("C19", rule="distinct (program, instruction at which the stop was requested, kind of request) executions; distinct (program, signal, moment) runs of the command")
    r = chk.rng
    d = corpus.setup(os.path.join(vf.tmpdir(), "corpus"))
    sweep(chk, r, d)
    prelude(chk, r)
    points(chk, r)
    signals(chk, r, d)
    chk.finish(4000, 4000)

def sweep(chk, r, d):
    progs = [(n, vf.NOJA, s) for n, s in corpus.P.items()] + list(LOOPS)
    for i in range(chk.scale(120, 2500)):
        g = gen.Gen(random.Random(r.random()), wild=r.choice([0, .03]), trace=.2, size=r.choice([6, 15, 30]))
        progs.append(("random program", vf.NOJA, gen.source(g.program(), r)))
    for i in range(chk.scale(60, 1500)):
        progs.append(("random bytecode", vf.ASM, bvm.text(bvm.Gen(random.Random(r.random()), .02).program(r.choice([10, 30])))))
    LIM = 60000
    base = vf.run_cases([vf.Case(s, mode=m, heap=BIG, stdin=corpus.INPUT, abort_at=LIM) for _, m, s in progs], cwd=d)
    jobs = []
    for (n, m, s), b in zip(progs, base):
        c = vf.Case(s, mode=m, heap=BIG, stdin=corpus.INPUT, abort_at=LIM)
        if chk.crash(c, b, n): continue
        N = b.ninstr
        if N == 0: continue
        cap = chk.scale(40 if n in corpus.P else 12, 1500 if n in corpus.P else 60)
        ks = set(range(1, N + 1)) if N <= cap else {1, 2, N, N - 1} | {r.randrange(1, N + 1) for _ in range(cap)}
        for k in sorted(ks):
            kind = r.choice(["callback", "interrupt"]) if not chk.thorough else None
            for kd in ([kind] if kind else ["callback", "interrupt"]):
                gc = r.choice([0, 0, 0, 7, 1]) if k < 800 else 0
                o = dict(abort_at=k) if kd == "callback" else dict(intr_at=k, abort_at=LIM)
                jobs.append((n, kd, k, N, b, vf.Case(s, mode=m, heap=BIG, stdin=corpus.INPUT, gcper=gc, flags=vf.F_PROFILE if r.random() < .1 else 0, variant="asan", **o)))
    for lo in range(0, len(jobs), 4000):
        part = jobs[lo:lo+4000]
        for (n, kd, k, N, b, c), x in zip(part, vf.run_cases([j[5] for j in part], cwd=d)): judge(chk, n, kd, k, N, b, c, x)
        if chk.enough(): return

def judge(chk, n, kd, k, N, b, c, x):
    chk.observed((c.src, k, kd)); chk.count_kind("stopped by the " + kd); chk.count_kind("program: " + n)
    if chk.crash(c, x, "stopped: " + n): return
    how = f"{n}, {kd} at instruction {k} of {N}: ok={x.ok} {x.err} {x.msg[:100]!r}, {x.ninstr} instructions, output {x.out[-120:]!r} ({x.outpos} bytes at the request)\n{c.src[:1200].decode(errors='replace')}"
    if x.leak or (x.fds and b"socket" not in c.src): chk.violation("something isn't released after a stop", f"leak {x.leak}, descriptors {x.fds}; " + how, c)
    # an interrupt requested before the last instruction may come too late
    late = kd == "interrupt" and k == N
    if late and (x.out, x.ok, x.err, x.msg) == (b.out, b.ok, b.err, b.msg): chk.count("requests at the last instruction"); return
    # the instruction that had begun may be completed, and fail
    ended = kd == "interrupt" and not x.ok and (x.err, x.msg) == (b.err, b.msg) and k >= N
    if x.ok: return chk.violation(f"stopped by the {kd}: the program goes on", how, c)
    if not ended and x.err != "runtime": return chk.violation(f"stopped by the {kd}: the error isn't about the stop", how, c)
    if x.ninstr > k + (kd == "interrupt"): return chk.violation(f"stopped by the {kd}: more instructions are executed", how, c)
    if not b.out.startswith(x.out): return chk.violation(f"stopped by the {kd}: the output isn't a prefix", how, c)
    if kd == "callback" and len(x.out) != x.outpos: return chk.violation("stopped by the callback: output after the stop", how, c)
    if not x.stderr.strip(): return chk.violation("stopped: nothing is reported", how, c)
    chk.count("stopped in order")
    if k > 20: chk.sample({"program": n, "stopped by": kd, "at instruction": k, "of": N, "output": x.out[-80:].decode(errors="replace"), "message": x.msg.decode(errors="replace")})

LOOPS = [(n, vf.NOJA, s) for n, s in {
 "loop: counting": "i = 0; while true: { print(i, ' '); i = i + 1; }",
 "loop: functions": "fun f(n) { if n == 0: return 0; return 1 + f(n - 1); } i = 0; while true: { print(f(i % 9)); i = i + 1; }",
 "loop: prelude": "i = 0; while true: { print(toString([i, {a: i}]), max(i, 3)); i = i + 1; }",
 "loop: import": "while true: { x = import('lib.noja'); print(x.next()); }",
 "loop: methods": "p = {n: 0, fun m(self) { self.n = self.n + 1; return self.n; }}; do print(p->m()); while true;",
 "loop: garbage": "l = []; i = 0; while true: { l[i % 50] = [i, {k: string.cat('a', toString(i))}]; i = i + 1; print(i); }",
 "loop: iterators": "while true: { it = makeIterator([1, 2, 3]); v = it->next(); while v != none: { print(v); v = it->next(); } }",
 "loop: silent": "i = 0; while true: i = i + 1;",
 "loop: conversions": "f = {x: 1, fun toString(self) { print('t'); return 'me'; }}; while true: print(toString([f, f]));",
}.items()] + [("loop: bytecode", vf.ASM, 'a: PUSHSTR "x"; PUSHVAR "print"; CALL 1, 1; POP 1; JUMP a;'), ("loop: tight", vf.ASM, "a: JUMP a;")]

class Points:
    """Programs made of calls that print their number, evaluated in every kind
    of place. One of the calls may ask for the stop instead."""
    def __init__(self, r): self.r, self.n = r, 0
    def leaf(self):
        self.n += 1
        return f"@{self.n}@"
    def e(self, d):
        r = self.r
        k = r.randrange(14) if d > 0 else 0
        if k <= 2: return self.leaf()
        a, b = lambda: self.e(d - 1), lambda: self.e(d - 1)
        if k == 3: return f"({a()} + {b()})"
        if k == 4: return f"(({a()} - {b()}) * 1)"
        if k == 5: return f"count([{', '.join(a() for _ in range(r.randrange(0, 5)))}])"
        if k == 6: return f"count({{a: {a()}, b: {b()}}})"
        if k == 7: return f"([{a()}, {b()}])[{self.e(0)} * 0]"
        if k == 8: return f"g({', '.join(a() for _ in range(r.randrange(0, 4)))})"
        if k == 9: return f"({{m: {a()}}}).m"
        if k == 10: return f"o->me({a()})"
        if k == 11: return f"b2i({a()} > 0 and {b()} < 0 or {self.leaf()} == 3)"
        if k == 12: return f"(0 - -{a()})"
        return f"h({a()})"
    def st(self, d):
        r = self.r
        k = r.randrange(12) if d > 0 else r.randrange(5)
        if k == 0: return self.e(2) + ";"
        if k == 1: return f"x = {self.e(3)};"
        if k == 2: return f"l[{self.e(1)} * 0] = {self.e(2)};"
        if k == 3: return f"x, y = two({self.e(2)});"
        if k == 4: return f"print({self.e(2)}, ' ', {self.e(1)});"
        body = lambda: "{ " + " ".join(self.st(d - 1) for _ in range(r.randrange(1, 4))) + " }"
        if k == 5: return f"if {self.e(1)} > 0: {body()} else {body()}"
        if k == 6: v = f"i{self.n}"; return f"{v} = 0; while {v} + {self.e(1)} * 0 < 3: {{ {self.st(d - 1)} {v} = {v} + 1; }}"
        if k == 7: v = f"i{self.n}"; return f"{v} = 0; do {{ {self.st(d - 1)} {v} = {v} + 1; }} while {v} + {self.e(1)} * 0 < 2;"
        if k == 8: v = f"f{self.n}"; return f"fun {v}(q = {self.e(1)}, w: int = {self.leaf()}) {{ {self.st(d - 1)} return {self.e(1)}; }} {v}({self.e(1)});"
        if k == 9: v = f"f{self.n}"; return f"fun {v}() return {self.e(2)}, {self.e(1)}; x, y = {v}();"
        if k == 10: return f"m[{self.e(1)}] = {self.e(1)}; print(m.a, x);"
        return f"while true: {{ {self.st(d - 1)} if {self.e(1)} != {self.e(0)}: break; break; }}"
    HEAD = ("fun p(k) { print('<', k, '>'); return k; } fun g(a, b) return 1; fun h(a, b = p(1001)) return p(1002); fun two(a) return a, p(1003); fun b2i(b) { if b: return 1; return 0; } "
            "o = {fun me(self, v) return v;}; l = [0]; m = {a: 1}; x = 0; ")
    def program(self):
        return self.HEAD + " ".join(self.st(2) for _ in range(self.r.choice([1, 2, 4])))

def points(chk, r):
    """Stopped by a function of the host, called anywhere in the program."""
    todo = []
    while len(todo) < chk.scale(400, 8000):
        g = Points(random.Random(r.random())); t = g.program()
        if g.n: todo.append((t, g.n))
    plain = lambda t: re.sub(r"@(\d+)@", r"p(\1)", t)
    opts = dict(flags=vf.F_STOP, abort_at=200000)
    base = vf.run_cases([vf.Case(plain(t), **opts) for t, n in todo])
    jobs = []
    for (t, n), b in zip(todo, base):
        if chk.crash(vf.Case(plain(t), **opts), b, "host's stop"): continue
        ran = [k for k in range(1, n + 1) if re.search(b"<%d>" % k, b.out)]
        for k in ran if len(ran) < 9 else r.sample(ran, 9):
            s = plain(t.replace(f"@{k}@", f"stop({k})"))
            w = b.out[:re.search(b"<%d>" % k, b.out).start()]
            jobs.append((k, w, b, vf.Case(s, gcper=r.choice([0, 0, 1, 7]), **dict(opts, flags=vf.F_STOP | r.choice([0, vf.F_PROFILE])))))
    chk.count("stops asked for by a function of the host", len(jobs))
    for lo in range(0, len(jobs), 3000):
        part = jobs[lo:lo+3000]
        for (k, w, b, c), x in zip(part, vf.run_cases([j[3] for j in part])):
            chk.observed((c.src, "host")); chk.count_kind("stopped by a function of the host")
            if chk.crash(c, x, "host's stop"): continue
            how = f"stop({k}): ok={x.ok} {x.err} {x.msg[:100]!r}, output {x.out!r} instead of {w!r}\n{c.src.decode()}"
            if x.ok: chk.violation("stopped by a function of the host: the program goes on", how, c)
            elif x.out != w: chk.violation("stopped by a function of the host: more than what came before was executed", how, c)
            elif x.err != "runtime" or not x.stderr.strip(): chk.violation("stopped by a function of the host: the error isn't about the stop", how, c)
            elif x.leak or x.fds: chk.violation("something isn't released after a stop", f"leak {x.leak}, descriptors {x.fds}; " + how, c)

def prelude(chk, r):
    """Stopped while the builtins are being plugged."""
    b = vf.run_cases([vf.Case("print('hi');", flags=vf.F_ALL)])[0]
    m = vf.run_cases([vf.Case("print('hi');")])[0]
    n = b.ninstr - m.ninstr
    cases = []
    for k in range(1, n + 1):
        for o in (dict(abort_at=k), dict(intr_at=k)): cases.append(vf.Case("print('hi');", flags=vf.F_ALL, **o))
    for c, x in zip(cases, vf.run_cases(cases)):
        chk.observed((c.abort_at, c.intr_at, "prelude")); chk.count_kind("stopped before the program")
        if chk.crash(c, x, "stopped in the prelude"): continue
        if x.ok or x.err != "runtime" or x.out or x.leak or x.fds: chk.violation("stopped before the program began", f"abort_at={c.abort_at} intr_at={c.intr_at}: {x.ok, x.err, x.msg, x.out, x.leak, x.fds}", c)

# -- the command --------------------------------------------------------------
def limits():
    resource.setrlimit(resource.RLIMIT_CPU, (100, 110)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0)); resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))

def signals(chk, r, d):
    exe = {v: build.cli(v) for v in ("plain", "asan")}
    # something to flush the output with, so that the loop is known to have started
    pad = "j = 0; while j < 60: { print('................................................................................................................................'); j = j + 1; }"
    todo = []
    for n, m, s in LOOPS:
        for v in ("plain", "asan"):
            for sig in (signal.SIGINT, signal.SIGTERM):
                for _ in range(chk.scale(2, 25)):
                    if m == vf.ASM:
                        if v == "asan": continue
                        s2, args = ('PUSHSTR "' + "." * 1000 + '"; PUSHVAR "print"; CALL 1, 1; POP 1; ') * 8 + s, ["-a"]
                    else: s2, args = pad + s, []
                    a = list(args)
                    if r.random() < .2: a.append("-p")
                    if r.random() < .3: a += ["-H", str(r.choice([40000, 1 << 20, 1 << 22]))]
                    todo.append((n, v, sig, a + ["-i", s2], r.choice([0, 0, .001, .01, .05, .2]), r.choice([1, 1, 1, 2, 5])))
    r.shuffle(todo)
    from concurrent.futures import ThreadPoolExecutor
    def one(t):
        n, v, sig, args, delay, times = t
        for attempt in range(2):
            p = subprocess.Popen([exe[v]] + args, cwd=d, env=vf.env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limits)
            out = [b""]; err = [b""]; started = threading.Event()
            def rd():
                while True:
                    k = os.read(p.stdout.fileno(), 65536)
                    if not k: break
                    if len(out[0]) < 1 << 22: out[0] += k
                    started.set()
                started.set()
            def re_(): err[0] = p.stderr.read()
            th = [threading.Thread(target=rd), threading.Thread(target=re_)]
            for h in th: h.start()
            begun = started.wait(60)
            time.sleep(delay)
            early = p.poll()
            for _ in range(times):
                if p.poll() is None: p.send_signal(sig)
            t0 = time.time(); hung = False
            try: p.wait(20 * (1 + 3 * attempt))
            except subprocess.TimeoutExpired: hung = True; p.kill(); p.wait()
            t1 = time.time() - t0
            for h in th: h.join()
            if not hung or attempt: return out[0], err[0], p.returncode, hung, t1, early, begun
    slow = 0
    with ThreadPoolExecutor(6) as ex:
        for t, (out, err, rc, hung, t1, early, begun) in zip(todo, ex.map(one, todo)):
            n, v, sig, args, delay, times = t
            chk.observed(("signal", n, v, sig, delay, times, len(out))); chk.count_kind(f"command stopped by {sig.name}, {v}")
            slow = max(slow, t1)
            how = f"{n} ({v}), {sig.name} x{times} after {delay} s: exit status {rc}, stderr {err[-300:]!r}, output {out[-60:]!r}"
            rep = {"args": args, "signal": int(sig), "delay": delay}
            if not begun: chk.violation("command: nothing is printed", how, rep)
            elif early is not None: chk.violation("command: it stopped by itself", how, rep)
            elif hung: chk.violation("command: a signal doesn't stop it", how, rep)
            elif rc < 0: chk.violation(f"command: killed by {-rc}", how, rep)
            elif rc != 255 or not err.strip() or b"Sanitizer" in err or b"runtime error" in err: chk.violation("command: not an orderly end", how, rep)
            elif n == "loop: counting":
                # the output is a prefix of the one the program would give
                o = out.lstrip(b".")
                w, i, parts = b"", 0, o.split(b" ")
                if parts[:-1] != [b"%d" % i for i in range(len(parts) - 1)] or not (b"%d" % (len(parts) - 1)).startswith(parts[-1]): chk.violation("command: the output isn't a prefix", how, rep)
    chk.cov["slowest stop of the command (s)"] = round(slow, 2)
    # while it waits for something that doesn't come
    for what, src in (("input", "l = input(); print('after'); while true: l = input();"), ("the rest of a line", "print(input()); print('after');"), ("a connection", "s = net.socket(net.AF_INET, net.SOCK_STREAM, 0); net.listen(s, 1); net.accept(s); print('after'); while true: net.accept(s);"),
                      ("a datagram", "s = net.socket(net.AF_INET, net.SOCK_DGRAM, 0); net.recv(s, buffer.new(10)); net.bind(s, net.AF_INET, 0, '127.0.0.1'); net.recv(s, buffer.new(10)); print('after');")):
        for v in ("plain", "asan"):
            for sig in (signal.SIGINT, signal.SIGTERM):
                for attempt in range(2):
                    p = subprocess.Popen([exe[v], "-i", pad + src], cwd=d, env=vf.env(), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limits)
                    p.stdout.read(1)
                    if what == "the rest of a line": p.stdin.write(b"some"); p.stdin.flush()
                    # wait until it does wait
                    for _ in range(200):
                        try: st = open(f"/proc/{p.pid}/stat").read().rsplit(") ", 1)[1][0]
                        except OSError: st = "?"
                        time.sleep(.01)
                        if st == "S" and _ > 20: break
                    p.send_signal(sig)
                    try: out, err = (p.stdout.read(), p.stderr.read()) if p.wait(20 * (1 + 3 * attempt)) is not None else None; break
                    except subprocess.TimeoutExpired: p.kill(); p.wait(); out = err = None
                    finally: p.stdin.close()
                chk.observed((what, v, sig)); chk.count_kind(f"command stopped while it waits for {what}")
                rep = {"source": src, "signal": int(sig), "variant": v}
                if out is None: chk.violation(f"command: not stopped while it waits for {what}", f"{v} {sig.name}", rep)
                elif p.returncode != 255 or b"after" in out or not err.strip() or b"Sanitizer" in err: chk.violation(f"command: stopped while it waits for {what}", f"{v} {sig.name}: {p.returncode} {out[-40:]!r} {err[-200:]!r}", rep)

if __name__ == "__main__":
    vf.main(main)
