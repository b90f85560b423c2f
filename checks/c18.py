from common import *
import random, re, socket, struct, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor

class Scn:
    """A program that serves connections, what its peers do, and what must come out of it."""
    def __init__(self, r, big):
        self.r = r; self.lines = []; self.ops = []      # ops: what each line of the log must be
        self.addr = f"127.{r.randrange(1, 255)}.{r.randrange(256)}.{r.randrange(1, 255)}"
        self.port = r.randrange(12000, 32000)   # not those the system gives to clients
        self.held = None; self.udp = False; self.conns = []; self.kind = ""
        self.variant = r.choice(["asan", "asan", "plain"]); self.heap = r.choice([1 << 20, 1 << 20, 20000, 1 << 22])
        self.views = []; self.bases = []
        self.big = big
    def o(self, s, *op): self.lines.append(s); op and self.ops.append(op)
    def call(self, s, what, **kw):
        """A call whose two results are logged."""
        k = len(self.ops)
        self.o(f'n, m = {s}; print("@{k} ", type(n), " ", n, " ", type(m), " ", m, "\\n");', what, kw)

def buffers(s):
    r = s.r
    for k in range(r.choice([1, 2, 3])):
        n = r.choice([0, 1, 2, 5, 16, 64, 255, 1000]) if not s.big else r.choice([100, 5000, 60000])
        s.bases.append(n); s.lines.append(f"b{k} = buffer.new({n});"); s.views.append((f"b{k}", k, 0, n))
        for j in range(r.choice([0, 0, 1, 2])):
            if n == 0: break
            off = r.randrange(n); l = r.randrange(n - off + 1)
            s.lines.append(f"v{k}{j} = buffer.sliceUp(b{k}, {off}, {l});"); s.views.append((f"v{k}{j}", k, off, l))

def count(r, n):
    """A count argument: as text, and the most it lets through."""
    x = r.random()
    if x < .4: return "", n
    if x < .5: return ", none", n
    c = r.choice([0, 1, n // 2, n, n + 1, n + 1000, 1 << 40]) if x < .9 else r.randrange(n + 2)
    return f", {c}", min(c, n)

def garbage(s):
    if s.r.random() < .3: s.lines.append(f"g = 0; while g < {s.r.choice([3, 30])}: {{ t = [g, toString(g), {{a: g}}]; g = g + 1; }}")

def op_recv(s, c, to=None):
    v, k, off, l = to or s.r.choice(s.views); t, cap = count(s.r, l) if to is None else ("", l)
    i = len(s.ops)
    s.o(f'n, m = net.recv(c{c}, {v}{t}); print("@{i} ", type(n), " ", n, " ", type(m), " ", m, " ", b{k}, "\\n");', "recv", dict(conn=c, base=k, off=off, cap=cap, size=l))

def op_send(s, c, what=None):
    v, k, off, l = s.r.choice(s.views); t, cap = count(s.r, l)
    s.call(f"net.send(c{c}, {v}{t})", "send", conn=c, base=k, off=off, cap=cap)

def op_set(s):
    v, k, off, l = s.r.choice(s.views)
    if not l: return
    i, x = s.r.randrange(l), s.r.randrange(256)
    s.o(f'{v}[{i}] = {x}; print("@{len(s.ops)} set\\n");', "set", dict(base=k, at=off + i, val=x))

def op_text(s, c):
    t = s.r.choice(["hello", "", "x", "\u00e8\u20ac\U0001F600", "HTTP/1.1 200 OK\\r\\n\\r\\n", "abc" * s.r.randrange(1, 300)])
    b = t.replace("\\r", "\r").replace("\\n", "\n").encode()
    s.call(f'net.send(c{c}, buffer.fromString("{t}"))', "sendtext", conn=c, data=b, cap=len(b))

def op_drain(s, c):
    big = [v for v in s.views if v[3] > 0]
    if not big:
        s.bases.append(16); k = len(s.bases) - 1; s.lines.append(f"b{k} = buffer.new(16);"); s.views.append((f"b{k}", k, 0, 16)); big = [s.views[-1]]
    v, k, off, l = max(big, key=lambda x: x[3]) if s.r.random() < .7 else s.r.choice(big)
    i = len(s.ops)
    s.o(f'go = true; while go: {{ n, m = net.recv(c{c}, {v}); print("@{i} ", type(n), " ", n, " ", type(m), " ", m, " ", b{k}, "\\n"); if n == none: go = false; else if n == 0: go = false; }}', "drain", dict(conn=c, base=k, off=off, cap=l, size=l))

def anyports():
    r = random.Random(f"{os.getpid()}{time.time()}")
    while True: yield from r.sample(range(5000, 12000), 7000)
ANYPORT = anyports()

def serve(s, family="net.AF_INET"):
    """The usual beginning."""
    r = s.r
    anyaddr = r.random() < .1
    if anyaddr:
        while True:
            s.port = next(ANYPORT)
            with socket.socket() as q:
                try: q.bind(("0.0.0.0", s.port)); break
                except OSError: pass
    s.call(f"net.socket(net.AF_INET, net.SOCK_STREAM, 0{r.choice(['', ', true', ', false', ', none'])})" if not anyaddr else "net.socket(net.AF_INET, net.SOCK_STREAM, 0, true)", "fd"); s.lines.append("s = n;")
    s.call(f"net.bind(s, net.AF_INET, {s.port}" + ("" if anyaddr else f', "{s.addr}"') + ")", "fine"); s.lines.append("if n != none: error(n);")
    s.call(f"net.listen(s, {r.choice([8, 16, 100])})", "fine")
    if anyaddr: s.addr = "127.0.0.1"

def accept(s, c):
    i = len(s.ops)
    s.o(f'n, m, p = net.accept(s); c{c} = n; print("@{i} ", type(n), " ", n, " ", type(m), " ", m, " ", p, "\\n");', "accept", dict(conn=c))

def data(r, big):
    n = r.choice([0, 1, 2, 10, 100, 1000]) if not big else r.choice([5000, 70000, 200000])
    d = r.randbytes(r.randrange(n + 1) if n else 0)
    return d
def chunks(r, d):
    out = []
    while d:
        k = r.choice([1, 2, 7, 100, 1500, 65536, len(d)]); out.append(d[:k]); d = d[k:]
        if len(out) > 30: out.append(d); break
    return out

def exchange(r):
    """Connections over which bytes go both ways."""
    s = Scn(r, r.random() < .12); s.kind = "exchange"
    buffers(s); serve(s)
    n = r.choice([1, 1, 2, 3])
    for c in range(n):
        d = data(r, s.big)
        s.conns.append(dict(data=d, chunks=chunks(r, d), end="shutdown", src=f"127.{r.randrange(256)}.{r.randrange(256)}.{r.randrange(1, 255)}"))
    todo = list(range(n)); open_ = []
    while todo and not open_ or todo and r.random() < .5: c = todo.pop(0); accept(s, c); open_.append(c)
    for _ in range(r.choice([2, 6, 15])):
        garbage(s)
        c = r.choice(open_); x = r.random()
        if x < .4: op_recv(s, c)
        elif x < .7: op_send(s, c)
        elif x < .85: op_text(s, c)
        else: op_set(s)
        if todo and r.random() < .3: c = todo.pop(0); accept(s, c); open_.append(c)
    for c in todo: accept(s, c); open_.append(c)
    r.shuffle(open_)
    for c in open_:
        op_drain(s, c)
        if r.random() < .5: op_send(s, c); op_text(s, c)
        if r.random() < .8: s.call(f"net.close(c{c})", "closed")
        if r.random() < .2 and "close" in s.lines[-1]: s.call(f"net.send(c{c}, b0)", "fails"); s.call(f"net.close(c{c})", "badclose")
    if r.random() < .5: s.call("net.close(s)", "closed")
    return s

def echo(r):
    s = Scn(r, r.random() < .2); s.kind = "echo"
    buffers(s); s.views = [v for v in s.views if v[3]]
    if not s.views: s.bases.append(32); k = len(s.bases) - 1; s.lines.append(f"b{k} = buffer.new(32);"); s.views.append((f"b{k}", k, 0, 32))
    serve(s)
    d = data(r, s.big); s.conns.append(dict(data=d, chunks=chunks(r, d), end="shutdown", src=None))
    accept(s, 0)
    v, k, off, l = r.choice(s.views); i = len(s.ops)
    s.o(f'go = true; while go: {{ n, m = net.recv(c0, {v}); if n == none: go = false; else if n == 0: go = false; if go: {{ w = 0; while w < n: {{ q, m = net.send(c0, buffer.sliceUp({v}, w, n - w)); w = w + q; }} }} print("@{i} ", n, "\\n"); }}', "echo", dict(conn=0, cap=l))
    s.call("net.close(c0)", "closed")
    return s

def reset(r):
    """Peers that vanish at some point."""
    s = Scn(r, False); s.kind = "reset"
    s.bases = [64]; s.lines.append("b0 = buffer.new(64);"); s.views = [("b0", 0, 0, 64)]
    serve(s)
    d = r.randbytes(r.randrange(1, 60)); s.conns.append(dict(data=d, chunks=[d], end="reset", src=None))
    accept(s, 0)
    op_recv(s, 0, to=s.views[0])
    s.call('net.send(c0, buffer.fromString("!"))', "sendtext", conn=0, data=b"!", cap=1)    # the peer resets when it gets this
    i = len(s.ops)
    s.o(f'go = true; while go: {{ n, m = net.recv(c0, b0); print("@{i} ", type(n), " ", n, " ", type(m), " ", m, " ", b0, "\\n"); if n == none: go = false; else if n == 0: go = false; }}', "lost", dict(conn=0, base=0, off=0, cap=64, size=64))
    for _ in range(r.choice([1, 3])): s.call("net.send(c0, b0)", "fails")
    # and it goes on with another one
    if r.random() < .5:
        d = r.randbytes(20); s.conns.append(dict(data=d, chunks=[d], end="shutdown", src=None)); accept(s, 1); op_drain(s, 1); s.call("net.close(c1)", "closed")
    return s

def failures(r):
    """Calls that can't succeed, none of which stops the program."""
    s = Scn(r, False); s.kind = "failures"
    s.lines.append("b0 = buffer.new(8);"); s.bases = [8]; s.views = [("b0", 0, 0, 8)]
    s.call("net.socket(net.AF_INET, net.SOCK_STREAM, 0)", "fd"); s.lines.append("s = n;")
    bads = ["-1", "9999", "123456", "s + 4294967296", "-9223372036854775807", "9223372036854775807"]
    for _ in range(r.choice([4, 10])):
        b = r.choice(bads); x = r.randrange(15)
        if x == 0: s.call(f"net.recv({b}, b0)", "fails")
        elif x == 1: s.call(f"net.send({b}, b0{r.choice(['', ', 3'])})", "fails")
        elif x == 2: s.call(f"net.accept({b})", "fails")
        elif x == 3: s.call(f"net.listen({b}, 4)", "fails")
        elif x == 4: s.call(f'net.bind({b}, net.AF_INET, {s.port}, "{s.addr}")', "fails")
        elif x == 5: s.call(f"net.close({b})", "badclose")
        elif x == 6: s.call(f"net.accept(s)", "fails")
        elif x == 7: s.call(f"net.{r.choice(['recv', 'send'])}(s, b0, {r.choice([-1, -100, -9223372036854775807])})", "fails")
        elif x == 8: s.call(f"net.send(s, b0)", "fails")
        elif x == 9: s.call(f"net.recv(s, b0)", "fails")
        elif x == 10: s.call(f'net.bind(s, net.AF_INET, {s.port}, "{r.choice(["", "x", "localhost", "1.2.3", "300.1.1.1", "1.2.3.4.5", "::1", " 127.0.0.1", "127.0.0.1 ", "8.8.8.8", "203.0.113.7"])}")', "fails")
        elif x == 11: s.call(f'net.bind(s, {r.choice([0, 1, 10, -1, 99, 4294967298])}, {s.port}, "{s.addr}")', "fails")
        elif x == 12: s.call(f'net.bind(s, net.AF_INET, {r.choice([-1, 65536, 65536 + s.port, 1 << 40, -65535])}, "{s.addr}")', "fails")
        elif x == 13: s.call(f"net.socket({r.choice(['-1, net.SOCK_STREAM, 0', '999, net.SOCK_STREAM, 0', 'net.AF_INET, 999, 0', 'net.AF_INET, net.SOCK_STREAM, 999', 'net.AF_INET + 4294967296, net.SOCK_STREAM, 0'])})", "fails")
        elif x == 14:
            # an address that's in use
            if s.held is None: s.held = socket.socket(); s.held.bind((f"127.9.{r.randrange(256)}.{r.randrange(1, 255)}", 0)); s.held.listen(1)
            s.call(f'net.bind(s, net.AF_INET, {s.held.getsockname()[1]}, "{s.held.getsockname()[0]}")', "fails")
    # it still works
    s.call(f'net.bind(s, net.AF_INET, {s.port}, "{s.addr}")', "fine"); s.call("net.listen(s, 4)", "fine")
    if r.random() < .5: s.call(f'net.bind(s, net.AF_INET, {s.port + 1 if s.port < 65535 else s.port - 1}, "{s.addr}")', "fails")
    d = r.randbytes(12); s.conns.append(dict(data=d, chunks=[d], end="shutdown", src=None)); accept(s, 0); op_drain(s, 0); s.call("net.close(c0)", "closed"); s.call("net.close(s)", "closed"); s.call("net.close(s)", "badclose")
    return s

def datagrams(r):
    s = Scn(r, False); s.kind = "datagrams"; s.udp = True
    buffers(s)
    s.call("net.socket(net.AF_INET, net.SOCK_DGRAM, 0)", "fd"); s.lines.append("c0 = n;")
    s.call(f'net.bind(c0, net.AF_INET, {s.port}, "{s.addr}")', "fine")
    s.grams = [r.randbytes(r.choice([0, 1, 5, 64, 300, 1200])) for _ in range(r.choice([1, 4, 10]))]
    s.lines.append('f = files.openFile("ready", files.WRITE); files.write(f, buffer.fromString("1")); f = none; g = 0; while g < 60: { t = [1, 2, 3]; g = g + 1; }')
    s.conns.append(dict(data=b"", chunks=[], end="udp", src=None))
    for g in s.grams: garbage(s); op_recv(s, 0); s.ops[-1][1]["gram"] = g
    s.call("net.send(c0, b0)", "fails"); s.call("net.close(c0)", "closed")
    return s

WRONG = ["net.socket()", "net.socket('a', 1, 0)", "net.socket(net.AF_INET, net.SOCK_STREAM)", "net.socket(net.AF_INET, net.SOCK_STREAM, 0, 1)", "net.bind(1)", "net.bind(s, net.AF_INET, 'x')", "net.bind(s, net.AF_INET, 80, 5)", "net.listen(s)", "net.listen(s, 1.0)", "net.listen(none, 1)", "net.accept()", "net.accept('s')", "net.accept([])", "net.recv(s)", "net.recv(s, 'text')", "net.recv(s, [])", "net.recv(s, buffer.new(3), '1')",
         "net.recv('s', buffer.new(3))", "net.send(s, 'text')", "net.send(s)", "net.send(s, buffer.new(1), 1.5)", "net.send(none, buffer.new(1))", "net.close()", "net.close('1')", "net.close(none)", "net.nothing(1)"]
def wrong(r):
    s = Scn(r, False); s.kind = "wrong arguments"
    s.call("net.socket(net.AF_INET, net.SOCK_STREAM, 0)", "fd"); s.lines.append("s = n;")
    s.lines.append(r.choice(WRONG) + ";"); s.ops.append(("abort", {}))
    return s

def until(deadline, stop): return time.time() < deadline and not stop.is_set()

def peer(s, cn, out, stop, deadline, d):
    """One peer: connects, sends everything, receives everything."""
    r = random.Random(cn["seed"])
    q = socket.socket()
    try:
        while until(deadline, stop):
            q.close(); q = socket.socket()
            if cn["src"]: q.bind((cn["src"], 0))
            try: q.connect((s.addr, s.port)); break
            except (ConnectionRefusedError, ConnectionAbortedError) as e: out["refused"] = out.get("refused", 0) + 1; time.sleep(.002)
        else: out["error"] = "never connected"; return
        out["name"] = q.getsockname(); out["connected"].set()
        got = bytearray(); out["got"] = got
        def reader():
            q.settimeout(.2)
            while until(deadline, stop):
                try: b = q.recv(65536)
                except socket.timeout: continue
                except OSError as e: out["rerror"] = e.errno; break
                if not b: out["eof"] = True; break
                got.extend(b)
                if cn["end"] == "reset":
                    q.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0)); q.close(); break
        t = threading.Thread(target=reader); t.start()
        try:
            for c in cn["chunks"]:
                if r.random() < .3: time.sleep(r.choice([0, .001, .004]))
                v = memoryview(c)
                while v and until(deadline, stop):
                    try: v = v[q.send(v):]
                    except socket.timeout: continue
            if cn["end"] == "shutdown": q.shutdown(socket.SHUT_WR)
        except OSError as e: out["werror"] = e.errno
        t.join()
    except OSError as e: out["error"] = repr(e)
    finally:
        out["connected"].set(); q.close()

def run(job):
    i, s, root = job
    for attempt in range(2):
        d = os.path.join(root, f"{i}-{attempt}"); os.makedirs(d)
        open(os.path.join(d, "prog"), "w").write("\n".join(s.lines) + '\nprint("end\\n");\n')
        stop = threading.Event(); deadline = time.time() + 40 * (1 + 2 * attempt)
        p = subprocess.Popen([build.cli(s.variant), "-H", str(s.heap), "prog"], cwd=d, env=vf.env(), stdin=subprocess.DEVNULL, stdout=open(os.path.join(d, "out"), "wb"), stderr=open(os.path.join(d, "err"), "wb"), preexec_fn=vf.big_stack)
        outs = [dict(connected=threading.Event(), got=b"") for _ in s.conns]; th = []
        def manage():
            # in order, so that they're accepted in order
            for cn, o in zip(s.conns, outs):
                if cn["end"] == "udp":
                    while until(deadline, stop) and not (os.path.exists(os.path.join(d, "ready"))): time.sleep(.002)
                    with socket.socket(socket.AF_INET, socket.SOCK_DGRAM) as q:
                        for g in s.grams: q.sendto(g, (s.addr, s.port))
                    continue
                t = threading.Thread(target=peer, args=(s, cn, o, stop, deadline, d)); t.start(); th.append(t)
                while until(deadline, stop) and not o["connected"].wait(.1): pass
        m = threading.Thread(target=manage); m.start()
        hung = False
        try: p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired: hung = True; p.kill(); p.wait()
        end = time.time() + 3     # what's been sent arrives
        while time.time() < end and any(t.is_alive() for t in th): time.sleep(.002)
        stop.set(); m.join(); [t.join() for t in th]
        out, err = open(os.path.join(d, "out"), "rb").read(), open(os.path.join(d, "err"), "rb").read()
        # a port which another process took: try again
        if not hung or attempt: break
    return p.returncode, hung, out, err, outs

HEX = re.compile(rb"\[(.*)\]$")
def hexes(b):
    m = HEX.search(b); return bytes(int(x, 16) for x in m[1].split(b",") if x.strip()) if m else None

def judge(chk, s, res):
    rc, hung, out, err, outs = res
    prog = "\n".join(s.lines)
    show = lambda: f"{s.kind}\n{prog[:3000]}\npeers: {[(c['end'], len(c['data']), [len(x) for x in c['chunks']][:20]) for c in s.conns]} {[{k: v for k, v in o.items() if k not in ('got', 'connected')} for o in outs]}\nexit {rc}\n{out[-600:]!r}\n{err[-800:]!r}"
    rep = {"kind": s.kind, "program": prog, "variant": s.variant, "heap": s.heap, "address": [s.addr, s.port], "peers": [{"end": c["end"], "chunks": [x.hex() for x in c["chunks"]][:40]} for c in s.conns]}
    def bad(what, more=""): chk.violation(f"{what} ({s.kind})", f"{what} {more}\n{show()}", rep)
    chk.observed((s.kind, prog, s.addr)); chk.count_kind("programs: " + s.kind)
    if hung: return bad("it doesn't end")
    if rc == 99 or rc < 0: return bad("the program dies", vf.san_summary(err))
    lines = out.split(b"\n")
    aborting = s.ops and s.ops[-1][0] == "abort"
    if aborting:
        if rc == 0 or not err.startswith(b"Runtime Error"): return bad("wrong arguments are accepted")
        chk.count_kind("wrong arguments refused"); return
    if rc: return bad("the program fails")
    if lines[-2:] != [b"end", b""]: return bad("the program doesn't reach its end")
    log = {}
    for l in lines[:-2]:
        m = re.match(rb"@(\d+) (.*)$", l)
        if not m: return bad("unexpected output", repr(l[:200]))
        log.setdefault(int(m[1]), []).append(m[2])
    bases = [bytearray(n) for n in s.bases]
    pos = [0] * len(s.conns); sent = [bytearray() for _ in s.conns]; lost = set()
    for k, (what, kw) in enumerate(s.ops):
        ls = log.pop(k, [])
        if not ls: return bad("an operation isn't in the log", f"{k} {what}")
        if len(ls) > 1 and what not in ("drain", "echo", "lost"): return bad("an operation is twice in the log")
        for j, l in enumerate(ls):
            chk.count_kind("calls: " + what)
            if what == "set": bases[kw["base"]][kw["at"]] = kw["val"]; continue
            if what == "echo":
                n = int(l) if l != b"none" else -1
                if n < 0: return bad("receiving fails")
                if n > kw["cap"]: return bad("received more than the buffer holds", f"{n}")
                if (n == 0) != (pos[0] == len(s.conns[0]["data"])): return bad("the end of the stream isn't where it is", f"{n} at {pos[0]} of {len(s.conns[0]['data'])}")
                sent[0] += s.conns[0]["data"][pos[0]:pos[0]+n]; pos[0] += n
                if (n == 0) != (j == len(ls) - 1): return bad("the end of the stream isn't the end")
                continue
            m = re.match(rb"(\S+) (\S+) (\S+) (.*)$", l) if what not in ("fine", "fails") else re.match(rb"(\S+) (.*) (None|String) (.*)$", l)
            if not m: return bad("unexpected results", f"{what}: {l[:200]!r}")
            tn, n, tm, rest = m.groups()
            if what == "fd":
                if tn != b"int" or int(n) < 3: return bad("no socket", repr(l))
            elif what == "closed":
                if n != b"0": return bad("closing fails", repr(l))
            elif what == "badclose":
                if n == b"0": return bad("closing what isn't open succeeds", repr(l))
            elif what == "fine":
                if tn != b"None" or tm != b"None": return bad("a call that should succeed fails", f"operation {k}: {l!r}")
            elif what == "fails":
                msg = rest if tm == b"String" else n if tn == b"String" else b""
                if not msg.strip() or tn not in (b"None", b"String"): return bad("a call that can't succeed doesn't fail with a message", f"operation {k}: {l!r}")
            elif what == "accept":
                if tn != b"int": return bad("accepting fails", repr(l))
                name = outs[kw["conn"]].get("name")
                raw = socket.inet_aton(name[0]) if name else None
                a = int(rest.split()[0])
                if raw and a & 0xFFFFFFFF not in (int.from_bytes(raw, "big"), int.from_bytes(raw, "little")): return bad("another peer's address", f"{l!r} {name}")
                pt = int(rest.split()[1])
                if name and pt not in (name[1], socket.htons(name[1])): return bad("another peer's port", f"{l!r} {name}")
            elif what in ("send", "sendtext"):
                if tn != b"int": return bad("sending fails", repr(l))
                n = int(n)
                if not (1 if kw["cap"] else 0) <= n <= kw["cap"]: return bad("sent another number of bytes", f"{n} of {kw['cap']}")
                sent[kw["conn"]] += (kw["data"][:n] if what == "sendtext" else bases[kw["base"]][kw["off"]:kw["off"]+n])
            elif what in ("recv", "drain", "lost"):
                h = hexes(rest)
                if h is None: return bad("unexpected results", repr(l[:200]))
                c = kw["conn"]; d = s.conns[c]["data"]; last = j == len(ls) - 1
                if tn != b"int":
                    if what == "lost" and tn == b"None" and tm == b"String": n = 0; lost.add(c)
                    else: return bad("receiving fails", repr(l[:200]))
                else: n = int(n)
                if not 0 <= n <= kw["cap"]: return bad("received another number of bytes", f"{n} of {kw['cap']}")
                if "gram" in kw:
                    want = kw["gram"][:kw["cap"]]
                    if n != len(want): return bad("another datagram", f"{n} bytes instead of {len(want)}")
                    new = want
                else:
                    new = d[pos[c]:pos[c]+n]
                    if len(new) < n: return bad("received more than was sent")
                    pos[c] += n
                    if n == 0 and kw["cap"] and pos[c] < len(d) and c not in lost: return bad("the stream ends early", f"{pos[c]} of {len(d)}")
                    if what == "drain" and (n == 0) != last: return bad("the stream doesn't end")
                b = bases[kw["base"]]; b[kw["off"]:kw["off"]+n] = new
                if h != bytes(b):
                    at = next((i for i in range(min(len(h), len(b))) if h[i] != b[i]), min(len(h), len(b)))
                    return bad("the buffer hasn't the bytes that were sent", f"operation {k}, {n} bytes received at {kw['off']}, differs at {at}: {h[at:at+8].hex()} instead of {bytes(b[at:at+8]).hex()}")
                chk.count_kind("bytes received", n)
                if what == "lost" and not last and tn != b"int": return bad("unexpected results")
            else: raise vf.HarnessError(what)
    if log: return bad("unexpected operations in the log", str(sorted(log)[:5]))
    for c, (cn, o) in enumerate(zip(s.conns, outs)):
        if cn["end"] == "udp": continue
        if "error" in o: return bad("a peer couldn't connect", o["error"])
        if cn["end"] == "shutdown":
            if "werror" in o or "rerror" in o: return bad("a peer was cut off", str({k: v for k, v in o.items() if "error" in k}))
            if pos[c] != len(cn["data"]): return bad("not everything was received", f"{pos[c]} of {len(cn['data'])}")
            if not o.get("eof"): return bad("a peer didn't get to the end of the stream")
        if bytes(o["got"]) != bytes(sent[c]): return bad("the peer got other bytes than were sent", f"{len(o['got'])} bytes {bytes(o['got'])[:60].hex()} instead of {len(sent[c])} {bytes(sent[c])[:60].hex()}")
        chk.count_kind("bytes sent", len(sent[c])); chk.count_kind("connections")
    chk.sample({"kind": s.kind, "program": prog[:400], "log": out[:300].decode(errors="replace")})

def main():
    chk = vf.Check("C18", rule="distinct programs whose exchanges with scripted peers over loopback were recorded and reconciled")
    r = chk.rng
    for v in ("asan", "plain"): build.cli(v)
    left = chk.scale(420, 8000)
    while left > 0 and not chk.enough():
        n = min(left, 420); left -= n
        jobs = []
        root = os.path.join(vf.tmpdir(), f"n{left}")
        for i in range(n):
            f = r.choices([exchange, echo, reset, failures, datagrams, wrong], [8, 2, 2, 3, 2, 1])[0]
            s = f(random.Random(r.random()))
            for c in s.conns: c["seed"] = r.random()
            jobs.append((i, s, root))
        with ThreadPoolExecutor(8) as ex:
            for j, res in zip(jobs, ex.map(run, jobs)):
                if j[1].held: j[1].held.close()
                judge(chk, j[1], res)
        import shutil; shutil.rmtree(root, ignore_errors=True)
    for need in ("programs: exchange", "programs: echo", "programs: reset", "programs: failures", "programs: datagrams", "programs: wrong arguments", "bytes received", "bytes sent"):
        if not chk.violations and not chk.cov["events"].get(need): raise vf.HarnessError(f"nothing observed of {need}")
    chk.finish(300, 300)

vf.main(main)
