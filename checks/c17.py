from common import *
import random, re, shutil

# Each history works in a directory of its own, h<N>, holding
#   a.txt (1000 bytes), empty, d/ (3 files), d/sub/, loop -> loop
A = bytes((i * 7 + i // 26) % 26 + 97 for i in range(1000))
EXIST = {"a.txt": A, "empty": b"", "d/one": b"1", "d/two": b"22", "d/three é": b"", "d/.hidden": b"h", "d/..more": b"", "d/sub/x": b"xx"}
DIRS = {"d": {".", "..", "one", "two", "three é", ".hidden", "..more", "sub"}, "d/sub": {".", "..", "x"}}

def prepare(d):
    os.makedirs(d + "/d/sub")
    for n, b in EXIST.items():
        with open(os.path.join(d, n), "wb") as f: f.write(b)
    os.symlink("loop", d + "/loop")

class H:
    """A random history of operations on files, with the output and the files it must leave.
    A file opened to be written is only touched through that handle until it's dropped and
    collected: what's in the streams' buffers isn't on the disk yet."""
    def __init__(self, r, h, gc):
        self.r, self.h, self.gc = r, h, gc
        self.src, self.out, self.k = [], [], 0
        self.files = dict(EXIST)
        self.vars = {}                 # variable -> handle
        self.bufs = {}                 # variable -> (bytearray, offset, length)
        self.ops = {}
    def note(self, k): self.ops[k] = self.ops.get(k, 0) + 1
    def w(self, s): self.src.append(s)
    def path(self, p): return f"'{self.h}/{p}'" if self.r.random() < .85 else f"'{self.h}/{self.r.choice(['./', 'd/../', '/'])}{p}'"
    def busy(self, p): return any(x["path"] == p and x["mode"] for x in self.handles())
    def handles(self): return [x for x in self.vars.values() if x] + ([] if self.gc else self.lost)
    lost = []
    def drop(self, v):
        if not self.gc and self.vars.get(v): self.lost = list(self.lost) + [self.vars[v]]
        self.vars[v] = None
    def buffer(self):
        r = self.r
        if self.bufs and r.random() < .6: return r.choice(list(self.bufs))
        v = f"b{len(self.bufs)}"
        x = r.random()
        if x < .4:
            t = "".join(r.choice("abcXYZ 0é日") for _ in range(r.choice([0, 1, 3, 10, 50])))
            m = bytearray(t.encode()); self.w(f"{v} = buffer.fromString('{t}');"); self.bufs[v] = (m, 0, len(m))
        elif x < .7 or not self.bufs:
            n = r.choice([0, 1, 2, 7, 16, 40, 100, 100, 5000])
            self.w(f"{v} = buffer.new({n});"); self.bufs[v] = (bytearray(n), 0, n)
            for _ in range(r.randrange(3)):
                if n: i, b = r.randrange(n), r.randrange(256); self.w(f"{v}[{i}] = {b};"); self.bufs[v][0][i] = b
        else:
            b = r.choice(list(self.bufs)); m, o, n = self.bufs[b]
            i = r.randrange(n + 1); l = r.randrange(n - i + 1)
            if n == 0 or i == n: return b
            self.w(f"{v} = buffer.sliceUp({b}, {i}, {l});"); self.bufs[v] = (m, o + i, l)
        return v
    def show(self, v):
        m, o, n = self.bufs[v]
        if n <= 120: self.w(f"print({v}, ' ');"); self.p(ref.show(ref.NBuf(m, o, n)) + " ")
        else:
            for i in self.r.sample(range(n), 5): self.w(f"print({v}[{i}], ' ');"); self.p(f"{m[o+i]} ")
    def p(self, s): self.out.append(s)
    def step(self):
        r = self.r; x = r.random()
        live = [v for v, h in self.vars.items() if h]
        if x < .3 or not live:
            v = f"f{r.randrange(4)}"; p = r.choice(["a.txt", "empty", "new1", "new2", "d/new3", "d/one", "d/two"]); mode = r.choice([0, 0, 1, 2, 2, 3])
            if mode == 1 and p == "a.txt" and r.random() < .5: mode = 0
            if self.busy(p) or (mode and any(y["path"] == p for y in self.handles())): return
            self.w(f"{v}, e = files.openFile({self.path(p)}, {['files.READ', 'files.WRITE', 'files.APPEND', '3'][mode] if r.random() < .8 else mode});")
            self.drop(v)
            if mode == 0 and p not in self.files:
                self.w(f"print({v}, type(e) == String and count(e) > 0, ' ');"); self.p("nonetrue "); self.note("open of a missing file"); return
            if mode == 1: self.files[p] = b""
            if mode >= 2: self.files.setdefault(p, b"")
            self.vars[v] = {"path": p, "mode": mode, "pos": 0}
            self.w(f"print(type({v}) == File, e, ' ');"); self.p("truenone "); self.note(["open to read", "open to write", "open to append", "open to append"][mode])
        elif x < .36:
            p, m = r.choice([("nodir/f", 1), ("a.txt/f", 0), ("loop", 0), ("d", 1), ("d", 2), ("", 0), ("x" * 300, 1), ("nodir/f", 2)])
            self.w(f"t, e = files.openFile('{self.h + '/' + p if p else ''}', {m}); print(t, type(e) == String and count(e) > 0, ' ');"); self.p("nonetrue "); self.note("refused open")
        elif x < .6:
            v = r.choice(live); h = self.vars[v]; b = self.buffer(); m, o, n = self.bufs[b]
            c, arg = self.count(n)
            if h["mode"] == 0: got = self.files[h["path"]][h["pos"]:h["pos"] + c]
            elif h["mode"] == 1: got = b""
            else:
                got = b""
            h["pos"] += len(got); m[o:o + len(got)] = got
            self.w(f"print(files.read({v}, {b}{arg}), ' ');"); self.p(f"{len(got)} "); self.show(b)
            self.note("read" + (", partial" if len(got) < c else "")); self.bytes = getattr(self, "bytes", 0) + len(got)
        elif x < .82:
            v = r.choice(live); h = self.vars[v]; b = self.buffer(); m, o, n = self.bufs[b]
            c, arg = self.count(n)
            if h["mode"] == 0: c = 0; self.note("write to a file open to read")
            else: self.files[h["path"]] += bytes(m[o:o + c]); self.note("write"); self.bytes = getattr(self, "bytes", 0) + c
            self.w(f"print(files.write({v}, {b}{arg}), ' ');"); self.p(f"{c} ")
        elif x < .88:
            v = r.choice(live); self.w(f"{v} = none;"); self.drop(v); self.note("drop")
        elif x < .9:
            v = r.choice(live); u = f"f{r.randrange(4)}"
            if u != v: self.w(f"{u} = {v};"); self.drop(u); self.vars[u] = self.vars[v]
        elif x < .95:
            d = r.choice(list(DIRS)); self.k += 1
            new = {os.path.relpath(p, d) for p in self.files if os.path.dirname(p) == d} | DIRS[d]
            self.w(f"dir = files.openDir('{self.h}/{d}'); n = 0; x = files.nextDirItem(dir); while x != none: {{ print('<', x, '>'); x = files.nextDirItem(dir); }} print(files.nextDirItem(dir), type(dir) == Directory, ' ');")
            self.out.append(new); self.p("nonetrue "); self.note("listing")
        elif x < .97:
            p = r.choice(["nodir", "a.txt", "loop", "d/sub/x", ""]); self.w(f"print(files.openDir('{self.h + '/' + p if p else ''}'), ' ');"); self.p("none "); self.note("refused openDir")
        else:
            self.w(f"z = buffer.fromString('{self.h}/a.txt!'); z[count(z) - 1] = 0; s, e = buffer.toString(z); t, e = files.openFile(s, {r.choice([0, 1, 2])}); y = buffer.fromString('{self.h}/d!!'); y[count(y) - 2] = 0; print(t, type(e) == String, files.openDir(s), files.openDir(buffer.toString(y)), ' ');"); self.p("nonetruenonenone "); self.note("path with a null byte")
    def count(self, n):
        r = self.r; x = r.random()
        if x < .3: return n, ""
        if x < .4: return n, ", none"
        c = r.choice([0, 1, n, max(n - 1, 0), n + 1, 1 << 20, (1 << 63) - 1, (1 << 32) + 1, 1 << 32, r.randrange(n + 1)])
        return min(c, n), f", {c}"

BAD = ["files.read(f, b, -1)", "files.write(f, b, -1)", "files.read(f, 'str')", "files.write(f, 'str')", "files.read(none, b)", "files.write(b, f)", "files.read(f, b, 1.0)", "files.read(f)", "files.write(f)", "files.openFile('h', 4)", "files.openFile('h', -1)", "files.openFile('h', 4294967296)", "files.openFile('h', 1.0)", "files.openFile('h')",
       "files.openFile(5, 0)", "files.openDir(5)", "files.openDir()", "files.nextDirItem(f)", "files.nextDirItem(none)", "files.read(dir, b)", "files.nextDirItem()", "files.openFile(none, none)", "files.read(f, b, 'x')", "files.write(f, b, true)", "files.write(f, b, -9223372036854775807)"]

def main():
    chk = vf.Check("C17", rule="distinct histories of file operations whose output and files were compared with the model")
    r = chk.rng
    left = chk.scale(1400, 14000)
    while left > 0 and not chk.enough():
        k = min(left, 700); left -= k
        root = os.path.join(vf.tmpdir(), "files"); os.makedirs(root)
        items = []
        for i in range(k):
            gc = r.random() < .35
            h = H(random.Random(r.random()), f"h{i}", gc)
            for _ in range(r.choice([2, 5, 10, 20, 30]) if not gc else r.choice([2, 5, 10])): h.step()
            end = r.random(); err = None
            if end < .12: h.w("error('the end');"); err = ("runtime", "the end")
            elif end < .3:
                h.w(f"dir = files.openDir('{h.h}/d'); f, e = files.openFile('{h.h}/a.txt', 0); b = buffer.new(4); print('bad '); {r.choice(BAD)}; print('accepted');".replace("openFile('h'", f"openFile('{h.h}/made'")) if not h.busy("a.txt") else h.w("print('bad '); files.read(0, 0);"); h.p("bad "); err = ("runtime", None)
            prepare(os.path.join(root, h.h))
            items.append((h, err, vf.Case("\n".join(h.src), gcper=1 if gc else r.choice([0, 0, 0, 7]), heap=1 << 20, abort_at=0, variant=r.choice(["asan", "asan", "plain"]))))
        for (h, err, c), x in zip(items, vf.run_cases([t[2] for t in items], cwd=root)): judge(chk, root, h, err, c, x)
        rest = set(os.listdir(root)) - {h.h for h, _, _ in items}
        if rest: chk.violation("something else was created", str(sorted(rest)[:10]))
        shutil.rmtree(root)
    big(chk, r)
    full(chk, r)
    shared(chk, r)
    chk.finish(600, 500)

def judge(chk, root, h, err, c, x):
    chk.observed(x.out + c.src[:2000])
    for k, n in h.ops.items(): chk.count_kind(k, n)
    chk.count("bytes moved", getattr(h, "bytes", 0))
    if chk.crash(c, x, "history of files"): return
    how = f"{c.src.decode()[-2500:]}"
    # the listings come in any order
    exp, got, bad = b"", x.out, None
    pos = 0
    for part in h.out:
        if isinstance(part, set):
            m = re.match(rb"(?:<[^>]*>)*", got[pos:])
            names = re.findall(rb"<([^>]*)>", m.group(0))
            if sorted(names) != sorted(n.encode() for n in part): bad = f"listing {sorted(names)}, expected {sorted(part)}"; break
            pos += m.end()
        else:
            e = part if isinstance(part, bytes) else part.encode("utf-8", "surrogateescape")
            if got[pos:pos + len(e)] != e: bad = f"output {got[pos:pos+100]!r}, expected {e!r}, after {got[max(0,pos-60):pos]!r}"; break
            pos += len(e)
    if bad is None and pos != len(got): bad = f"more output: {got[pos:pos+100]!r}"
    if bad: return chk.violation("history of files: " + bad.split()[0], f"{bad}; ok={x.ok} {x.err} {x.msg!r}\n{how}", c)
    if err is None and x.ok != 1 or err is not None and (x.ok or x.err != err[0] or (err[1] and x.msg.decode() != err[1])):
        return chk.violation("history of files: ending", f"{x.ok} {x.err} {x.msg!r}, expected {err}\n{how}", c)
    if c.variant == "asan" and (x.leak or x.fds): return chk.violation("history of files: leak", f"{x.leak} bytes, {x.fds} descriptors\n{how}", c)
    now, d = {}, os.path.join(root, h.h)
    for p, ds, fs in os.walk(d):
        for f in fs:
            q = os.path.join(p, f)
            if os.path.islink(q): now[os.path.relpath(q, d)] = os.readlink(q)
            else: now[os.path.relpath(q, d)] = open(q, "rb").read()
    want = dict(h.files); want["loop"] = "loop"
    if now != want:
        diff = [k for k in set(now) | set(want) if now.get(k) != want.get(k)]
        k = diff[0]
        return chk.violation("history of files: what's on disk", f"{diff}: {k}: {str(now.get(k))[-200:]}, expected {str(want.get(k))[-200:]}\n{how}", c)
    chk.count("files on disk as expected", len(now))
    chk.sample({"source": c.src.decode()[:500], "output": x.out[:200].decode(errors="replace"), "files": {k: len(v) for k, v in now.items()}})

def big(chk, r):
    """Sizes around those of the streams' buffers; copies of whole files."""
    root = os.path.join(vf.tmpdir(), "big"); os.makedirs(root)
    cases = []
    for i, n in enumerate([0, 1, 4095, 4096, 4097, 8191, 8192, 8193, 65536, 100001] + [r.randrange(1, 200000) for _ in range(chk.scale(10, 100))]):
        data = random.Random(n).randbytes(n)
        with open(f"{root}/in{i}", "wb") as f: f.write(data)
        for bs in (1, 7, 512, 4096, 4099, 70000):
            if n / bs > 5000: continue
            src = f"i, e = files.openFile('in{i}', files.READ); o, e = files.openFile('out{i}-{bs}', files.WRITE); b = buffer.new({bs}); t = 0; n = files.read(i, b); while n > 0: {{ t = t + files.write(o, b, n); n = files.read(i, b); }} print(t, ' ', n);"
            cases.append((data, f"out{i}-{bs}", vf.Case(src, abort_at=0, cpu=30, variant="plain")))
    for (data, o, c), x in zip(cases, vf.run_cases([t[2] for t in cases], cwd=root)):
        chk.observed(c.src); chk.count_kind("copy of a file"); chk.count("bytes moved", 2 * len(data))
        if chk.crash(c, x, "copy"): continue
        got = open(f"{root}/{o}", "rb").read() if os.path.exists(f"{root}/{o}") else None
        if x.ok != 1 or x.out != b"%d 0" % len(data) or got != data: chk.violation("copy of a file", f"{len(data)} bytes: {x.ok} {x.msg!r} {x.out!r}, copied {got is not None and len(got)}, same: {got == data}\n{c.src.decode()}", c)
    shutil.rmtree(root)

def full(chk, r):
    """A file that can't be written to. Whatever the program did with it, what couldn't be written isn't reported as written
    without an error: either the write says so, or the collection that closes the file does."""
    cases = []
    for n in (0, 1, 5, 4095, 4096, 4097, 9000, 70000):
        for times in (1, 3):
            for hold in range(3):
                for gc in (0, 1, 5):
                    src = f"f, e = files.openFile('/dev/full', files.WRITE); b = buffer.new({max(n, 1)}); i = 0; t = 0; while i < {times}: {{ i = i + 1; t = t + files.write(f, b, {n}); }} print(t, '|');"
                    # (when the collection of the monitor fails, the monitor stops the program)
                    # closed by a collection, at the end of the program, or not before something else
                    src += ["f = none; b = none; i = 0; while i < 30: { i = i + 1; x = [i]; } print('end');", "print('end');", "g, e = files.openFile('kept', files.WRITE); files.write(g, buffer.fromString('text')); f = g; print('end');"][hold]
                    cases.append((n, times, hold, gc, vf.Case(src, gcper=gc, heap=1 << 20, abort_at=0, variant=r.choice(["asan", "plain"]))))
    root = os.path.join(vf.tmpdir(), "full"); os.makedirs(root)
    for (n, times, hold, gc, c), x in zip(cases, vf.run_cases([t[4] for t in cases], cwd=root)):
        chk.observed(c.src); chk.count_kind("files that can't be written")
        if chk.crash(c, x, "full device"): continue
        m = re.match(rb"(\d+)\|", x.out)
        bad = None
        if not m: bad = "no count"
        elif int(m[1]) > n * times: bad = "more than asked is reported as written"
        # what was kept back is lost when the file is closed, which is noticed if that happens before the end
        elif x.ok != 1 and (x.err != "runtime" or x.msg not in (b"Failed to close stream", b"Forced abortion")): bad = "another error"
        elif x.ok != 1 and n == 0: bad = "an error although nothing was written"
        elif x.ok != 1 and not gc: bad = "an error although nothing was collected"
        elif hold == 0 and gc == 1 and 0 < n < 4096 and times == 1 and x.ok == 1: bad = "what was lost isn't noticed"
        elif c.variant == "asan" and (x.leak or x.fds): bad = f"leak: {x.leak} bytes, {x.fds} descriptors"
        if x.ok != 1: chk.count_kind("files that couldn't be closed")
        if bad: chk.violation("full device: " + bad, f"{x.ok} {x.err} {x.msg!r} {x.out!r} collection each {gc}\n{c.src.decode()}", c)
    shutil.rmtree(root)

def shared(chk, r):
    """One file through several handles: what a handle that's gone wrote is what the others find where they are."""
    root = os.path.join(vf.tmpdir(), "shared"); os.makedirs(root)
    items = []
    for i in range(chk.scale(120, 1200)):
        rr = random.Random(r.random()); data, q, out, n = b"", [f"b = buffer.new(10000); f, e = files.openFile('s{i}', files.WRITE);"], [], 0
        for j in range(rr.randrange(1, 6)):
            t = "".join(rr.choice("abcé") for _ in range(rr.choice([1, 5, 30])))
            q.append(f"g, e = files.openFile('s{i}', files.APPEND); print(files.write(g, buffer.fromString('{t}')), ' '); g = none; x = [1]; x = [2];")
            data += t.encode(); out.append(f"{len(t.encode())} ")
            if rr.random() < .5:
                # a new reader sees it all
                q.append(f"h, e = files.openFile('s{i}', files.READ); n = files.read(h, b); print(n, ' ', b[0], ' ', b[n - 1], ' '); h = none; x = [3];")
                out.append(f"{len(data)} {data[0]} {data[-1]} ")
        # .. and so does the one it was opened with, which may also read
        k = rr.choice([len(data), 1, len(data) + 5, rr.randrange(1, len(data) + 1)])
        q.append(f"c = buffer.new({k}); print(files.read(f, c), ' '); print(c[0]);"); out.append(f"{min(k, len(data))} {data[0]}")
        items.append((i, data, "".join(out), vf.Case("\n".join(q), gcper=1, heap=1 << 20, abort_at=0, variant=rr.choice(["asan", "plain"]))))
    for (i, data, out, c), x in zip(items, vf.run_cases([t[3] for t in items], cwd=root)):
        chk.observed(c.src); chk.count_kind("files with several handles")
        if chk.crash(c, x, "several handles"): continue
        got = open(f"{root}/s{i}", "rb").read() if os.path.exists(f"{root}/s{i}") else None
        if x.ok != 1 or x.out.decode() != out or got != data: chk.violation("several handles", f"{x.ok} {x.err} {x.msg!r} {x.out!r}, expected {out!r}; {got!r}, expected {data!r}\n{c.src.decode()}", c)
    shutil.rmtree(root)

if __name__ == "__main__":
    vf.main(main)
