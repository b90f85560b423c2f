from common import *
import random, re, shutil, subprocess

def main():
    chk = vf.Check("C22", rule="distinct sets of files run and compared with the model; distinct programs whose file and text were run and compared")
    r = chk.rng
    graphs(chk, r)
    equivalence(chk, r)
    command(chk, r)
    deep(chk, r)
    nulls(chk, r)
    exact(chk, r)
    chk.finish(1000, 900)

NAMES = ["main.noja", "lib.noja", "sub/one.noja", "sub/two.noja", "sub/deep/three.noja", "with space.noja", "sub/é日.noja", "other/lib.noja", "noext"]

class G:
    """Files importing one another."""
    def __init__(self, r, root, i):
        self.r, self.root, self.dir = r, root, f"g{i}"
        self.files = {}
        k = r.choice([2, 3, 4, 6])
        self.names = ["main.noja"] + r.sample(NAMES[1:], k - 1)
        self.errors = {}
        cyc = r.random() < .1
        for j in reversed(range(k)):
            self.cyc = cyc and r.random() < .5
            self.cur = self.names[j]
            self.targets = self.names[j+1:] if not self.cyc else self.names
            self.files[self.cur] = self.body(j == 0)
        if r.random() < .25:
            # one of the files doesn't compile, or isn't there
            n = r.choice(self.names[1:])
            x = r.random()
            if x < .4: self.errors[n] = ("syntax", r.choice(["a = ;", "print('x'); x = (1", "}", "fun", "print('open", "a b c", "1 +"]))
            elif x < .7: self.errors[n] = ("semantic", r.choice(["print('x'); break;", "1 = 2;", "fun f() { break; }", "a, b = 5;"]))
            else: self.errors[n] = ("missing", None)
    def rel(self, t):
        r = self.r; here = os.path.dirname(self.cur)
        p = os.path.relpath(t, here or ".")
        x = r.random()
        if x < .1: return os.path.join(self.root, self.dir, t)
        if x < .2: return "./" + p
        return p
    def imp(self):
        if not self.targets: return call("import", S("nothing.noja")) if self.r.random() < .02 else None
        return call("import", S(self.rel(self.r.choice(self.targets))))
    def body(self, main):
        r = self.r; P_ = lambda *a: P(*a)
        tag = self.cur
        q = [P(S(f"<{tag}>"))]
        vs, fs, maps = [], [], []
        for i in range(r.choice([1, 3, 6, 9])):
            x = r.random()
            if x < .2:
                v = r.choice(["a", "b", "counter", "list"])
                q.append(X(asg(v, r.choice([I(r.randrange(50)), S(f"{tag} {i}"), ("list", [I(1), S(tag)]), ("map", [(("key", "k"), I(i))]), TRUE])))); vs.append(v)
            elif x < .35:
                f = r.choice(["f", "g", "h"])
                q.append(X(asg("state" + f, ("list", [I(0)]))))
                st = ("sel", V("state" + f), I(0))
                bd = [X(("asg", [st], ("bin", "+", st, I(1)))), P(S(f"{tag}.{f}("), V("x"), S(")"))]
                if r.random() < .3:
                    e = self.imp()
                    if e: bd.append(X(asg("m", e)))
                if vs and r.random() < .5: bd.append(P(V(r.choice(vs))))
                bd.append(("return", [st, V("x")][:r.choice([1, 2])]))
                q.append(("fundef", f, [("x", None, None)], B(*bd))); fs.append(f)
            elif x < .7:
                e = self.imp()
                if e is None: continue
                y = r.random(); m = r.choice(["m", "n", "o"])
                if y < .6: q.append(X(asg(m, e))); maps.append(m)
                elif y < .8: q.append(X(("asg", [V(m), V("p"), V("q")], e))); maps.append(m); q.append(P(S("|"), V("p"), V("q")))
                elif y < .9: q.append(X(e))
                else: q.append(("if", r.choice([TRUE, FALSE]), X(asg("zz", e)), None))
                if r.random() < .4: q.append(P(S("keys"), call("keysof", V(m)) if maps and y < .8 else S("")))
            elif maps and x < .9:
                m = r.choice(maps); k = r.choice(["f", "g", "h", "a", "b", "counter", "list"])
                isM = ("bin", "==", call("type", V(m)), V("Map"))
                y = r.random()
                if y < .6: q.append(("if", isM, ("if", call("isCallable", ("sel", V(m), ("key", k))), P(call(("sel", V(m), ("key", k)), I(i))), P(("sel", V(m), ("key", k)))), None))
                elif y < .8: q.append(("if", isM, X(("asg", [("sel", V(m), ("key", k))], S(f"set by {tag}"))), None))
                else: q.append(("if", isM, P(S("all:"), V(m)), None))
            elif fs: q.append(P(call(r.choice(fs), I(i))))
            elif r.random() < .08: q.append(X(call("error", S(f"failure in {tag}"))))
        if not main and r.random() < .5:
            x = r.random()
            rets = [r.choice([I(5), S(tag), ("list", [I(1)])] + [V(v) for v in vs] + [V(f) for f in fs]) for _ in range(r.choice([1, 1, 2, 3, 8]))]
            if r.random() < .05: rets = [I(1)] * 9
            q.append(("return", rets))
        elif r.random() < .05: q.append(X(call("error", S(f"end of {tag}"))))
        elif r.random() < .05: q.append(P(V("undefined_variable")))
        return q
    def write(self):
        for n, p in self.files.items():
            if n in self.errors and self.errors[n][0] == "missing": continue
            f = os.path.join(self.root, self.dir, n)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            t = self.errors[n][1] if n in self.errors else gen.source(p)
            with open(f, "wb") as h: h.write(t.encode())
    def model(self):
        d = {}
        for n, p in self.files.items():
            e = self.errors.get(n)
            if e and e[0] == "missing": continue
            d[os.path.join(self.root, self.dir, n)] = ref.Err(e[0]) if e else p
        return dict(files=d, main=os.path.join(self.root, self.dir, "main.noja"))

def graphs(chk, r):
    left = chk.scale(1800, 30000)
    while left > 0 and not chk.enough():
        k = min(left, 1800); left -= k
        root = os.path.join(os.path.realpath(vf.tmpdir()), "graphs"); os.makedirs(root)
        items = []
        for i in range(k):
            g = G(random.Random(r.random()), root, i)
            pr = model.predict(g.files["main.noja"], **g.model())
            if pr is None: chk.count("not covered by the model"); continue
            g.write()
            gc = r.choice([0, 0, 0, 1, 3, 11])
            c = vf.Case("", name=f"{g.dir}/main.noja" if r.random() < .7 else f"{root}/{g.dir}/main.noja", mode=vf.FILE, gcper=gc, heap=1 << 20, variant=r.choice(["asan", "asan", "plain"]))
            items.append((g, pr, c))
        for (g, pr, c), x in zip(items, vf.run_cases([t[2] for t in items], cwd=root)):
            out, err, tr = pr
            text = lambda: "\n".join(f"== {n}\n" + (g.errors[n][1] or "(missing)" if n in g.errors else gen.source(p)) for n, p in g.files.items())[:2500]
            chk.observed(x.out + b"%d" % x.ok); chk.count_kind("imports", tr.get("import", 0)); chk.count_kind("runs with %s" % ("an error" if err else "no error"))
            if err: chk.count_kind(f"{err.kind} errors")
            if chk.crash(c, x, "imports"): continue
            m = model.mismatch(x, out, err)
            if m:
                c.src = text().encode()
                chk.violation("imports: " + m, model.diff_text(c.src, x, out, err), c)
            elif err is not None and x.stderr.count(b"#") < 1: chk.violation("imports: no stack trace", f"{x.stderr!r}\n" + text(), c)
            elif c.variant == "asan" and (x.leak or x.fds): chk.violation("imports: leak", f"{x.leak} {x.fds}\n" + text(), c)
            else:
                # where it failed is named
                e = x.stderr.decode(errors="replace")
                if err is not None and err.kind == "unspecified" and "doesn't exist" in e and not any(os.path.basename(n) in e for n in list(g.errors) + ["nothing.noja"]): chk.violation("imports: the error doesn't name the file", e + text(), c)
                if err is not None and err.kind in ("syntax", "semantic") and g.errors and not any(os.path.basename(n) in e for n in g.errors): chk.violation("imports: the stack trace doesn't name the file", e + text(), c)
            chk.sample({"files": list(g.files), "main": gen.source(g.files["main.noja"])[:400], "output": x.out[:300].decode(errors="replace"), "error": x.err})
        shutil.rmtree(root)

def equivalence(chk, r):
    """Running a file, running its text and importing it."""
    root = os.path.join(os.path.realpath(vf.tmpdir()), "equiv"); os.makedirs(root + "/in")
    n = chk.scale(250, 6000)
    cases, items = [], []
    for i in range(n):
        x = r.random()
        if x < .7:
            p = gen.Gen(random.Random(r.random()), wild=r.choice([0, .03]), trace=0, size=r.choice([5, 15, 30])).program(); s = gen.source(p, r)
        else: s = r.choice(EDGE)
        with open(f"{root}/in/p{i}.noja", "wb") as f: f.write(s.encode())
        with open(f"{root}/i{i}.noja", "w") as f: f.write(f"import('in/p{i}.noja');")
        o = dict(heap=1 << 22, gcper=r.choice([0, 0, 7]), stdin=b"a line\n")
        cs = [vf.Case(s, **o), vf.Case("", name=f"in/p{i}.noja", mode=vf.FILE, **o), vf.Case("", name=f"i{i}.noja", mode=vf.FILE, **o), vf.Case(f"import('in/p{i}.noja');", **o)]
        items.append((s, len(cases))); cases += cs
    res = vf.run_cases(cases, cwd=root)
    for s, k in items:
        a, b, c, d = res[k:k+4]
        chk.observed(("equiv", s)); chk.count_kind("file, text and import compared")
        if any(chk.crash(cases[k+i], res[k+i], "text, file, import") for i in range(4)): continue
        # (the messages about files that can't be imported have their absolute path)
        key = lambda x: (x.out, x.ok, x.err, b"" if "import" in s else x.msg)
        if key(a) != key(b): chk.violation("a file and its text don't behave the same", f"{key(a)[1:]} {a.out[-100:]!r} vs {key(b)[1:]} {b.out[-100:]!r}\n{s[:1500]}", cases[k+1])
        if a.ok == 0 and a.err == "internal" and b"limit" in a.msg: continue
        for x, w in ((c, "imported by a file"), (d, "imported by a text")):
            # two frames less are left to what's imported
            if x.err == "internal" and b"limit" in x.msg: continue
            if key(a) != key(x): chk.violation("a program doesn't behave the same when " + w, f"{key(a)[1:]} {a.out[-100:]!r} vs {key(x)[1:]} {x.out[-100:]!r}\n{s[:1500]}", cases[k+2])
    shutil.rmtree(root)

EDGE = ["", " ", "\n", "# only a comment", "print('no newline at the end')", "print('é日𝄞');\n", "print(1)", "print('a');\r\nprint('b');\r\n", "\ufeffprint(1);", "x = input(); print(x);", "print('a'); error('é');", "break;", "(", "return 1, 2;", "error('x');", "a", "print('" + "x" * 5000 + "');", "print(1);\n" * 1500, "return;", "f = import; f('nothing');", "import('');", "import('.');", "import(5);", "import();", "import('p\\n');", "#" + "c" * 9000 + "\nprint(2);"]
# (of the sizes that buffers tend to have, and about)
EDGE += ["print(1);" + " " * (n + d - 18) + "print(2);" for n in (512, 1024, 4096, 8192, 65536, 1 << 20) for d in (-1, 0, 1)] + ["#" + "c" * 70000 + "\nprint(2);", "x = 1;\n" * 12000 + "print(x);"]

def command(chk, r):
    """The same through the command, from several directories."""
    root = os.path.join(os.path.realpath(vf.tmpdir()), "cmd")
    os.makedirs(root + "/a/b"); os.makedirs(root + "/c")
    def put(n, t):
        with open(f"{root}/{n}", "w") as f: f.write(t)
    loc = "print(getCurrentScriptDirectory(), '|', getCurrentScriptLocation(), '|', getCurrentWorkingDirectory(), '\\n');"
    put("a/main.noja", loc + "x = import('b/lib.noja'); x.where(); y = import('../c/other.noja'); y.f();" + loc)
    put("a/b/lib.noja", loc + "fun where() { " + loc + " z = import('../../c/other.noja'); }")
    put("c/other.noja", loc + "fun f() " + loc)
    exe = build.cli("asan")
    def line(f, cwd): return f"{os.path.dirname(f)}/|{f}|{cwd}\n"
    for cwd, arg in (("", "a/main.noja"), ("a", "main.noja"), ("a/b", "../main.noja"), ("c", "./../a/main.noja"), ("", f"{root}/a/main.noja"), ("c", f"{root}/a/main.noja"), ("a", "./main.noja")):
        wd = os.path.join(root, cwd) if cwd else root
        p = subprocess.run([exe, arg], cwd=wd, env=vf.env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        chk.observed(("cmd", cwd, arg)); chk.count_kind("command, from several directories")
        M, L, O = f"{root}/a/main.noja", f"{root}/a/b/lib.noja", f"{root}/c/other.noja"
        want = [(M, wd), (L, wd), (L, wd), (O, wd), (O, wd), (O, wd), (M, wd)]
        got = [[os.path.normpath(x) for x in l.split("|")] for l in p.stdout.decode().splitlines()]
        exp = [[os.path.dirname(f), f, d] for f, d in want]
        if p.returncode or got != exp: chk.violation("command: scripts aren't where they should", f"cwd {cwd!r}, {arg}: {p.returncode} {got}, expected {exp}\n{p.stderr[-500:]!r}")
    shutil.rmtree(root)

def longdir(r, n):
    """A relative path of n bytes (or one more), made of directories."""
    p = ""
    while len(p) < n:
        k = min(n - len(p), r.choice([1, 7, 30, 100, 200]))
        p += ("/" if p else "") + r.choice("abcé")[:1 if k < 2 else None] + "x" * max(k - 2, 0)
    return p

def deep(chk, r):
    """Long paths: of the working directory, of the script and of what it imports."""
    exe = build.cli("plain")
    for i in range(chk.scale(70, 600)):
        root = os.path.join(os.path.realpath(vf.tmpdir()), "deep"); os.makedirs(root)
        total = r.choice([100, 128, 200, 255, 256, 257, 400, 511, 512, 513, 700, 900, 960]) - len(root.encode())
        a = r.randrange(0, max(total, 1)) if r.random() < .7 else r.choice([0, max(total - 20, 0)])
        b = r.randrange(0, max(total - a, 1))
        room = max(total - a - b - 60, 0)
        cwd = os.path.join(root, longdir(r, a)) if a > 3 else root
        sd = longdir(r, b // 2) if b > 6 else "."
        ld = longdir(r, b // 2) if b > 6 else "."
        os.makedirs(os.path.join(cwd, sd, ld), exist_ok=True)
        loc = "print(getCurrentScriptLocation(), '|', getCurrentScriptDirectory(), '|', getCurrentWorkingDirectory(), '\n');"
        main_, lib = os.path.join(cwd, sd, "main.noja"), os.path.join(cwd, sd, ld, "lib.noja")
        with open(main_, "w") as f: f.write(loc + f"x = import('{ld}/lib.noja'); x.f();")
        with open(lib, "w") as f: f.write(loc + "fun f() " + loc)
        arg = main_ if r.random() < .3 else os.path.join(sd, "main.noja")
        longest = max(len(x.encode()) for x in (main_, lib, cwd)) + 3
        p = subprocess.run([exe, arg], cwd=cwd, env=vf.env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        chk.observed(("deep", longest, a, b)); chk.count_kind("long paths")
        chk.cov["longest path"] = max(chk.cov.get("longest path", 0), longest)
        got = [[os.path.normpath(x) for x in l.split("|")] for l in p.stdout.decode().splitlines()]
        exp = [[os.path.normpath(x), os.path.normpath(os.path.dirname(x)), os.path.normpath(cwd)] for x in (main_, lib, lib)]
        if p.returncode < 0 or longest < 1000 and (p.returncode or got != exp): chk.violation("long paths", f"directory of {len(cwd.encode())}, argument of {len(arg.encode())}, library of {len(lib.encode())} bytes: {p.returncode} {got}, expected {exp}\n{p.stderr[-500:]!r}")
        shutil.rmtree(root)

def exact(chk, r):
    """Paths of each length around the powers of two, relative and absolute, of scripts and of imports."""
    root = os.path.join(os.path.realpath(vf.tmpdir()), "exact"); os.makedirs(root)
    with open(f"{root}/lib.noja", "w") as f: f.write("print('[', getCurrentScriptDirectory(), ']'); x = 5;")
    cases = []
    def pad(n): return "/" * (n % 2) + "./" * (n // 2)
    for m in (128, 256, 512, 1024, 2048, 4096):
        for d in range(-6, 7):
            n = m + d
            for how in ("import", "absolute import", "file", "absolute file"):
                base = 1 + len(root.encode()) if "absolute" in how or how == "import" else 0
                if n < base + len("lib.noja") + 3: continue
                p = ("./" if n % 2 else ".//") if how == "file" else ""
                k = n - base - len(p) - len("lib.noja")
                name = p + ("./" * (k // 2) + ("/" if k % 2 and k > 1 else "")) + "lib.noja"
                if "absolute" in how: name = root + "/" + name
                if "import" in how: c = vf.Case(f"print('a'); print((import('{name}')).x);", name="")
                else: c = vf.Case("", name=name, mode=vf.FILE)
                cases.append((n, how, c))
    for (n, how, c), x in zip(cases, vf.run_cases([t[2] for t in cases], cwd=root)):
        chk.observed((n, how)); chk.count_kind("lengths of paths")
        if chk.crash(c, x, f"a path of {n} bytes"): continue
        ran = x.out.startswith(b"a[" if "import" in how else b"[") and x.out.endswith(b"]5" if "import" in how else b"]")
        chk.count_kind("long paths " + ("followed" if x.ok else "refused"))
        if x.ok != ran or not x.ok and (not x.msg or n < 1000): chk.violation("paths of a given length", f"{how}, {n} bytes: {x.ok} {x.out[:100]!r} {x.msg!r}", c)
        d = x.out.partition(b"[")[2].partition(b"]")[0].decode()
        if ran and os.path.normpath(d) != root: chk.violation("paths of a given length", f"{how}, {n} bytes: the script's folder is {d[:300]!r}", c)
    shutil.rmtree(root)

def nulls(chk, r):
    """A path with a null byte isn't that of any file."""
    root = os.path.join(os.path.realpath(vf.tmpdir()), "nulls"); os.makedirs(root + "/sub")
    for n in ("lib.noja", "sub/lib.noja"):
        with open(f"{root}/{n}", "w") as f: f.write("print('imported');")
    cases = []
    for n in ("lib.noja", "./lib.noja", "sub/lib.noja", root + "/lib.noja"):
        for rest in ("", "x", ".noja", "/../lib.noja", "0"):
            cases.append(vf.Case(f"print('a'); p = buffer.fromString('{n}!{rest}'); p[{len(n)}] = 0; import(buffer.toString(p)); print('b');"))
    for c, x in zip(cases, vf.run_cases(cases, cwd=root)):
        chk.observed(c.src); chk.count_kind("paths with a null byte")
        if chk.crash(c, x, "null byte"): continue
        if x.ok or x.out != b"a" or not x.msg: chk.violation("a path with a null byte is accepted", f"{x.ok} {x.out!r} {x.msg!r}\n{c.src.decode()}", c)
    shutil.rmtree(root)

if __name__ == "__main__":
    vf.main(main)
