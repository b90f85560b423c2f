from common import *
import c22, collections, random, re, shutil, subprocess
LINE = re.compile(r"^ *(\S+) - (.*) - (\d+) calls - (-?[\d.]+)us$")

def report(text):
    """{(name, source): calls}, or a complaint"""
    d = collections.Counter()
    for l in text.splitlines():
        m = LINE.match(l)
        if not m: return None, f"line {l!r} isn't well formed"
        if int(m[3]) < 1: return None, f"{l!r}: a function that isn't called"
        if not 0 <= float(m[4]) < 1e9: return None, f"{l!r}: time"
        d[m[1], m[2]] += int(m[3])
    return d, None

def predict(prog, **kw):
    it = ref.Interp(**kw)
    try: out, err = it.run(prog)
    except (ref.Uncertain, RecursionError): return None
    return out, err, it.calls

def compare(got, exp, name=lambda s: s):
    """The report's counts against the model's: exact for the functions with a name, and as a whole for those that are part of maps."""
    g, e = collections.defaultdict(collections.Counter), collections.defaultdict(collections.Counter)
    for (n, s), k in got.items():
        if s != "<prelude>": g[name(s)][n] += k
    for (n, f), k in exp.items(): e[f][n] += k
    for f in set(g) | set(e):
        named = {n for n in e[f] if n is not None}
        for n in named | (set(g[f]) if e[f][None] == 0 else set()):
            if g[f][n] != e[f][n]: return f"{n} in {f} is called {e[f][n]} times, not {g[f][n]}"
        if sum(g[f].values()) != sum(e[f].values()): return f"functions of {f} are called {sum(e[f].values())} times, not {sum(g[f].values())}"
    return None

def fns(r):
    """Few function names, redefined, stored, passed around, recursive, in maps, in loops, failing."""
    N = ["f", "g", "h", "mm", "a_long_name_for_a_function_indeed"]
    q = []
    for n in N: q.append(("fundef", n, [("x", None, None)], ("return", [V("x")])))
    def val(): return r.choice([V(r.choice(N)), ("sel", V("o"), ("key", r.choice("pq")))])
    def cl(d=0):
        a = I(r.randrange(5)) if d or r.random() < .6 else cl(1)
        return call(val(), a)
    q.append(X(asg("o", ("map", [(("key", k), ("fun", [("x", None, None)], ("return", [("bin", "+", V("x"), I(1))]))) for k in "pq"]))))
    for i in range(r.randrange(3, 14)):
        x = r.random()
        if x < .25:
            n = r.choice(N)
            ps = r.choice([[("x", None, None)], [("x", None, None), ("y", None, call("f", I(3)))], [("x", V("int"), None)], []])
            # (the names it calls are read when it's called)
            bd = [X(cl()) for _ in range(r.randrange(3))]
            if r.random() < .3: bd = [("fundef", "inner", [], ("return", [I(1)])), X(call("inner")), X(call("inner"))]
            q.append(("fundef", n, ps, B(*bd, ("return", [I(i)]))))
        elif x < .5: q.append(X(cl()))
        elif x < .65: q.append(B(X(asg("i", I(0))), ("while", ("bin", "<", V("i"), I(r.choice([0, 1, 3, 40]))), B(X(asg("i", ("bin", "+", V("i"), I(1)))), X(cl()), *([("fundef", "looped", [], ("return", [V("i")])), P(call("looped"))] if r.random() < .3 else [])))))
        elif x < .75:
            k = r.randrange(1, 16)
            q.append(("fundef", "rec", [("n", None, None)], B(("if", ("bin", "<", V("n"), I(1)), ("return", [I(0)]), None), ("return", [call("rec", ("bin", "-", V("n"), I(1)))]))))
            q.append(X(call("rec", I(k))))
        elif x < .8: q.append(X(asg("o", V("o")))); q.append(X(("asg", [("sel", V("o"), ("key", "p"))], V(r.choice(N)))))
        elif x < .85: q.append(X(("mcall", V("o"), "p", [])))
        elif x < .9: q.append(X(asg(r.choice(N), V(r.choice(N)))))
        elif x < .92:
            k = r.randrange(0, 14); n = r.choice(["wide", "f", "g"])
            q.append(("fundef", n, [(f"a{j}", None, None) for j in range(r.choice([k, 0, 3, 12]))], ("return", [I(k)])))
            q.append(X(call(n, *[I(j) for j in range(k)])))
        elif x < .93: q.append(X(call(val(), S("not an int"))))
        elif x < .94: q.append(X(call("error", S("stop"))))
        else: q.append(P(cl(), NL))
    return q

def main():
    chk = vf.Check("C23", rule="distinct call count tables (or programs without calls) observed and compared")
    r = chk.rng
    items = []
    for i in range(chk.scale(3000, 60000)):
        x = r.random()
        if x < .5: p = fns(random.Random(r.random())); what = "functions"
        else: p = gen.Gen(random.Random(r.random()), wild=r.choice([0, .003, .01]), trace=r.choice([0, .2]), size=r.choice([10, 25, 50])).program(); what = "random program"
        items.append((p, what))
    for s in range(0, len(items), 1500):
        judge(chk, items[s:s+1500])
        if chk.enough(): break
    large(chk)
    imports(chk, r)
    command(chk, r)
    chk.finish(2000, 1000)

def key(x): return (x.out, x.ok, x.err, x.msg, x.gcerr)
def judge(chk, items):
    cases, todo = [], []
    for p, what in items:
        pr = predict(p)
        if pr is None: chk.count("not covered by the model"); continue
        src = gen.source(p)
        o = dict(heap=1 << 18, gcper=chk.rng.choice([0, 0, 5]))
        c = vf.Case(src, flags=vf.F_PROFILE, **o)
        cases += [c, vf.Case(src, **o)]; todo.append((c, what, pr))
    res = vf.run_cases(cases)
    for i, (c, what, (out, err, calls)) in enumerate(todo):
        x, y = res[2*i], res[2*i+1]
        chk.observed(str(sorted((str(k), v) for k, v in calls.items())) if calls else c.src)
        chk.count_kind("calls counted", sum(calls.values())); chk.count_kind("runs with an error", err is not None); chk.count_kind("functions with calls", len(calls))
        if chk.crash(c, x, "profiled"): continue
        if chk.crash(cases[2*i+1], y, "not profiled"): continue
        prof, _, rep = x.stderr.decode(errors="replace").rpartition("PROFILE\n")
        if x.err is None and "PROFILE" in y.stderr.decode(errors="replace"): raise Exception("profile of what isn't profiled")
        if key(x) != key(y): chk.violation("profiling changes what a program does", f"{key(x)} profiled, {key(y)} otherwise\n" + c.src.decode(errors="replace")[:1500], c); continue
        m = model.mismatch(x, out, err)
        if m: chk.violation("profiled run: " + m, model.diff_text(c.src, x, out, err), c); continue
        if x.leak: chk.violation("profiling leaks", f"{x.leak} bytes\n" + c.src.decode(errors="replace")[:1500], c)
        got, bad = report(rep)
        if bad is None: bad = compare(got, calls, lambda s: None)
        if bad: chk.violation("profile: " + what, f"{bad}\n{rep}\n{c.src.decode(errors='replace')[:1500]}", c)
        chk.sample({"program": c.src.decode(errors="replace")[:500], "report": rep[:500]})

def large(chk):
    """Counts of more than 16 bits, of functions that are called from two places."""
    for n in (65535, 65536, 65537, chk.rng.randrange(70000, 90000), 131072):
        src = "fun f(x) return x; fun g(x) return f(x); i = 0; while i < %d: { i = i + 1; f(i); } i = 0; while i < %d: { i = i + 1; g(f(i)); }" % (n - 20, 10)
        c = vf.Case(src, flags=vf.F_PROFILE, abort_at=0, cpu=60, variant="plain")
        x = vf.run_cases([c])[0]
        chk.observed(src); chk.count_kind("programs with many calls")
        if chk.crash(c, x, "many calls"): continue
        got, bad = report(x.stderr.decode(errors="replace").rpartition("PROFILE\n")[2])
        if bad is None:
            k = sorted((f, v) for (f, s), v in got.items() if s != "<prelude>")
            if k != [("f", n), ("g", 10)]: bad = f"{k}, expected f to be called {n} times and g 10 times"
        if bad: chk.violation("profile: many calls", f"{bad}\n{src}", c)

def imports(chk, r):
    root = os.path.join(os.path.realpath(vf.tmpdir()), "graphs"); os.makedirs(root)
    items = []
    for i in range(chk.scale(300, 6000)):
        g = c22.G(random.Random(r.random()), root, i)
        pr = predict(g.files["main.noja"], **g.model())
        if pr is None: continue
        g.write()
        items.append((g, pr, vf.Case("", name=f"{root}/{g.dir}/main.noja", mode=vf.FILE, flags=vf.F_PROFILE)))
    for (g, (out, err, calls), c), x in zip(items, vf.run_cases([t[2] for t in items], cwd=root)):
        chk.observed(str(sorted((str(k), v) for k, v in calls.items()))); chk.count_kind("sets of files")
        chk.count_kind("calls counted", sum(calls.values()))
        if chk.crash(c, x, "profiled imports"): continue
        got, bad = report(x.stderr.decode(errors="replace").rpartition("PROFILE\n")[2])
        if bad is None: bad = compare(got, calls, os.path.normpath)
        if bad: chk.violation("profile: imports", f"{bad}\n{x.stderr.decode(errors='replace')}\n" + "\n".join(f"== {n}\n" + gen.source(p) for n, p in g.files.items())[:2500], c)
    shutil.rmtree(root)

def command(chk, r):
    exe = build.cli("plain")
    root = os.path.join(os.path.realpath(vf.tmpdir()), "cmd"); os.makedirs(root)
    def go(*a): return subprocess.run([exe, *a], cwd=root, env=vf.env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    for i in range(chk.scale(30, 400)):
        p = fns(random.Random(r.random()))
        pr = predict(p)
        if pr is None: continue
        out, err, calls = pr
        src = gen.source(p); f = f"p{i}.noja"
        with open(f"{root}/{f}", "w") as h: h.write(src)
        a, rep = go("-p", f), None
        b = go("-p", "-o", "prof.txt", f)
        c = go(f)
        chk.observed(("command", src)); chk.count_kind("command")
        if (err is None) != (c.returncode == 0) or a.returncode != c.returncode or b.returncode != c.returncode: chk.violation("profile: status of the command", f"{a.returncode} {b.returncode} {c.returncode}\n{src[:1000]}")
        elif b.stdout != c.stdout or not a.stdout.startswith(c.stdout) or (err is not None and a.stdout != c.stdout): chk.violation("profile: output of the command", f"{a.stdout!r} {b.stdout!r} {c.stdout!r}\n{src[:1000]}")
        elif err is None:
            for rep in (a.stdout[len(c.stdout):].decode(), open(f"{root}/prof.txt").read()):
                got, bad = report(rep)
                if bad is None: bad = compare(got, {(n, os.path.join(root, f)): k for (n, _), k in calls.items()}, lambda s: os.path.normpath(os.path.join(root, s)))
                if bad: chk.violation("profile: report of the command", f"{bad}\n{rep}\n{src[:1000]}")
    shutil.rmtree(root)

vf.main(main)
