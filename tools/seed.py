#!/usr/bin/env python3
"""Validates seeded changes: tools/seed.py [--check] ID...   (all of them without IDs)
In a scratch copy of /repo: applies the patch, builds, runs the repository's tests and the demo
(which must fail), and with --check the property's check (which must report a violation).
The demo must also pass on the unchanged copy."""
import sys, os, subprocess, shutil, json, glob, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, cwd, timeout=900, env=None):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, stdin=subprocess.DEVNULL)
def build(d):
    os.makedirs(d + "/_build", exist_ok=True)
    for p in glob.glob(d + "/_build/*.a") + [d + "/_build/noja", d + "/_build/test"]:
        if os.path.exists(p): os.unlink(p)
    shutil.rmtree(d + "/_build/cache", ignore_errors=True)
    r = sh(["make", "-j8", "CC=gcc -w", "OUTDIR=_build", "OBJDIR=_build/cache", "all"], d)
    return r.returncode == 0, r.stdout[-1500:].decode(errors="replace")
def tests(d):
    bad = []
    import concurrent.futures as cf
    cases = sorted(glob.glob(d + "/tests/**/*.noja-test", recursive=True))
    base = json.load(open("/opt/vp/BASELINE.json"))
    def one(i):
        t = f"{d}/_build/tr/{i}"; os.makedirs(t); shutil.copy(cases[i], t + "/case.noja-test")
        try: r = sh([d + "/_build/test", t], d, 20)
        except subprocess.TimeoutExpired: return False
        return r.returncode == 0 and b"SUMMARY: 1 passed, 0 failed, 0 aborted" in r.stdout
    shutil.rmtree(d + "/_build/tr", ignore_errors=True)
    with cf.ThreadPoolExecutor(8) as ex: res = list(ex.map(one, range(len(cases))))
    return [c for c, ok in zip(cases, res) if not ok]
def main():
    args = sys.argv[1:]
    check = "--check" in args
    args = [a for a in args if a != "--check"]
    ids = args or sorted(os.listdir(ROOT + "/seeded"))
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        base = d + "/repo"
        subprocess.run(["cp", "-a", "/repo", base], check=True)
        shutil.rmtree(base + "/.git")
        ok, out = build(base); assert ok, out
        for i in ids:
            s = f"{ROOT}/seeded/{i}"
            meta = json.load(open(s + "/meta.json"))
            w = d + "/w"; subprocess.run(["cp", "-a", base, w], check=True)
            msgs = []
            demo = d + "/demo"; shutil.copytree(s, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
            r = sh(["bash", demo + "/demo.sh"], base, 300)
            if r.returncode != 0: msgs.append("demo fails on the unchanged tree: " + r.stdout[-300:].decode(errors="replace"))
            r = sh(["git", "apply", s + "/patch.diff"], w)
            if r.returncode != 0: msgs.append("doesn't apply: " + r.stdout.decode())
            else:
                ok, out = build(w)
                if not ok: msgs.append("doesn't build: " + out)
                else:
                    bad = tests(w)
                    if bad: msgs.append(f"tests fail: {bad[:5]}")
                    r = sh(["bash", demo + "/demo.sh"], w, 300)
                    if r.returncode == 0: msgs.append("demo passes with the patch")
                if check:
                    p = meta["property"]
                    r = sh(["python3", f"checks/{p.lower()}.py"], ROOT, 900, {"VERIF_REPO": w, "VERIF_SEED": os.environ.get("VERIF_SEED", "1")})
                    t = r.stdout.decode(errors="replace")
                    if r.returncode == 1 and f"VIOLATION property={p}" in t:
                        msgs.append("CAUGHT: " + [l for l in t.splitlines() if l.startswith("# ")][0][:150])
                    else: msgs.append(f"MISSED (exit {r.returncode}) " + t[-300:])
            print(i, meta["property"], "; ".join(msgs) or "valid", flush=True)
            shutil.rmtree(w); shutil.rmtree(demo)
    finally:
        shutil.rmtree(d, ignore_errors=True)
main()
