from common import *
import subprocess, re
from concurrent.futures import ThreadPoolExecutor
SECTIONS = dict(bpalloc=2400, bucket=1600, promise=800, label=1600, stack=4000, utf8=256, path=1600, source=1600, error=800, hash=80)

def main():
    chk = vf.Check("C27", rule="distinct histories of operations on a real container or utility whose every step agreed with its model")
    exe = build.harness("asan", "containers.c")
    jobs, seen = [], set()
    for s, n in SECTIONS.items():
        n = n * chk.scale(1, 40); parts = 8 if not chk.thorough else 32
        for p in range(parts):
            first = chk.rng.getrandbits(40) // 256 * 256 if s != "utf8" else chk.rng.getrandbits(30) * 256 + p * 256 // parts * (n // 256)
            jobs.append((s, first, n // parts))
    e = vf.env(); e["ASAN_OPTIONS"] = e["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1")
    def launch(j):
        d = os.path.join(vf.tmpdir(), f"c-{j[0]}-{j[1]}"); os.makedirs(d)
        for t in range(2):
            try: p = subprocess.run([exe, j[0], str(j[1]), str(j[2]), d], cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200 * (t + 1)); return p.returncode, p.stdout, p.stderr
            except subprocess.TimeoutExpired: pass
        return None, b"", b""
    with ThreadPoolExecutor(8) as ex:
        for j, (rc, out, err) in zip(jobs, ex.map(launch, jobs)):
            s, first, n = j
            rep = {"run": f"containers {s} {first} {n} DIR", "section": s, "first": first, "count": n}
            out, err = out.decode(errors="replace"), err.decode(errors="replace")
            if rc is None: chk.violation(f"{s}: doesn't end", f"{rep['run']}", rep); continue
            m = re.search(r"^BAD (\d+): (.*)", out, re.M | re.S)
            if m:
                rep.update(first=int(m[1]), count=1)
                chk.violation(f"{s}: " + re.sub(r"\d+", "N", m[2])[:70], f"history {m[1]} of {s}: {m[2][:1500]}", rep); continue
            if rc == 2: raise vf.HarnessError(f"containers: {err[-500:]}")
            if rc: chk.violation(f"{s}: death", f"exit {rc}: {vf.san_summary(err.encode())}\n{err[-2500:]}", rep); continue
            if not out.endswith("done\n"): raise vf.HarnessError(f"containers {s}: {out[-300:]}")
            for a, b in re.findall(r"^count (.*): (\d+)$", out, re.M): chk.count_kind(f"{s}: {a}", int(b))
            for i in range(n): chk.observed((s, first + i))
            if s not in seen: chk.sample({"section": s, "seeds": [first, first + n - 1], "observed": dict(re.findall(r"^count (.*): (\d+)$", out, re.M))})
            seen.add(s)
    ev = chk.cov.get("events", {})
    for need in ("bpalloc: failed allocations", "bucket: patched", "promise: subscribed after", "label: labels set", "stack: copied", "utf8: invalid strings", "path: paths refused", "source: failures", "error: long messages"):
        if not chk.violations and not ev.get(need): raise vf.HarnessError(f"nothing observed of {need}")
    chk.finish(3000, 3000)

vf.main(main)
