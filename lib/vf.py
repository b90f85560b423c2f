"""Common machinery of the checks: seeds and tiers, running batches of cases,
known findings, violations with replay files, evidence."""
import os, sys, json, time, random, subprocess, tempfile, shutil, struct, resource, hashlib, re, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

VERIF = build.VERIF
REPO = build.REPO
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
WORKERS = 8
FINDINGS = os.path.join(VERIF, "known-findings.jsonl")

NOJA, ASM, DIAGRAM, DISASM, FILE, ASMFILE, ASMDIS, DIAGFILE, EQUIV, EMIT, REASM = range(11)
F_PROFILE, F_NOBUILTINS, F_NOCALLBACK, F_OPS, F_TWICE, F_NOFREE, F_ALL, F_STOP = 1, 2, 4, 8, 16, 32, 64, 128
ERR = {-2: "init", -1: None, 0: "unspecified", 1: "syntax", 2: "semantic", 3: "runtime", 4: "internal"}
OPNAMES = ("NOPE POS NEG NOT ADD SUB MUL DIV MOD EQL NQL LSS GRT LEQ GEQ NLB STP ASS POP CALL SELECT SELECT2 INSERT INSERT2 "
           "PUSHINT PUSHFLT PUSHSTR PUSHVAR PUSHTRU PUSHFLS PUSHNNE PUSHFUN PUSHLST PUSHMAP PUSHTYP PUSHNNETYP RETURN EXIT "
           "JUMPIFANDPOP JUMPIFNOTANDPOP JUMP CHECKTYPE").split()

SANENV = dict(ASAN_OPTIONS="exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=2048:detect_stack_use_after_return=0:handle_segv=1:symbolize=0",
              MSAN_OPTIONS="exit_code=99:symbolize=0:allocator_may_return_null=1",
              UBSAN_OPTIONS="print_stacktrace=0:exitcode=99:symbolize=0")

def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("VERIF_", "ASAN_", "UBSAN_", "LSAN_", "MSAN_", "MALLOC_", "GLIBC_TUNABLES"))}
    e.update(SANENV)
    e["LC_ALL"] = "C"
    return e

def big_stack():
    try:
        soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
        want = 512 << 20
        if hard != resource.RLIM_INFINITY:
            want = min(want, hard)
        resource.setrlimit(resource.RLIMIT_STACK, (want, hard))
    except (ValueError, OSError):
        pass

class Case:
    """One execution of the system under test."""
    __slots__ = ("src", "name", "stdin", "mode", "heap", "gcper", "gcphase", "abort_at", "intr_at", "flags", "cpu", "tag", "expect", "variant")
    def __init__(self, src="", mode=NOJA, stdin=b"", name=b"", heap=1 << 20, gcper=0, gcphase=1, abort_at=2000000, intr_at=0,
                 flags=0, cpu=10, tag=None, expect=None, variant="asan"):
        self.src = src.encode("utf-8", "surrogatepass") if isinstance(src, str) else src
        self.name = name.encode() if isinstance(name, str) else name
        self.stdin = stdin.encode("utf-8", "surrogatepass") if isinstance(stdin, str) else stdin
        self.mode, self.heap, self.gcper, self.gcphase = mode, heap, gcper, gcphase
        self.abort_at, self.intr_at, self.flags, self.cpu = abort_at, intr_at, flags, cpu
        self.tag, self.expect, self.variant = tag, expect, variant
    def dump(self):
        d = {k: getattr(self, k) for k in ("mode", "heap", "gcper", "gcphase", "abort_at", "intr_at", "flags", "cpu", "variant")}
        for k in ("src", "name", "stdin"):
            d[k] = getattr(self, k).decode("latin-1")
        return d
    @staticmethod
    def load(d):
        c = Case(**{k: d[k] for k in ("mode", "heap", "gcper", "gcphase", "abort_at", "intr_at", "flags", "cpu", "variant")})
        for k in ("src", "name", "stdin"):
            setattr(c, k, d[k].encode("latin-1"))
        return c

class Result:
    __slots__ = ("how", "code", "ok", "err", "msg", "ninstr", "ngc", "gcerr", "leak", "fds", "out", "stderr", "ops", "depth", "done", "outpos")
    @property
    def crashed(self):
        """A death that isn't a clean end, as text, or None."""
        if self.how == 2:
            return "hang"
        if self.how == 1:
            return "cpu limit" if self.code in (24, 9) else f"killed by signal {self.code}"
        if self.code == 99:
            return "sanitizer: " + san_summary(self.stderr)
        if self.code != 0:
            return f"exit code {self.code}"
        if not self.done:
            return "exited early"
        return None
    @property
    def timeout(self):
        return self.how == 2 or (self.how == 1 and self.code in (24, 9))

def san_summary(err):
    t = err.decode("utf-8", "replace")
    m = re.search(r"SUMMARY: (.*)", t)
    k = re.search(r"runtime error: (.*)", t)
    s = k.group(1) if k else (m.group(1) if m else t[-200:])
    return re.sub(r"0x[0-9a-f]+", "0x..", s)[:200]

_vrun = {}
def vrun(variant):
    if variant not in _vrun:
        if "+p" in variant:
            # the plain build, with the memory given and taken back by malloc filled with a byte
            v, n = variant.split("+p")
            _vrun[variant] = vrun(v) + "|" + n
        elif variant.endswith("+oom"):
            _vrun[variant] = build.harness(variant[:-4], "oom.c", ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=strdup,--wrap=fmemopen"])
        else:
            _vrun[variant] = build.harness(variant, "vrun.c")
    return _vrun[variant]

_tmp = None
def tmpdir():
    global _tmp
    if _tmp is None:
        os.makedirs(build.BUILD, exist_ok=True)
        _tmp = tempfile.mkdtemp(prefix="tmp-", dir=build.BUILD)
        import atexit
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp

current = None
class HarnessError(Exception):
    pass

def _run_batch(args):
    exe, cases, k, cwd = args
    b, r = os.path.join(tmpdir(), f"b{k}"), os.path.join(tmpdir(), f"r{k}")
    with open(b, "wb") as f:
        for i, c in enumerate(cases):
            f.write(f"{i} {c.mode} {c.heap} {c.gcper} {c.gcphase} {c.abort_at} {c.intr_at} {c.flags} {c.cpu} {len(c.name)} {len(c.src)} {len(c.stdin)}\n".encode())
            f.write(c.name); f.write(c.src); f.write(c.stdin)
    e = env()
    if "|" in exe:
        exe, n = exe.rsplit("|", 1)
        e["GLIBC_TUNABLES"] = "glibc.malloc.perturb=" + n
    p = subprocess.run([exe, b, r], env=e, preexec_fn=big_stack, cwd=cwd or tmpdir(), stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise HarnessError(f"vrun exited with {p.returncode}: {p.stdout[-2000:]!r}")
    out = []
    with open(r, "rb") as f:
        d = f.read()
    pos = 0
    while pos < len(d):
        e = d.index(b"\n", pos)
        v = [int(x) for x in d[pos:e].split()]
        pos = e + 1
        x = Result()
        _, x.how, x.code, x.ok, x.err, nmsg, x.ninstr, x.ngc, x.gcerr, x.leak, x.fds, nout, nerr, nops, x.depth, x.done, x.outpos = v
        x.out = d[pos:pos+nout]; pos += nout
        x.stderr = d[pos:pos+nerr]; pos += nerr
        x.msg = d[pos:pos+nmsg]; pos += nmsg
        x.err = ERR.get(x.err, x.err)
        x.ops = struct.unpack(f"{nops}I", d[pos:pos+4*nops]) if nops else None
        pos += 4 * nops
        out.append(x)
    os.unlink(b); os.unlink(r)
    if len(out) != len(cases) and not (out and out[-1].timeout):
        raise HarnessError(f"{len(out)} results for {len(cases)} cases")
    return out

class Hang(Exception):
    """A case that doesn't end, even when given much more time."""
    def __init__(self, case, res): self.case, self.res = case, res

def _run_whole(args):
    """Runs a batch to the end. The harness stops at the first case that runs out of its
    time: that one is given another, much longer, chance, and only if it fails again the
    whole thing is abandoned (what follows would likely hang too)."""
    exe, cases, k, cwd = args
    out = []
    while len(out) < len(cases):
        if _stop: raise _stop[0]
        part = _run_batch((exe, cases[len(out):], f"{k}-{len(out)}", cwd))
        out += part
        if part[-1].timeout:
            i = len(out) - 1
            c = Case.load(cases[i].dump())
            c.cpu = cases[i].cpu * 3
            out[i] = _run_batch((exe, [c], f"{k}-again-{i}", cwd))[0]
            if out[i].timeout:
                _stop.append(Hang(cases[i], out[i]))
                raise _stop[0]
    return out

_stop = []
_seq = [0]
def run_cases(cases, cwd=None, per=None):
    """Runs all the cases, in parallel; the results are in the same order."""
    groups = {}
    for i, c in enumerate(cases):
        groups.setdefault(c.variant, []).append(i)
    for v in groups:
        vrun(v)
    jobs = []
    for v, idx in groups.items():
        n = per or max(1, min(50, (len(idx) + WORKERS - 1) // WORKERS))
        for s in range(0, len(idx), n):
            _seq[0] += 1
            jobs.append((idx[s:s+n], (vrun(v), [cases[i] for i in idx[s:s+n]], _seq[0], cwd)))
    res = [None] * len(cases)
    with ThreadPoolExecutor(WORKERS) as ex:
        for (idx, _), out in zip(jobs, ex.map(_run_whole, [j[1] for j in jobs])):
            for i, o in zip(idx, out):
                res[i] = o
    return res

def load_findings():
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line and line.startswith("{"):
                out.append(json.loads(line))
    return out

class Check:
    def __init__(self, pid, level="exploration", rule="", assumptions=()):
        self.pid, self.level, self.rule = pid, level, rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.rng = random.Random(f"{pid}/{SEED}")
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.cov = {}
        self.violations = []
        self.known = {}
        self.inconclusive = 0
        global current
        current = self
        self.findings = [f for f in load_findings() if f.get("property") == pid and f.get("kind") == "finding"]
        self.thorough = TIER == "thorough"

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def count_kind(self, key, n=1):
        """Counts events by kind, in one table of the evidence."""
        d = self.cov.setdefault("events", {})
        d[key] = d.get(key, 0) + n

    def observed(self, sig=None, n=1):
        self.evals += n
        if sig is not None:
            self.distinct.add(hashlib.sha1(sig if isinstance(sig, bytes) else str(sig).encode("utf-8", "surrogatepass")).digest()[:8])

    def sample(self, s):
        if len(self.samples) < 5:
            self.samples.append(s if isinstance(s, (dict, list)) else str(s)[:1500])

    def violation(self, key, what, replay=None):
        """key identifies the violation (matched with the known findings)."""
        for f in self.findings:
            if re.search(f["match"], key):
                self.known.setdefault(f["id"], f)
                return
        if any(k == key for k, _, _ in self.violations) or len(self.violations) >= 20:
            return
        d = os.path.join(build.BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.pid}-{SEED}-{len(self.violations)}.json")
        body = {"property": self.pid, "key": key, "what": what}
        if isinstance(replay, Case):
            body["case"] = replay.dump()
        elif replay is not None:
            body["replay"] = replay
        with open(path, "w") as f:
            json.dump(body, f, indent=1)
        self.violations.append((key, what, path))
        print(f"# {self.pid}: {key}: {what[:1500]}")
        print(f"VIOLATION property={self.pid} replay={path}", flush=True)

    def enough(self):
        return len(self.violations) >= 5

    def crash(self, case, res, what=""):
        """Reports a death of the process; returns True if there was one."""
        c = res.crashed
        if c is None:
            return False
        if res.timeout:
            self.violation("hang " + what, f"{c} ({what}): the execution doesn't end within {case.cpu*3} s of CPU time, twice\n{case.src[:600]!r}", case)
        else:
            self.violation("crash " + c + " " + what, f"{c} ({what})\n{case.src[:600]!r}\n{res.stderr[-1500:].decode(errors='replace')}", case)
        return True

    def finish(self, minimum=1, min_distinct=1):
        for f in self.findings:
            print(f"KNOWN-FINDING: property={self.pid} {f['what']}")
        wall = time.time() - self.t0
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.distinct), "rule": self.rule, "samples": self.samples}
        for k, v in self.cov.items():
            if isinstance(v, dict) and len(v) > 40:
                top = dict(sorted(v.items(), key=lambda kv: -kv[1])[:40])
                top["(other kinds)"] = len(v) - 40
                v = top
            cov[k] = v
        if self.inconclusive:
            cov["inconclusive"] = self.inconclusive
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.violations:
            sys.exit(1)
        if self.evals < minimum or len(self.distinct) < min_distinct:
            print(f"# {self.pid}: observed too little: {self.evals} evaluations, {len(self.distinct)} distinct")
            sys.exit(3)
        print(f"# {self.pid}: held on {self.evals} executions/observations ({len(self.distinct)} distinct), {wall:.1f} s")
        sys.exit(0)

def main(fn):
    try:
        fn()
    except SystemExit:
        raise
    except Hang as h:
        current.observed("hang")
        current.crash(h.case, h.res, h.case.tag if isinstance(h.case.tag, str) else "")
        current.finish(0, 0)
    except build.BuildError as e:
        print("# the tree doesn't build with the harness:\n" + str(e))
        sys.exit(4)
    except Exception:
        traceback.print_exc()
        sys.exit(5)
