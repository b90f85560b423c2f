"""Differential monitoring: what the real interpreter is observed to do with a
program, against what the reference evaluator says it should do."""
import random
import vf, ref, gen

def predict(prog, stdin=b"", **kw):
    """(output, error) or None when the model doesn't say."""
    it = ref.Interp(stdin, **kw)
    try:
        out, err = it.run(prog)
    except (ref.Uncertain, RecursionError):
        return None
    return out, err, it.trace

def norm(b):
    return b.replace(b"-nan", b"nan") if b"nan" in b else b

def mismatch(res, out, err):
    """How the observed execution differs from the expected one, or None."""
    if res.crashed: return "death"
    if norm(res.out) != norm(out): return "output"
    if err is None:
        if res.ok != 1: return "failed"
    else:
        if res.ok: return "didn't fail"
        if res.err != err.kind: return f"error kind {res.err}, expected {err.kind}"
        if err.msg is not None and res.msg.decode("utf-8", "surrogatepass") != err.msg: return "error message"
    return None

def diff_text(src, res, out, err):
    got, exp = norm(res.out), norm(out)
    i = 0
    while i < min(len(got), len(exp)) and got[i] == exp[i]: i += 1
    return (f"outputs agree on {i} bytes of {len(exp)}; then got {got[i:i+80]!r}, expected {exp[i:i+80]!r}; "
            f"got ok={res.ok} err={res.err} {res.msg[:120]!r}, expected {(err.kind, err.msg) if err else 'success'}\n{src[:1500].decode(errors='replace')}")

class Batch:
    """Collects (source, expectation) pairs, runs them and checks each."""
    def __init__(self, chk, limit=2000):
        self.chk, self.limit = chk, limit
        self.pend = []
        self.skipped = 0

    def prog(self, prog, what="program", stdin=b"", style=0, parens=0.0, trace=True, sig=None, kw=None, **opts):
        """Adds a program given as an AST. Returns False if the model doesn't cover it."""
        p = predict(prog, stdin, **(kw or {}))
        if p is None:
            self.skipped += 1
            self.chk.count("not covered by the model")
            return False
        out, err, tr = p
        src = gen.source(prog, self.chk.rng, style, parens)
        if trace:
            for k in tr: self.chk.count_kind(k, tr[k])
        self.add(src, out, err, what, stdin=stdin, sig=sig, **opts)
        return True

    def add(self, src, out, err=None, what="program", sig=None, **opts):
        c = vf.Case(src, **opts)
        c.tag = what
        c.expect = (out, err)
        self.pend.append((c, sig))
        if len(self.pend) >= self.limit: self.flush()

    def flush(self):
        pend, self.pend = self.pend, []
        if not pend or self.chk.enough(): return
        for (c, sig), r in zip(pend, vf.run_cases([c for c, _ in pend])):
            self.judge(c, r, sig)

    def judge(self, c, r, sig):
        out, err = c.expect
        self.chk.observed(sig if sig is not None else (r.out[:4000], r.ok, r.err, b'' if r.out else c.src))
        self.chk.count("ended with an error" if err else "ended well")
        self.chk.sample({"what": c.tag, "source": c.src.decode("utf-8", "replace")[:600], "output": r.out[:200].decode("utf-8", "replace"), "ok": r.ok, "error": r.err})
        m = mismatch(r, out, err)
        if m == "death":
            self.chk.crash(c, r, c.tag)
        elif m is not None:
            self.chk.violation(f"{c.tag}: {m}", diff_text(c.src, r, out, err), c)
