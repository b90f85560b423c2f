from common import *
import re, ctypes, math, struct, random
lib = ctypes.CDLL("libm.so.6")
ONE, TWO = "sin cos tan asin acos atan exp log log10 sqrt".split(), ["atan2", "pow"]
for f in ONE + TWO:
    getattr(lib, f).restype = ctypes.c_double
    getattr(lib, f).argtypes = [ctypes.c_double] * (1 if f in ONE else 2)

# Shows every bit of a float with exact operations only: its sign, the exponent and the 53 bits of the mantissa.
HEAD = """
two = 2.0;
fun mk(m, e) { x = m * 1.0; while e > 0: { x = x * 2.0; e = e - 1; } while e < 0: { x = x / 2.0; e = e + 1; } return x; }
fun bits(x) {
	if x != x: return "nan";
	if x < 0.0: { print("-"); x = -x; }
	else if x == 0.0: { print(x, " "); return "zero"; }
	if x == inf: return "inf";
	e = 0;
	while x >= 4294967296.0: { x = x / 4294967296.0; e = e + 32; }
	while x >= 2.0: { x = x / 2.0; e = e + 1; }
	while x < 0.00000000023283064365386962890625: { x = x * 4294967296.0; e = e - 32; }
	while x < 1.0: { x = x * 2.0; e = e - 1; }
	print(e, " ");
	return math.floor(x * 4503599627370496.0);
}
inf = mk(1, 1100);
nan = inf - inf;
negzero = 0.0 * -1.0;
"""
def bits(x):
    if x != x: return "nan"
    s = "-" if math.copysign(1, x) < 0 else ""
    if x == 0: return s + "0.00 zero"
    if math.isinf(x): return s + "inf"
    m, e = math.frexp(abs(x))
    return f"{s}{e-1} {int(math.ldexp(m, 53))}"

def lit(x):
    """An expression of that value."""
    if x != x: return "nan"
    if math.isinf(x): return "inf" if x > 0 else "(-inf)"
    if x == 0: return "0.0" if math.copysign(1, x) > 0 else "negzero"
    m, e = math.frexp(abs(x))
    n = int(math.ldexp(m, 53)); e -= 53
    while n % 2 == 0: n //= 2; e += 1
    s = f"mk({n}, {e})"
    return s if x > 0 else f"(-{s})"

def rnd(r):
    x = r.random()
    if x < .25: return r.uniform(-1.2, 1.2)
    if x < .45: return r.uniform(-20, 20)
    if x < .55: return float(r.randrange(-40, 40)) / r.choice([1, 2, 4, 10, 3])
    if x < .65: return r.uniform(-800, 800)
    if x < .75: return r.choice(SPECIAL)
    if x < .85: return r.choice([-1, 1]) * math.ldexp(r.random() + .5, r.randrange(-60, 80))
    while True:
        y = struct.unpack("d", struct.pack("Q", r.getrandbits(64)))[0]
        # (the smallest can't be made by halving without rounding)
        if y == y and not (0 < abs(y) < 1e-300): return y
def around(x): return [math.nextafter(x, -math.inf), x, math.nextafter(x, math.inf)]
SPECIAL = [0.0, -0.0, math.inf, -math.inf, math.nan, 1.0, -1.0, .5, -.5, 2.0, 10.0, 100.0, 1000.0, math.pi, math.pi/2, -math.pi/2, math.e, 709.78, 709.79, -745.2, -745.1, 2.0**53, 2.0**63, -2.0**63, 2.0**64, 1e22, 1e300, 1e-300, 2.0**-1022, 2.0**31, 2.0**32, -2.0**31 - 1, 4.0, 9.0, 1/3]
EDGES = sum((around(x) for x in (1.0, -1.0, 2.0**52, 2.0**53, -2.0**52, 2.0**63, -2.0**63, 2.0**31, -2.0**31, 2.0**32, .5, -.5, 1.5, 2.5, -1.5, 2.0**62)), []) + [x / 4 for x in range(-20, 21)]

def main():
    chk = vf.Check("C28", rule="distinct calls (function and arguments)")
    r = chk.rng; b = model.Batch(chk)
    o = dict(abort_at=0, cpu=60)
    seen = []
    def emit(calls):
        """calls: list of (expression, expected text)"""
        src = HEAD + "".join(f"print({e}, \"\\n\");\n" for e, _ in calls)
        b.add(src, "".join(t + "\n" for _, t in calls).encode(), None, "math", sig=src, variant=r.choice(["asan", "asan", "plain"]), **o)
        for e, _ in calls:
            chk.observed(e); chk.count_kind(re.search(r"math\.(\w+)", e).group(1))
    def one(f, x): return (f"bits(math.{f}({lit(x)}))", bits(getattr(lib, f)(x)))
    def two(f, x, y): return (f"bits(math.{f}({lit(x)}, {lit(y)}))", bits(getattr(lib, f)(x, y)))
    emit([("bits(math.PI)", bits(math.pi)), ("bits(math.E)", bits(math.e))])
    todo = []
    for f in ONE: todo += [one(f, x) for x in SPECIAL + EDGES] + [one(f, rnd(r)) for _ in range(chk.scale(700, 8000))]
    for f in TWO:
        k = [0.0, -0.0, 1.0, -1.0, 2.0, -2.0, .5, -.5, 3.0, -3.0, math.inf, -math.inf, math.nan, 1e300, 2.0**53 + 2, 7.25]
        todo += [two(f, x, y) for x in k for y in k] + [two(f, rnd(r), rnd(r)) for _ in range(chk.scale(700, 10000))]
        todo += [two(f, float(r.randrange(-12, 13)), float(r.randrange(-12, 13))) for _ in range(chk.scale(150, 2000))]
    fails = []
    for f, g in (("floor", math.floor), ("ceil", math.ceil)):
        for x in SPECIAL + EDGES + [rnd(r) for _ in range(chk.scale(1000, 8000))]:
            ok = math.isfinite(x) and -2**63 <= g(x) < 2**63
            if ok: todo.append((f"math.{f}({lit(x)})", str(g(x))))
            else: fails.append(f"math.{f}({lit(x)})")
    r.shuffle(todo)
    for i in range(0, len(todo), 40): emit(todo[i:i+40])
    # what isn't a float
    bad = ["none", "true", "1", "0", "'1.0'", "[1.0]", "{a: 1.0}", "math", "print", "float", "mk", "-3"]
    for f in ONE + ["floor", "ceil"]:
        fails += [f"math.{f}({x})" for x in bad] + [f"math.{f}()"]
    for f in TWO:
        fails += [f"math.{f}({x}, 1.0)" for x in bad] + [f"math.{f}(1.0, {x})" for x in bad] + [f"math.{f}()", f"math.{f}(1.0)"]
    if not chk.thorough and len(fails) > 700: fails = r.sample(fails, 700)
    for e in fails:
        chk.observed(e); chk.count_kind("refused")
        b.add(HEAD + f"print('before'); print({e}); print('after');", b"before", ref.Err("runtime"), "math, not allowed: " + re.search(r"math\.(\w+)", e).group(1), sig=e, **o)
    # extra arguments are dropped
    emit([(f"bits(math.{f}(0.25, 'x', none))", bits(getattr(lib, f)(.25))) for f in ONE] + [("math.floor(2.5, 1)", "2"), ("math.ceil(2.5, 1)", "3"), ("bits(math.pow(2.0, 3.0, 4.0))", bits(8.0))])
    # they're values like the others
    emit([("bits(f(0.5))".replace("f", "[math.sin][0]"), bits(lib.sin(.5)))])
    b.flush()
    chk.finish(1000, 900)

vf.main(main)
