"""Hand-written programs that between them use every feature, for the checks that sweep
something (heap sizes, points of interruption, failed allocations) over each program.
They are run in a directory prepared by setup(); none prints anything that depends on
the time, the place or the environment."""
import os

FILES = {
 "data.txt": b"first line\nsecond\n\nlast",
 "lib.noja": b"counter = [0];\nfun next() { counter[0] = counter[0] + 1; return counter[0]; }\nfun twice(x) return [x, x];\nprint('lib loaded\\n');\n",
 "ret.noja": b"x = import('lib.noja');\nreturn x, [1, x.next()], 'third';\n",
 "bad.noja": b"a = 1;\nb = (a + ;\n",
 "fails.noja": b"l = [1, [2]]; f, e = files.openFile('data.txt', files.READ); error(string.cat('from the ', 'library'));\n",
 "self.noja": b"import('self.noja');\n",
}

def setup(d):
    os.makedirs(os.path.join(d, "sub"), exist_ok=True)
    for n, b in FILES.items():
        with open(os.path.join(d, n), "wb") as f: f.write(b)
    with open(os.path.join(d, "sub", "deep.noja"), "wb") as f: f.write(b"q = import('../lib.noja'); return q.twice(q.next());\n")
    return d

# name -> source; those that end with an error say so in their name
P = {
"values": """
l = [1, 2.5, 'text', true, false, none, [1, [2, [3]]], {a: 1, 'b c': [2], 3: {}}, int, ?int, int | String];
i = 0;
while i < count(l): { print(i, ': ', l[i], ' ', typename(l[i]), '\\n'); i = i + 1; }
""",
"arith": """
a = 1; b = 2.5; i = 0;
while i < 12: { a = a * 3 + i % 4 - i / 3; b = b / 2 + a; i = i + 1; print(a, ' ', a > b, ' ', -a, ' ', b, '\\n'); }
print(a == b, not (a < b), a != 1 and true or false, '\\n');
""",
"closures": """
fun mk(n) { s = [n, 'state']; fun inc(by = 1) { s[0] = s[0] + by; return s[0]; } fun get() return s[0], s[1]; return inc, get; }
i1, g1 = mk(10); i2, g2 = mk(20); i = 0;
while i < 8: { i1(); i2(i); print(g1(), g2(), ' '); i = i + 1; }
a, b, c = g1(); print(a, b, c, '\\n');
""",
"recursion": """
fun fib(n) { if n < 2: return n; return fib(n - 1) + fib(n - 2); }
fun depth(n, l) { if n == 0: return count(l); l[count(l)] = [n, {k: n}]; return depth(n - 1, l); }
print(fib(7), ' ', depth(9, []), '\\n');
""",
"strings": """
s = ''; i = 0;
while i < 20: { s = string.cat(s, string.chr(97 + i), 'é', '日'); i = i + 1; }
print(s, count(s), s[3], string.ord(s[1]), string.trim('   x '), string.slice('hello', 1, 3), '\\n');
n, e = string.toInt('123'); m, f = string.toInt('zz'); print(n, e, m, '\\n');
""",
"maps": """
m = {}; i = 0;
while i < 40: { m[i * 7] = [i]; m[string.cat('k', toString(i))] = {v: i}; i = i + 1; }
k = keysof(m); s = 0; i = 0;
while i < count(k): { if type(k[i]) == int: s = s + (m[k[i]])[0]; else s = s + (m[k[i]]).v; i = i + 1; }
print(count(m), ' ', s, ' ', m.k7, '\\n');
""",
"lists": """
l = []; i = 0;
while i < 60: { append(l, [i, toString(i)]); if i % 3 == 0: l[i] = 'x'; i = i + 1; }
l[2] = l; print(count(l), l[59], l[60], l[-1], '\\n'); print(l, '\\n');
""",
"buffers": """
b = buffer.new(40); i = 0;
while i < 40: { b[i] = 65 + i % 26; i = i + 1; }
c = buffer.sliceUp(b, 5, 20); d = buffer.sliceUp(c, 2, 3); d[0] = 33; b = none; x = buffer.new(100); x = none;
s, e = buffer.toString(c); print(s, count(d), d, '\\n'); f = buffer.fromString('héé'); print(f, '\\n');
""",
"types": """
fun f(a: int, b: ?String = none, c: [int, int|String] = [1, 'x'], d: {k: any} = {k: 1}) { return typename(a), b, c, d; }
print(f(1), '\\n'); a, b, c, d = f(2, 's', [5, 6], {k: [1]}); print(a, b, c, d, '\\n');
print(istypeof(?int | List, none), istypeof({a: [int]}, {a: [1]}), istypeof(Callable, f), istypeof(Numeric, 'x'), '\\n');
""",
"methods": """
p = {x: 1, y: 2, fun add(self, q) { return {x: self.x + q.x, y: self.y + q.y, add: self.add, toString: self.toString}; } fun toString(self) return string.cat('<', toString(self.x), '>'); };
q = p->add({x: 10, y: 20}); print(q.x, q.y, ' ', toString(q), ' ', toString([q, 1, {a: q}]), '\\n');
it = makeIterator({a: 1, b: [2]}); do { v, k, i = it->next(); print(v, k, i, ' '); } while v != none and i < 1;
""",
"prelude": """
print(toString([1, 'two', {three: 3}, none]), abs(-5), abs(2.5), min(1, 2), max('a' == 'a' and 3, 2) == none, '\\n') ;
""".replace("max('a' == 'a' and 3, 2) == none", "max(3, 2)"),
"control": """
i = 0; while true: { i = i + 1; if i == 3: print('three'); else if i > 6: break; else { j = 0; do { j = j + 1; if j == 2: break; print(j); } while j < 5; } }
print(i, j, '\\n'); a = b = [1]; a[1] = b; print(count(b), '\\n');
""",
"files": """
f, e = files.openFile('out.txt', files.WRITE); b = buffer.fromString('written by the program'); print(files.write(f, b), files.write(f, b, 7));
g, e = files.openFile('data.txt', files.READ); c = buffer.new(8); n = 1; t = 0;
while n > 0: { n = files.read(g, c); t = t + n; print(n, ' '); }
print(t, '\\n'); h, e = files.openFile('missing', files.READ); print(h, type(e) == String, '\\n');
d = files.openDir('sub'); x = files.nextDirItem(d); k = 0; while x != none: { x = files.nextDirItem(d); k = k + 1; } print(k, files.openDir('nowhere'), '\\n');
""",
"many files": """
l = []; i = 0; while i < 12: { f, e = files.openFile('data.txt', files.READ); d = files.openDir('.'); l[i % 4] = [f, d]; b = buffer.new(30); i = i + 1; }
f = l[1]; print(files.read(f[0], b), count(l), '\\n');
""",
"import": """
a = import('lib.noja'); b = import('lib.noja'); print(a.next(), a.next(), b.next(), a.twice('x'), '\\n');
x, y, z = import('ret.noja'); print(count(keysof(x)), y, z, import('sub/deep.noja'), '\\n');
""",
"math": """
i = 0; s = 0.0; while i < 10: { s = s + math.sqrt(1.0 * i) * math.sin(0.5 * i) + math.pow(1.1, 2.0); i = i + 1; } print(s, math.floor(s), math.ceil(-s), math.PI, '\\n');
random.seed(3); r = random.generate(1, 6); print(r >= 1 and r <= 6, '\\n');
""",
"input": """
l = input(); n = 0; while l != none and n < 50: { print('[', l, ']', count(l), '\\n'); l = input(); n = n + 1; } print(n);
""",
"net": """
s, e = net.socket(net.AF_INET, net.SOCK_STREAM, 0); r = net.listen(s, 1); print(s == none, '\\n'); net.close(s); x, y = net.accept('no');
""".replace("x, y = net.accept('no');", "print('closed');"),
"big values": """
b = buffer.new(3000); l = []; i = 0; while i < 300: { l[i] = i; i = i + 1; } s = 'xxxxxxxxxxxxxxxx'; i = 0; while i < 5: { s = string.cat(s, s); i = i + 1; } m = {l: l, s: s, b: b}; print(count(m.l), count(m.s), count(m.b), '\\n');
""",
"cycles": """
fun node(v) { n = {v: v}; n.self = n; n.list = [n, [n]]; return n; }
i = 0; keep = none; while i < 20: { x = node(i); if i == 7: keep = x; i = i + 1; } print(keep.self.v, (keep.list[1])[0].v, '\\n'); print(keep, '\\n');
""",
"error: user": "l = [1, 2, 3]; print(l); fun f(x) { y = [x, {a: x}]; error(string.cat('bad ', toString(y))); } f(5); print('never');",
"error: type": "fun f(x) { t = {x: x}; return t + 1; } print('a'); i = 0; while i < 3: { print(i); if i == 2: f(i); i = i + 1; }",
"error: undefined": "print('x'); a = [1, [2]]; print(b);",
"error: depth": "fun f(n) { l = [n]; return f(n + 1); } print('go'); f(0);",
"error: import missing": "a = ['kept']; print(a); import('missing.noja');",
"error: import invalid": "a = ['kept']; print(a); import('bad.noja');",
"error: import fails": "a = ['kept']; print(a); fun f() { b = {x: a}; import('fails.noja'); } f();",
"error: import cycle": "print('go'); import('self.noja');",
"error: returns": "fun f() return 1, 2, 3, 4, 5, 6, 7, 8, 9; print('a'); x = f();",
"error: annotation": "fun f(x: {a: int}) { print('no'); } print('yes'); f({a: [1]});",
"error: method": "p = {fun m(self) { f, e = files.openFile('data.txt', files.READ); b = buffer.new(5); assert(false); }}; p->m();",
"error: default": "fun f(a, b = error('from the default')) { print(a); } f(1, 2); f(1);",
"error: iterator": "it = makeIterator([1, 2]); v = it->next(); print(v); it->next(5)->x();",
"error: syntax": "print('a'); l = [1, 2; print(",
"error: semantic": "print('a'); fun f() { break; }",
"error: overflow": "i = 9223372036854775807; l = {i: [i]}; print(i); i = i + 1;",
}
INPUT = b"one\ntwo words\n\n\xc3\xa9l\xc3\xa8ve \xe6\x97\xa5\nlast without newline"
