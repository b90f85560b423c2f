#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE <<< JSON {"edits": [[file, old, new], ..], "needs":, "breaks":, "demo": script}"""
import sys, os, json, subprocess, tempfile, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def make(id, prop, edits, needs, breaks, demo, files=None):
    d = tempfile.mkdtemp(dir="/tmp")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", d + "/r"], check=True)
        for f, old, new in edits:
            p = d + "/r/" + f
            t = open(p, newline='').read()
            if '\r\n' in t: old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            assert t.count(old) == 1, (id, f, old, t.count(old))
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", d + "/r", "diff"], stdout=subprocess.PIPE, check=True).stdout
        # The lines it replaces should be the original repository's.
        import re
        mine = total = 0
        f = None
        for l in diff.decode(errors="replace").splitlines():
            if l.startswith("--- "): f = l[6:].strip()
            m = re.match(r"@@ -(\d+)", l)
            if m: ln = int(m.group(1)); continue
            if l.startswith("---") or l.startswith("+"): continue
            if l.startswith("-"):
                b = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", "-L", f"{ln},{ln}", "585ce93..HEAD", "--", f], stdout=subprocess.PIPE, text=True, check=True).stdout
                total += 1
                mine += not b.startswith("^")
            ln = ln + 1 if f and l[:1] in " -" else locals().get("ln", 0)
        print(f"  {id}: {total} lines replaced, {mine} of them not original")
    finally: shutil.rmtree(d)
    s = f"{ROOT}/seeded/{id}"
    os.makedirs(s, exist_ok=True)
    open(s + "/patch.diff", "wb").write(diff)
    open(s + "/demo.sh", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(s + "/meta.json", "w"), indent=1)
    for n, c in (files or {}).items(): open(f"{s}/{n}", "w").write(c)
