"""Builds /repo's current working tree in the variants the checks need, under
/verif/build (git-ignored). Everything is keyed by the content of the sources
and of the harness, so a changed tree is always rebuilt."""
import os, sys, hashlib, subprocess, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

SAN = "-fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all -fno-omit-frame-pointer"
VARIANTS = {
    # name: (compiler, flags, link flags)
    "asan":     ("clang", f"-O1 -g -DNDEBUG -DNOJA_VERIF -DVRUN_ASAN {SAN}", SAN),          # hook on: one malloc per heap object
    "asanpool": ("clang", f"-O1 -g -DNDEBUG -DVRUN_ASAN {SAN}", SAN),                        # the heap as shipped
    "plain":    ("gcc",   "-O2 -g -DNDEBUG", ""),                                             # as shipped, no instrumentation
    # the configuration meant for development, where the library checks its own invariants
    "debug":    ("clang", f"-O1 -g -DDEBUG -DNOJA_VERIF -DVRUN_ASAN {SAN}", SAN),
    "debugpool":("clang", f"-O1 -g -DDEBUG -DVRUN_ASAN {SAN}", SAN),
    "msan":     ("clang", "-O1 -g -DNDEBUG -DNOJA_VERIF -fsanitize=memory -fno-omit-frame-pointer", "-fsanitize=memory"),
    "msanpool": ("clang", "-O1 -g -DNDEBUG -fsanitize=memory -fno-omit-frame-pointer", "-fsanitize=memory"),
    "clang0":   ("clang", "-O0 -g -DNDEBUG", ""),
    "tsan":     ("clang", "-O1 -g -DNDEBUG -DNOJA_VERIF -fsanitize=thread -fno-omit-frame-pointer", "-fsanitize=thread"),
    "fuzz":     ("clang", f"-O1 -g -DNDEBUG -DNOJA_VERIF -DVRUN_ASAN {SAN} -fsanitize=fuzzer-no-link", SAN + " -fsanitize=fuzzer"),
}

class BuildError(Exception):
    pass

def repo_sources():
    lib, hdr, cli = [], [], []
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        rel = os.path.relpath(root, os.path.join(REPO, "src"))
        for f in sorted(files):
            p = os.path.join(root, f)
            if f.endswith("_n.c"):
                continue
            if f.endswith(".h") and not rel.startswith("test"):
                hdr.append(p)
            elif f.endswith(".c"):
                if rel == "lib" or rel.startswith("lib" + os.sep):
                    lib.append(p)
                elif rel.startswith("cli"):
                    cli.append(p)
    return lib, hdr, cli

def other_sources():
    r = []
    b = os.path.join(REPO, "src", "lib", "builtins")
    for f in sorted(os.listdir(b)):
        if f.endswith(".noja"):
            r.append(os.path.join(b, f))
    r.append(os.path.join(REPO, "misc", "embedder.c"))
    return r

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]

def run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError(f"{' '.join(cmd)[:300]}\n{r.stdout.decode(errors='replace')[-4000:]}")

def prune(prefix, keep):
    """Keep the cache small: at most `keep` trees per prefix."""
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith(prefix)]
        ds.sort(key=os.path.getmtime, reverse=True)
        for d in ds[keep:]:
            shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass

def lib(variant):
    """Returns the directory with the objects of the library (and the CLI's one)."""
    cc, flags, _ = VARIANTS[variant]
    libs, hdrs, clis = repo_sources()
    key = digest(libs + hdrs + clis + other_sources(), variant + cc + flags)
    d = os.path.join(BUILD, f"lib-{variant}-{key}")
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, f".lock-{variant}"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, "done")):
            os.utime(d)
            return d
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        run(["gcc", "-w", os.path.join(REPO, "misc", "embedder.c"), "-o", os.path.join(d, "embedder")])
        run([os.path.join(d, "embedder"), os.path.join(REPO, "src/lib/builtins/start.noja"), "start_noja", os.path.join(d, "start_n.c")])
        os.makedirs(os.path.join(d, "lib")); os.makedirs(os.path.join(d, "cli"))
        jobs = []
        for p in libs + [os.path.join(d, "start_n.c")]:
            o = os.path.join(d, "lib", os.path.relpath(p, "/").replace("/", "_")[-120:] + ".o")
            jobs.append([cc] + flags.split() + ["-w", "-I", os.path.join(REPO, "src/lib"), "-c", p, "-o", o])
        for p in clis:
            o = os.path.join(d, "cli", os.path.basename(p) + ".o")
            jobs.append([cc] + flags.split() + ["-w", "-I", os.path.join(REPO, "src/lib"), "-c", p, "-o", o])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(run, jobs))
        open(os.path.join(d, "done"), "w").close()
        prune(f"lib-{variant}-", 3)
    return d

def objs(d, sub="lib"):
    p = os.path.join(d, sub)
    return sorted(os.path.join(p, f) for f in os.listdir(p) if f.endswith(".o"))

def cli(variant):
    d = lib(variant)
    exe = os.path.join(d, "noja")
    with open(os.path.join(BUILD, f".lock-{variant}"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            cc, flags, ld = VARIANTS[variant]
            run([cc] + flags.split() + objs(d) + objs(d, "cli") + ["-o", exe + ".tmp", "-lm"] + ld.split())
            os.rename(exe + ".tmp", exe)
    return exe

def harness(variant, src, extra=()):
    """Builds /verif/lib/<src> against the library; returns the executable."""
    d = lib(variant)
    p = os.path.join(VERIF, "lib", src)
    key = digest([p, os.path.join(VERIF, "lib", "vrun.c")], variant)
    exe = os.path.join(d, f"{os.path.basename(src)}-{key}")
    with open(os.path.join(BUILD, f".lock-{variant}"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            cc, flags, ld = VARIANTS[variant]
            run([cc] + flags.split() + ["-w", "-I", os.path.join(REPO, "src/lib"), p] + objs(d) +
                ["-o", exe + ".tmp", "-lm"] + ld.split() + list(extra))
            os.rename(exe + ".tmp", exe)
    return exe

if __name__ == "__main__":
    for v in sys.argv[1:] or ["asan", "asanpool", "plain", "tsan", "debug", "debugpool", "msan", "msanpool", "clang0"]:
        print(v, cli(v), harness(v, "vrun.c"))
