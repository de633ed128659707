"""Build everything a check needs from /repo's current working tree (never from /repo/_build).

Objects go to /verif/build/<content hash>/; the hash covers every source and header of /repo's top
level, the reference code in /verif/ref and /verif/shim, and the flags, so two checks on the same tree
share one build and a changed tree always gives a new one."""
import os, sys, glob, hashlib, subprocess, fcntl, shutil, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
DEFS = ["-DHAVE_ADDCARRY_U64", "-DL_ENDIAN"]
BASE = ["gcc", "-O2", "-g1", "-fPIC", "-w"] + DEFS


class BuildError(Exception):
    pass


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])


def sources():
    skip = {"gostsum.c", "gost12sum.c"}
    out = []
    for f in sorted(glob.glob(os.path.join(REPO, "*.c"))):
        b = os.path.basename(f)
        if b.startswith("test_") or b in skip or b.startswith("gost_prov"):
            continue
        out.append(f)
    return out


def tree_hash(extra=()):
    h = hashlib.sha256(repr((BASE, extra)).encode())
    fs = [os.path.abspath(__file__)] + glob.glob(os.path.join(REPO, "*.[ch]")) + glob.glob(os.path.join(VERIF, "ref", "*")) \
        + glob.glob(os.path.join(VERIF, "shim", "*")) + glob.glob(os.path.join(VERIF, "shim", "*", "*"))
    for f in sorted(fs):
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


def _compile_all(pairs, flags):
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda p: _run(BASE + flags + ["-c", p[0], "-o", p[1]]), pairs))


def build(what="engine"):
    """what: 'engine' (gost.so + libref.so), 'tools' (gostsum, gost12sum), 'prov' (gostprov.so),
    'wrap' (engine with OpenSSL calls wrapped for schedule control), 'asan' (engine under ASan).
    Returns a dict of paths."""
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, tree_hash())
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(what, d)


def faults():
    """the allocator that goes under libcrypto"""
    r = build("engine")
    so = os.path.join(r["dir"], "faults.so")
    with open(os.path.join(r["dir"], "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(so):
            _run(["gcc", "-O2", "-w", "-shared", "-fPIC", os.path.join(VERIF, "shim", "faults.c"), "-o", so + ".tmp", "-lcrypto", "-lpthread"])
            os.rename(so + ".tmp", so)
    return so


def _build(what, d):
    r = {"dir": d, "ref": os.path.join(d, "libref.so"), "engine": os.path.join(d, "gost.so")}
    stamp = lambda n: os.path.join(d, "ok." + n)
    if not os.path.exists(stamp("ref")):
        _run(["gcc", "-O2", "-w", "-shared", "-fPIC", "-I", os.path.join(VERIF, "ref"),
              os.path.join(VERIF, "ref", "ref.c"), "-o", r["ref"]])
        open(stamp("ref"), "w").close()
    if not os.path.exists(stamp("engine")):
        od = os.path.join(d, "o")
        os.makedirs(od, exist_ok=True)
        prs = [(s, os.path.join(od, os.path.basename(s)[:-2] + ".o")) for s in sources()]
        _compile_all(prs, ["-I", REPO])
        _run(["gcc", "-shared", "-o", r["engine"]] + [o for _, o in prs] + ["-lcrypto", "-lm"])
        open(stamp("engine"), "w").close()
    objs = [os.path.join(d, "o", os.path.basename(s)[:-2] + ".o") for s in sources()]
    if what == "tools":
        r["gostsum"] = os.path.join(d, "gostsum")
        r["gost12sum"] = os.path.join(d, "gost12sum")
        if not os.path.exists(stamp("tools")):
            for t in ("gostsum", "gost12sum"):
                _run(BASE + ["-I", REPO, "-c", os.path.join(REPO, t + ".c"), "-o", os.path.join(d, t + ".o")])
            # a static library so that each program takes only the objects it refers to
            lib = os.path.join(d, "libg.a")
            if os.path.exists(lib):
                os.unlink(lib)
            _run(["ar", "rcs", lib] + objs)
            for t in ("gostsum", "gost12sum"):
                _run(["gcc", "-o", r[t], os.path.join(d, t + ".o"), lib, "-lcrypto", "-lm"])
            open(stamp("tools"), "w").close()
    if what == "prov":
        r["prov"] = os.path.join(d, "gostprov.so")
        if not os.path.exists(stamp("prov")):
            od = os.path.join(d, "op")
            os.makedirs(od, exist_ok=True)
            # as the build does it: the module form; the library's objects are the engine's
            own = [os.path.join(REPO, "gost_eng.c")] + sorted(glob.glob(os.path.join(REPO, "gost_prov*.c")))
            prs = [(s, os.path.join(od, os.path.basename(s)[:-2] + ".o")) for s in own]
            prs.append((os.path.join(VERIF, "shim", "proverr.c"), os.path.join(od, "zz_proverr.o")))
            _compile_all(prs, ["-I", os.path.join(VERIF, "shim"), "-I", REPO, "-DBUILDING_GOST_PROVIDER",
                               "-DOPENSSL_NO_DYNAMIC_ENGINE"])
            rest = [o for o in objs if os.path.basename(o) not in ("gost_eng.o", "e_gost_err.o")]
            _run(["gcc", "-shared", "-Wl,-Bsymbolic", "-o", r["prov"]] + [o for _, o in prs] + rest + ["-lcrypto", "-lm"])
            open(stamp("prov"), "w").close()
    if what == "wrap":
        r["wrap"] = os.path.join(d, "gost_wrap.so")
        if not os.path.exists(stamp("wrap")):
            od = os.path.join(d, "ow")
            os.makedirs(od, exist_ok=True)
            prs = [(s, os.path.join(od, os.path.basename(s)[:-2] + ".o")) for s in sources()]
            # accesses as written, so that no compiler hides a race; the curve arithmetic would be too slow
            fl = ["-I", REPO, "-fsanitize=thread", "-fno-builtin"]
            _compile_all([p for p in prs if "/ecp_" in p[0]], fl)
            _compile_all([p for p in prs if "/ecp_" not in p[0]], fl + ["-O0"])
            o = os.path.join(d, "sched.o")
            _run(BASE + ["-c", os.path.join(VERIF, "shim", "sched.c"), "-o", o])
            wl = open(os.path.join(VERIF, "shim", "wrap.list")).read().split()
            _run(["gcc", "-shared", "-Wl,-Bsymbolic", "-o", r["wrap"]] + [x for _, x in prs] + [o]
                 + ["-Wl,--wrap=" + w for w in wl] + ["-lcrypto", "-lm", "-lpthread"])
            open(stamp("wrap"), "w").close()
    return r


def prune(keep=4):
    try:
        ds = sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD)), key=os.path.getmtime)
        for x in ds[:-keep]:
            if time.time() - os.path.getmtime(x) > 7200:
                shutil.rmtree(x, ignore_errors=True)
    except OSError:
        pass


if __name__ == "__main__":
    for w in sys.argv[1:] or ["engine", "tools"]:
        print(build(w))
