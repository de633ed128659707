"""Run jobs against the real code in worker processes; a crash of the code is a result, not our end.

A component module (checks/<x>.py) defines  setup(paths, seed) -> env  and  run_job(env, job) -> None
or a dict/str describing the mismatch.  Jobs are JSON values."""
import os, sys, json, subprocess, tempfile, shutil, signal, time
from . import build as B

WORKER = r"""
import sys, json, os, importlib
sys.path.insert(0, %(verif)r)
mod = importlib.import_module(%(mod)r)
env = mod.setup(%(paths)r, %(seed)r)
fd = os.open(%(prog)r, os.O_WRONLY | os.O_CREAT)
out = open(%(out)r, "w")
jobs = json.load(open(%(jobs)r))
for i, j in enumerate(jobs):
    os.pwrite(fd, b"%%09d" %% i, 0)
    try:
        r = mod.run_job(env, j)
    except MemoryError:
        raise
    except Exception as ex:   # the replay met something no behaviour of the specification leads to
        import traceback, errno
        if isinstance(ex, OSError) and ex.errno in (errno.ENOMEM, errno.ENOSPC, errno.EMFILE, errno.EAGAIN):
            raise
        r = {"cannot_go_on": traceback.format_exc()[-900:]}
    if r is not None:
        out.write(json.dumps([i, r]) + "\n"); out.flush()
    if os.environ.get("VERIF_STOPFIRST") and r is not None:
        break
os.pwrite(fd, b"done     ", 0)
out.write(json.dumps(["stats", mod.stats(env) if hasattr(mod, "stats") else {}]) + "\n")
out.flush()
os._exit(0)
"""


class HarnessError(Exception):
    pass


def _spawn(mod, paths, seed, jobs, d, tag, env=None):
    f = {k: os.path.join(d, tag + "." + k) for k in ("prog", "out", "jobs", "err")}
    json.dump(jobs, open(f["jobs"], "w"))
    code = WORKER % dict(verif=B.VERIF, mod=mod, paths=paths, seed=seed, prog=f["prog"], out=f["out"], jobs=f["jobs"])
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MALLOC_PERTURB_="171", LC_ALL="C.UTF-8")
    for k in ("OPENSSL_CONF", "OPENSSL_ENGINES", "OPENSSL_MODULES", "CRYPT_PARAMS", "GOST_PBE_HMAC", "GOST_PK_FORMAT"):
        e.pop(k, None)
    e["OPENSSL_CONF"] = "/dev/null"
    e.update(env or {})
    p = subprocess.Popen([sys.executable, "-c", code], stdout=subprocess.DEVNULL, stderr=open(f["err"], "w"),
                         env=e, cwd=d)
    return p, f


def _collect(p, f, jobs, timeout):
    try:
        rc = p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill(); p.wait(); rc = "timeout"
    prog = ""
    try:
        prog = open(f["prog"]).read().strip()
    except OSError:
        pass
    bad, stats = {}, {}
    if os.path.exists(f["out"]):
        for ln in open(f["out"]):
            try:
                i, r = json.loads(ln)
            except ValueError:
                continue
            if i == "stats":
                stats = r
            else:
                bad[i] = r
    err = open(f["err"]).read()[-2000:]
    crashed = None
    if prog != "done":
        if not prog:
            raise HarnessError("worker did not start: rc=%s %s" % (rc, err))
        k = int(prog)
        if isinstance(rc, int) and rc > 0:   # a python exception: our error unless it says otherwise
            raise HarnessError("worker failed on job %d: %s\n%s" % (k, err, json.dumps(jobs[k])[:1500]))
        crashed = (k, "timeout" if rc == "timeout" else "killed by signal %d" % -rc, err)
    return bad, crashed, stats


def run(mod, paths, seed, jobs, nproc=8, timeout=600, env=None, confirm=True, maxbad=6):
    """-> (violations [(job, result)], executed, stats list)"""
    if not jobs:
        return [], 0, []
    d = tempfile.mkdtemp(prefix="wk_", dir="/tmp")
    try:
        n = max(1, min(nproc, len(jobs)))
        parts = [jobs[i::n] for i in range(n)]
        ps = [_spawn(mod, paths, seed, pt, d, "w%d" % i, env) for i, pt in enumerate(parts)]
        cand, stats, executed = [], [], 0
        t1 = time.time() + timeout
        queue = list(zip(ps, parts))
        k = 0
        while queue:
            (p, f), pt = queue.pop(0)
            bad, crashed, st = _collect(p, f, pt, max(5, t1 - time.time()))
            stats.append(st)
            cand += [(pt, i, r) for i, r in bad.items()]
            if crashed:
                i, why, err = crashed
                cand.append((pt, i, {"crash": why, "stderr": err[-600:]}))
                executed += i
                rest = pt[i + 1:]
                if rest and len(cand) < 30 and time.time() < t1 - 5:
                    k += 1
                    queue.append((_spawn(mod, paths, seed, rest, d, "r%d" % k, env), rest))
            else:
                executed += len(pt)
        if not confirm:
            return [(pt[i], r) for pt, i, r in cand], executed, stats
        viol = []
        for pt, i, r in cand[:40]:
            if len(viol) >= maxbad:
                break
            ok = rerun(mod, paths, seed, [pt[i]], d, env)
            if ok:
                viol.append((pt[i], ok[0][1]))
                continue
            ok = rerun(mod, paths, seed, pt[:i + 1], d, env)   # depends on what ran before it
            if ok and ok[-1][0] == i:
                viol.append(({"batch": pt[:i + 1]}, ok[-1][1]))
        return viol, executed, stats
    finally:
        shutil.rmtree(d, ignore_errors=True)


def rerun(mod, paths, seed, jobs, d=None, env=None):
    own = d is None
    d = d or tempfile.mkdtemp(prefix="wk_", dir="/tmp")
    try:
        p, f = _spawn(mod, paths, seed, jobs, d, "c%d" % (time.time_ns()), env)
        bad, crashed, _ = _collect(p, f, jobs, 120)
        out = sorted(bad.items())
        if crashed:
            out.append((crashed[0], {"crash": crashed[1], "stderr": crashed[2][-600:]}))
        return out
    finally:
        if own:
            shutil.rmtree(d, ignore_errors=True)
