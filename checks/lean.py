"""Any behaviour of any specification, once more, with an eye on the memory: when everything the behaviour opened has been
released, nothing may be outstanding, and no secret may have been left in memory given back."""
import ctypes, importlib, os, gc


class Env:
    pass


def setup(paths, seed):
    e = Env()
    e.L = ctypes.CDLL(None)
    assert ctypes.c_int.in_dll(e.L, "fl_ok").value == 1, "the allocator is not ours"
    e.live = ctypes.c_long.in_dll(e.L, "fl_live")
    e.track = ctypes.c_int.in_dll(e.L, "fl_track")
    e.mod = importlib.import_module(os.environ["VERIF_INNER"])
    e.in_ = e.mod.setup(paths, seed)
    e.jobs = e.skipped = 0
    return e


def stats(e):
    return dict(behaviours_weighed=e.jobs, not_weighed=e.skipped)


def maps():
    out = []
    for l in open("/proc/self/maps"):
        p = l.split()
        if len(p) > 5 and p[5].startswith("/"):
            a, b = (int(x, 16) for x in p[0].split("-"))
            out.append((a, b, int(p[2], 16), p[5]))
    return out


def name(e, m, a):
    class D(ctypes.Structure):
        _fields_ = [("f", ctypes.c_char_p), ("b", ctypes.c_void_p), ("s", ctypes.c_char_p), ("a", ctypes.c_void_p)]
    d = D()
    if not e.L.dladdr(ctypes.c_void_p(a), ctypes.byref(d)):
        return hex(a)
    f = (d.f or b"?").decode().split("/")[-1]
    return "%s:%s+%x" % (f, d.s.decode() if d.s else "", a - (d.a if d.s else d.b))


def stacks(e, most=4):
    out, at, st = {}, ctypes.c_int(0), (ctypes.c_void_p * 20)()
    m = maps()
    while True:
        n = e.L.fl_next(ctypes.byref(at), st)
        if n <= 0:
            return sorted(out.items(), key=lambda x: -x[1])[:most]
        k = " < ".join(x for x in (name(e, m, st[i]) for i in range(2, n)) if not x.startswith(("libffi", "_ctypes", "python", "libpython", "libc.")))
        out[k] = out.get(k, 0) + 1


def once(e, job):
    a = e.live.value
    r = e.mod.run_job(e.in_, job)
    e.L.ERR_clear_error()
    return e.live.value - a, r


def run_job(e, job):
    d, r = once(e, job)
    if r is not None:
        e.skipped += 1
        return None
    e.jobs += 1
    for _ in range(4):
        d, r = once(e, job)
        if d <= 0 or r is not None:
            return None
    e.L.fl_forget(); e.track.value = 1
    d, r = once(e, job)
    e.track.value = 0
    w = stacks(e)
    return dict(why="%d allocations are never given back" % d, where=w, behaviour=str(job)[:300]) if d > 0 else None
