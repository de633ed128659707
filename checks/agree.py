"""Replay of AgreeApi.tla: EVP_PKEY_derive."""
import ctypes
from ctypes import byref, c_size_t
from lib.evp import data, buf
from lib.ec import CURVES
from . import pk

DERIVE, ALG_CTRL, SET_IV = 1 << 10, 0x1000, 8
NID = {256: b"1.2.643.7.1.1.2.2", 512: b"1.2.643.7.1.1.2.3", 94: b"1.2.643.2.2.9"}


def setup(paths, seed):
    e = pk.base(paths, seed)
    e.secrets = e.shaped = 0; e.cache = {}
    return e


def stats(e):
    return dict(calls=e.calls, secrets=e.secrets, shaped=e.shaped)


def run_job(e, job):
    ctx, fits = {}, set()
    try:
        return _run(e, job, ctx, fits)
    finally:
        for c in ctx.values():
            e.C.EVP_PKEY_CTX_free(c)
        pk.forget(e, fits)
        e.C.ERR_clear_error()


def _run(e, job, ctx, fits):
    C = e.C
    own = lambda k: (k[0], k[1], k[2] + "@" + job["id"]) if k[2][:1] == "f" else tuple(k)
    for i, o in enumerate(job["hist"]):
        s, op = o["s"], o["op"]
        e.calls += 1

        def bad(w, **kw):
            return dict(step=i, op=o, why=w, errs=C.errs()[:3], **{k: (v.hex() if isinstance(v, bytes) else v) for k, v in kw.items()})
        if op == "open":
            if s in ctx:
                C.EVP_PKEY_CTX_free(ctx.pop(s))
            c = ctx[s] = C.EVP_PKEY_CTX_new(pk.key(e, o["key"], o["priv"]), e.eng.e)
            if not c or C.EVP_PKEY_derive_init(c) != 1:
                return bad("derive_init failed")
            continue
        c = ctx[s]
        if op == "fit":
            u = pk.ukm_bytes(e, job["id"], o["ukm"], CURVES[o["key"][1]].q)
            k = own(o["peer"])
            fits.add(k[2])
            pk.fit(e, k[2], o["key"], u, o["shape"], o["keg"])
            if C.EVP_PKEY_derive_set_peer(c, pk.key(e, k, False)) <= 0:
                return bad("peer key refused")
            e.shaped += 1
        elif op == "ukm":
            u = pk.ukm_bytes(e, job["id"], (o["n"], o["cls"], i + 1), CURVES[job["hist"][0]["key"][1]].q)
            if o["how"] == "ctrl":
                b = buf(u, max(1, len(u)))
                r = C.EVP_PKEY_CTX_ctrl(c, -1, -1, SET_IV, len(u), ctypes.addressof(b))
            else:
                r = C.EVP_PKEY_CTX_ctrl_str(c, b"ukmhex", u.hex().encode())
            if (r > 0) != bool(o["ok"]):
                return bad("UKM of %d bytes: %d" % (len(u), r))
        elif op == "vko":
            v = o["v"]
            if o["how"] == "ctrl":
                r = C.EVP_PKEY_CTX_ctrl(c, -1, -1, ALG_CTRL + 11, C.OBJ_txt2nid(NID[v]) if v in NID else v, None)
            else:
                r = C.EVP_PKEY_CTX_ctrl_str(c, b"vko", str(v).encode())
            if (r > 0) != bool(o["ok"]):
                return bad("digest selection: %d" % r)
        elif op == "peer":
            r = C.EVP_PKEY_derive_set_peer(c, pk.key(e, o["key"], o["priv"]))
            if (r > 0) != bool(o["ok"]):
                return bad("peer key: %d" % r)
        elif op == "ask":
            n = c_size_t(7)
            r = C.EVP_PKEY_derive(c, None, byref(n))
            if (r == 1) != bool(o["ok"]) or (r == 1 and n.value != o["n"]):
                return bad("length query: %d, %d" % (r, n.value))
        elif op == "dup":
            t = o["t"]
            if t in ctx:
                C.EVP_PKEY_CTX_free(ctx.pop(t))
            ctx[t] = C.EVP_PKEY_CTX_dup(c)
            if not ctx[t]:
                del ctx[t]
                return bad("copy failed")
        elif op == "derive":
            room = o["n"] + {"exact": 0, "more": 40, "less": -1}[o["room"]]
            out = buf(b"\x5a" * 160, 160); n = c_size_t(room)
            r = C.EVP_PKEY_derive(c, ctypes.addressof(out), byref(n))
            if (r == 1) != (o["r"] != "refused"):
                return bad("derive: %d" % r)
            if out.raw[room:] != b"\x5a" * (160 - room):
                return bad("bytes written behind the buffer")
            if r != 1:
                C.ERR_clear_error()
                continue
            u = pk.ukm_bytes(e, job["id"], o["ukm"], CURVES[o["key"][1]].q)
            ck = (o["r"], tuple(o["key"]), own(o["peer"]), u, o["bits"])
            if ck not in e.cache:
                if len(e.cache) > 5000:
                    e.cache.clear()
                e.cache[ck] = pk.keg(e, o["key"], own(o["peer"]), u) if o["r"] == "keg" else pk.vko(e, o["key"], own(o["peer"]), u, o["bits"])
            want = e.cache[ck]
            e.secrets += 1
            if want is None:
                return bad("a secret came out where none exists")
            if n.value != len(want) or out.raw[:len(want)] != want:
                return bad("wrong secret", got=out.raw[:64], expected=want)
        C.ERR_clear_error()
    return None
