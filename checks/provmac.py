"""Replay of ProvMac.tla: EVP_MAC with the provider's MACs."""
import ctypes
from lib import evp, ref
from lib.evp import data, buf, params
from checks.macs import MD, keyb, oracle
from ctypes import c_size_t, byref

NAMES = {"gmac": "gost-mac", "gmac12": "gost-mac-12", "mmac": "magma-mac", "kmac": "kuznyechik-mac", "kacpkm": "kuznyechik-ctr-acpkm-omac"}


class Env:
    pass


def setup(paths, seed):
    e = Env(); e.seed = seed
    e.R = ref.get(paths["ref"]); e.eng = evp.load(paths); e.C = e.eng.C
    e.mac = {k: e.eng.mac(v) for k, v in NAMES.items()}
    assert all(e.mac.values()), e.mac
    e.calls = e.macs = 0
    return e


def stats(e):
    return dict(calls=e.calls, macs=e.macs)


def run_job(e, job):
    ctx = {}
    try:
        return _run(e, job, ctx)
    finally:
        for x in ctx.values():
            e.C.EVP_MAC_CTX_free(x)
        e.C.ERR_clear_error()


def setp(C, x, **kw):
    a = params(**kw)
    return C.EVP_MAC_CTX_set_params(x, ctypes.addressof(a))


def _run(e, job, ctx):
    C, jid = e.C, job["id"]
    inp = {}
    for i, o in enumerate(job["ops"]):
        s, op, alg = o["s"], o["op"], o["alg"]
        e.calls += 1

        def bad(why, **kw):
            d = {"step": i, "op": {k: v for k, v in o.items() if k != "seg"}, "why": why, "errors": C.errs()[:3]}
            d.update({k: (v.hex() if isinstance(v, bytes) else v) for k, v in kw.items()})
            return d
        if op == "new":
            ctx[s] = C.EVP_MAC_CTX_new(e.mac[alg])
            if not ctx[s]:
                return bad("no context")
            continue
        x = ctx[s]
        if op == "init":
            kw = {}
            if o["size"]:
                kw["size"] = o["size"]
            if o["n"]:
                kw["key_mesh"] = o["n"]
            if o["t"]:
                kw["cipher_key_mesh"] = o["t"]
            kb = (keyb(e, o["key"]) * 3)[:o["klen"]] if o["key"] else None
            if kb is not None and o["via"] == "param":
                kw["key"] = kb
                kb = None
            b = buf(kb + b"\x11" * 80, len(kb) + 80) if kb is not None else None
            a = params(**kw) if kw else None
            r = C.EVP_MAC_init(x, ctypes.cast(b, ctypes.c_char_p) if b else None, o["klen"] if b else 0, ctypes.addressof(a) if a else None)
            if (r > 0) != bool(o["ok"]):
                return bad("init returned %d" % r)
        elif op == "size":
            if setp(C, x, size=o["size"]) != 1:
                return bad("size refused")
        elif op == "badsize":
            if setp(C, x, size=o["z"]) == 1:
                ob = buf(b"\x5a" * 200, 200)
                ol = c_size_t(200)
                r = C.EVP_MAC_final(x, ctypes.addressof(ob), byref(ol), o["z"])
                if r == 1:
                    return bad("a MAC of %d bytes was given" % ol.value)
                if ob.raw[o["z"]:] != b"\x5a" * (200 - o["z"]):
                    return bad("wrote past the buffer of %d bytes" % o["z"])
                if setp(C, x, size=o["size"]) != 1:
                    return bad("size refused")
        elif op == "ask":
            z = C.EVP_MAC_CTX_get_mac_size(x)
            if z != o["size"]:
                return bad("says its MAC has %d bytes" % z)
            a = params(keylen=0)
            if C.EVP_MAC_CTX_get_params(x, ctypes.addressof(a)) != 1 or a.keep[0].value != 32:
                return bad("says its key has %d bytes" % a.keep[0].value)
        elif op == "mesh":
            r = setp(C, x, key_mesh=o["n"], **({"cipher_key_mesh": o["t"]} if o["t"] else {}))
            if (r > 0) != bool(o["ok"]):
                return bad("section size: returned %d" % r)
        elif op == "upd":
            d = data(e.seed, "pm", jid, i + 1, o["n"])
            inp[i + 1] = d
            r = C.EVP_MAC_update(x, ctypes.cast(buf(d + b"\x77" * 16, len(d) + 16), ctypes.c_char_p), len(d))
            if (r == 1) != bool(o["ok"]):
                return bad("data %s" % ("accepted without a key" if r == 1 else "refused"))
        elif op == "fin":
            z = o["size"]
            ob = buf(b"\x5a" * 96, 96)
            ol = c_size_t(0)
            if C.EVP_MAC_final(x, None, byref(ol), 0) != 1 or ol.value != z:
                return bad("says the MAC has %d bytes" % ol.value)
            if o["how"] == "xof":
                r = C.EVP_MAC_finalXOF(x, ctypes.addressof(ob), z)
            else:
                ol = c_size_t(77)
                r = C.EVP_MAC_final(x, ctypes.addressof(ob), byref(ol), z + o["room"])
            if (r == 1) != bool(o["ok"]):
                return bad("final %s" % ("gave a MAC" if r == 1 else "failed"))
            if r == 1:
                if o["how"] == "fin" and ol.value != z:
                    return bad("MAC of %d bytes" % ol.value)
                m = b"".join(inp[k] for k, _ in o["seg"])
                w = oracle(e, o, m)[:z]
                e.macs += 1
                if ob.raw[:z] != w:
                    return bad("wrong MAC of %d bytes" % len(m), got=ob.raw[:z], expected=w)
                w = z
            else:
                w = 0
            if ob.raw[w:] != b"\x5a" * (96 - w):
                return bad("wrote past the MAC" if w else "wrote without giving a MAC")
        elif op == "dup":
            n = C.EVP_MAC_CTX_dup(x)
            if not n:
                return bad("no copy")
            if o["t"] in ctx:
                C.EVP_MAC_CTX_free(ctx[o["t"]])
            ctx[o["t"]] = n
        elif op == "free":
            C.EVP_MAC_CTX_free(ctx.pop(s))
        C.ERR_clear_error()
    return None
