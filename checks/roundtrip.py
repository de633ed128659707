"""Replay of RoundTrip.tla: no cipher oracle, the receiver must see the sender's bytes."""
import ctypes
from lib import evp, modes
from lib.evp import data, buf
from ctypes import c_int, byref
from checks.ciphers import keyb, ivb


class Env:
    pass


def setup(paths, seed):
    e = Env(); e.seed = seed
    e.eng = evp.load(paths); e.C = e.eng.C
    e.ci = {k: e.eng.cipher(v[0]) for k, v in modes.ALG.items()}
    e.calls = 0; e.bytes = 0
    return e


def stats(e):
    return {"calls": e.calls, "bytes": e.bytes}


def craft(d, B, pv, good):
    d = bytearray(d)
    d[-1] = pv
    if 2 <= pv <= B:
        d[-pv:] = bytes([pv]) * pv
        if not good:
            d[-pv] ^= 0x40
    elif pv > B:
        d[-B:] = bytes([pv]) * B
    return bytes(d)


def run_job(e, job):
    C = e.C
    xe, xd = C.EVP_CIPHER_CTX_new(), C.EVP_CIPHER_CTX_new()
    try:
        return _run(e, job, xe, xd)
    finally:
        C.EVP_CIPHER_CTX_free(xe); C.EVP_CIPHER_CTX_free(xd); C.ERR_clear_error()


def feed(C, x, d, inpl):
    n = len(d)
    ib = buf(d + b"\xA5" * 64, n + 64)
    ob = ib if inpl else buf(n + 64)
    ol = c_int(-1)
    r = C.EVP_CipherUpdate(x, ctypes.addressof(ob), byref(ol), ctypes.cast(ctypes.addressof(ib), ctypes.c_char_p), n)
    return r, ob.raw[:max(0, ol.value)]


def _run(e, job, xe, xd):
    C, jid = e.C, job["id"]
    pt = ct = None
    epos = dpos = dgot = 0
    last = None
    for i, o in enumerate(job["ops"]):
        op = o["op"]; e.calls += 1

        def bad(why, **kw):
            r = {"step": i, "op": o, "alg": last, "why": why, "errors": C.errs()[:3]}
            r.update(kw)
            return r
        if op == "start":
            al = o["alg"]
            B = C.EVP_CIPHER_get_block_size(e.ci[al])
            again = al == last
            last = al
            key = keyb(e, o["key"]); iv = ivb(e, o["iv"], modes.IVLEN[al]) or None
            for x, en in ((xe, 1), (xd, 0)):
                if not again:
                    C.EVP_CIPHER_CTX_reset(x)
                if C.EVP_CipherInit_ex(x, e.ci[al], e.eng.e, key, iv, en) != 1:
                    return bad("init failed")
            C.EVP_CIPHER_CTX_set_padding(xe, o["epad"])
            C.EVP_CIPHER_CTX_set_padding(xd, o["dpad"])
            pt = data(e.seed, "rt", jid, i, o["tot"])
            if o["craft"]:
                pt = craft(pt, B, o["craft"] - 1, o["good"])
            ct = b""; epos = dpos = dgot = 0
        elif op == "eupd":
            r, out = feed(C, xe, pt[epos:epos + o["n"]], o["inpl"])
            epos += o["n"]; e.bytes += o["n"]
            if r != 1 or len(out) != o["outl"]:
                return bad("encrypt update gave %d bytes (rc %d), expected %d" % (len(out), r, o["outl"]))
            ct += out
        elif op == "efin":
            ob = buf(64); ol = c_int(-1)
            r = C.EVP_CipherFinal_ex(xe, ob, byref(ol))
            if r != 1 or ol.value != o["outl"]:
                return bad("encrypt final gave %d bytes (rc %d), expected %d" % (ol.value, r, o["outl"]))
            ct += ob.raw[:ol.value]
        elif op == "dupd":
            r, out = feed(C, xd, ct[dpos:dpos + o["n"]], o["inpl"])
            dpos += o["n"]
            if r != 1 or len(out) != o["outl"]:
                return bad("decrypt update gave %d bytes (rc %d), expected %d" % (len(out), r, o["outl"]))
            if out != pt[dgot:dgot + len(out)]:
                return bad("decrypted bytes differ from the message at offset %d" % dgot, got=out[:64].hex(), expected=pt[dgot:dgot + len(out)][:64].hex())
            dgot += len(out)
        elif op == "dfin":
            ob = buf(64); ol = c_int(0)
            r = C.EVP_CipherFinal_ex(xd, ob, byref(ol))
            if (r == 1) != bool(o["ok"]):
                return bad("final %s this message" % ("accepted" if r == 1 else "refused"))
            if r == 1:
                if ob.raw[:ol.value] != pt[dgot:dgot + o["outl"]] or ol.value != o["outl"]:
                    return bad("wrong final bytes", got=ob.raw[:max(0, ol.value)].hex(), expected=pt[dgot:dgot + o["outl"]].hex())
            C.ERR_clear_error()
    return None
