"""Replay of MgmApi.tla into magma-mgm / kuznyechik-mgm."""
import ctypes
from lib import evp, ref
from lib.evp import data, buf
from ctypes import c_int, byref

NAME = {"mmgm": ("magma-mgm", 8), "kmgm": ("kuznyechik-mgm", 9)}
SET_IVLEN, GET_TAG, SET_TAG = 0x9, 0x10, 0x11


class Env:
    pass


def setup(paths, seed):
    e = Env(); e.seed = seed
    e.R = ref.get(paths["ref"])
    e.eng = evp.load(paths); e.C = e.eng.C
    e.ci = {k: e.eng.cipher(v[0]) for k, v in NAME.items()}
    e.calls = 0; e.cache = {}
    return e


def stats(e):
    return {"calls": e.calls}


def keyb(e, k):
    return data(e.seed, "mgmkey", k, 32)


def nonce(e, alg, k, v):
    """v 4/5: chosen so that, under key 1, the text / multiplier counter wraps within a few blocks."""
    a = NAME[alg][1]; B = e.R.bs(a)
    if v == 6:
        return b"\x7f" + b"\xff" * (B - 1)
    if v in (4, 5):
        ck = (alg, v)
        if ck not in e.cache:
            i = 0
            while True:
                h = data(e.seed, "wrap", alg, v, i, B // 2)
                w = b"\xff" * (B // 2 - 1) + b"\xfe"
                blk = h + w if v == 4 else w + h
                n = e.R.ecb(a, keyb(e, 1), blk, 0)
                if (n[0] >> 7) == (v == 5):
                    break
                i += 1
            e.cache[ck] = bytes([n[0] & 0x7f]) + n[1:]
        return e.cache[ck]
    n = data(e.seed, "mgmiv", alg, v, B)
    return bytes([n[0] & 0x7f]) + n[1:]


def keystream(R, a, key, n, length):
    B = R.bs(a); h = B // 2
    y = R.E(a, key, bytes([n[0] & 0x7f]) + n[1:])
    out = b""
    c = int.from_bytes(y[h:], "big")
    blocks = b"".join(y[:h] + ((c + i) % (1 << 8 * h)).to_bytes(h, "big") for i in range(-(-length // B)))
    return R.ecb(a, key, blocks, 1)[:length]


def mgm_tag(R, a, key, n, A, Ct):
    B = R.bs(a); h = B // 2
    z = R.E(a, key, bytes([n[0] | 0x80]) + n[1:])
    pad = lambda d: d + bytes(-len(d) % B)
    blocks = pad(A) + pad(Ct) + (len(A) * 8).to_bytes(h, "big") + (len(Ct) * 8).to_bytes(h, "big")
    c = int.from_bytes(z[:h], "big")
    nb = len(blocks) // B
    H = R.ecb(a, key, b"".join(((c + i) % (1 << 8 * h)).to_bytes(h, "big") + z[h:] for i in range(nb)), 1)
    s = 0
    for i in range(nb):
        s ^= int.from_bytes(R.mul(B, H[i * B:i * B + B], blocks[i * B:i * B + B]), "big")
    return R.E(a, key, s.to_bytes(B, "big"))


def xor(x, y):
    return bytes(p ^ q for p, q in zip(x, y))


def run_job(e, job):
    ctxs = {}
    try:
        return _run(e, job, ctxs)
    finally:
        for c in ctxs.values():
            e.C.EVP_CIPHER_CTX_free(c)
        e.C.ERR_clear_error()


def received(e, alg, jid, m, a, key, iv):
    """what the receiver is given for message m: (aad, ciphertext, tag) with the tampering applied"""
    R = e.R
    A = data(e.seed, "A", jid, m["msg"], m["sa"]); P = data(e.seed, "P", jid, m["msg"], m["sm"])
    n = nonce(e, alg, 1, iv)
    t = m["tamper"]
    k2, n2 = key, n
    if t == "key":
        k2 = bytes([key[0]]) + bytes([key[1] ^ 0x10]) + key[2:]
    if t == "nonce":
        i = m["msg"] * 7 % (len(n) * 8 - 1) + 1      # any bit but the top one, which is not part of the nonce
        n2 = bytearray(n); n2[i // 8] ^= 0x80 >> (i % 8); n2 = bytes(n2)
    Ct = xor(P, keystream(R, a, k2, n2, len(P)))
    tag = mgm_tag(R, a, k2, n2, A, Ct)
    flip = lambda d, r: d[:r // 8] + bytes([d[r // 8] ^ (0x80 >> (r % 8))]) + d[r // 8 + 1:]
    r = int.from_bytes(data(e.seed, "flip", jid, m["msg"], 4), "big")
    if t == "ct":
        Ct = flip(Ct, r % (8 * len(Ct)))
    elif t == "aad":
        A = flip(A, r % (8 * len(A)))
    elif t == "tag":
        tag = flip(tag, r % (8 * len(tag)))
    elif t == "cttrunc":
        Ct = Ct[:-1]
    elif t == "aadtrunc":
        A = A[:-1]
    elif t == "ctext":
        Ct += b"\0"
    elif t == "aadext":
        A += b"\0"
    elif t == "swap":       # last byte of the associated data moved to the text
        A, Ct = A[:-1], A[-1:] + Ct
    return A, Ct, tag


def _run(e, job, ctxs):
    C, R, jid = e.C, e.R, job["id"]
    st = {}      # slot -> {msg script, given key/iv}
    tags = {}
    for i, o in enumerate(job["ops"]):
        s, op = o["s"], o["op"]
        e.calls += 1
        if s not in ctxs:
            ctxs[s] = C.EVP_CIPHER_CTX_new()
        x = ctxs[s]

        def bad(why, **kw):
            d = {"step": i, "op": o, "why": why, "alg": alg, "errors": C.errs()[:3]}
            d.update({k: (v[:64].hex() if isinstance(v, bytes) else v) for k, v in kw.items()})
            return d
        if op == "init":
            alg = o["alg"]
            a = NAME[alg][1]; B = R.bs(a)
            if o["new"]:
                C.EVP_CIPHER_CTX_reset(x)
                st[s] = {"key": 0, "iv": 0}
            t = st[s] = dict(st[s])
            if o["key"]:
                t["key"] = o["key"]
            if o["iv"]:
                t["iv"] = o["iv"]
            t["m"] = o; t["recv"] = None; t["i"] = i
            r = C.EVP_CipherInit_ex(x, e.ci[alg] if o["new"] else None, e.eng.e if o["new"] else None,
                                    keyb(e, o["key"]) if o["key"] else None,
                                    nonce(e, alg, 1, o["iv"]) if o["iv"] else None, -1 if o["enc"] == 2 else o["enc"])
            if r != 1:
                return bad("init failed")
            continue
        t = st[s]

        def recv():
            if t["recv"] is None:
                t["recv"] = received(e, alg, jid, t["m"], a, keyb(e, t["key"] or 1), t["iv"] or 1)
            return t["recv"]
        if op == "aad":
            d = data(e.seed, "in", jid, i, o["n"]) if o["enc"] else recv()[0][o["pos"]:o["pos"] + o["n"]]
            ol = c_int(-1)
            ib = buf(d + b"\xa5" * 32, len(d) + 32)
            r = C.EVP_CipherUpdate(x, None, byref(ol), ctypes.cast(ib, ctypes.c_char_p), len(d))
            if (r == 1) != bool(o["ok"]):
                return bad("associated data %s" % ("accepted in the wrong order" if r == 1 else "refused"))
            C.ERR_clear_error()
        elif op == "upd":
            n = o["n"]
            if o["enc"]:
                d = data(e.seed, "in", jid, i, n)
            else:
                d = recv()[1][o["pos"]:o["pos"] + n]
            ib = buf(d + b"\xa5" * 32, n + 32)
            ob = ib if o["inpl"] else buf(b"\x5a" * (n + 32), n + 32)
            ol = c_int(-1)
            r = C.EVP_CipherUpdate(x, ctypes.addressof(ob), byref(ol), ctypes.cast(ib, ctypes.c_char_p), n)
            if (r == 1) != bool(o["ok"]):
                return bad("text %s" % ("accepted without key or nonce" if r == 1 else "refused"))
            C.ERR_clear_error()
            if r == 1:
                want = xor(d, keystream(R, a, keyb(e, o["key"]), nonce(e, alg, 1, o["iv"]), o["pos"] + n)[o["pos"]:])
                if ol.value != n or ob.raw[:n] != want:
                    return bad("wrong text", got=ob.raw[:n], expected=want)
                if ob.raw[n:] != (b"\xa5" if o["inpl"] else b"\x5a") * 32:
                    return bad("wrote past the buffer")
        elif op == "fin":
            ob = buf(64); ol = c_int(0)
            r = C.EVP_CipherFinal_ex(x, ob, byref(ol))
            if (r == 1) != (o["res"] in ("tag", "ok")):
                return bad("final %s" % ("succeeded" if r == 1 else "failed"), expected=o["res"])
            C.ERR_clear_error()
            if o["res"] == "tag":
                # the text given in pieces, encrypted, then authenticated
                A = b"".join(data(e.seed, "in", jid, c["id"] - 1, c["n"]) for c in o["ach"])
                P = b"".join(data(e.seed, "in", jid, c["id"] - 1, c["n"]) for c in o["mch"])
                n = nonce(e, alg, 1, o["iv"])
                Ct = xor(P, keystream(R, a, keyb(e, o["key"]), n, len(P)))
                tags[i + 1] = mgm_tag(R, a, keyb(e, o["key"]), n, A, Ct)
                tb = buf(B)
                if C.EVP_CIPHER_CTX_ctrl(x, GET_TAG, B, ctypes.addressof(tb)) <= 0 or tb.raw != tags[i + 1]:
                    return bad("wrong tag", got=tb.raw, expected=tags[i + 1])
        elif op == "gettag":
            tb = buf(b"\x5a" * 64, 64)
            r = C.EVP_CIPHER_CTX_ctrl(x, GET_TAG, o["n"], ctypes.addressof(tb))
            if (r > 0) != bool(o["ok"]):
                return bad("tag request returned %d" % r)
            if r > 0 and tb.raw[:o["n"]] != tags[o["from"]][:o["n"]]:
                return bad("wrong tag", got=tb.raw[:o["n"]], expected=tags[o["from"]])
            C.ERR_clear_error()
        elif op == "settag":
            tb = buf(recv()[2] + bytes(32) if o["ok"] else bytes(64), 64)
            r = C.EVP_CIPHER_CTX_ctrl(x, SET_TAG, o["n"], ctypes.addressof(tb))
            if (r > 0) != bool(o["ok"]):
                return bad("setting a tag of %d bytes returned %d" % (o["n"], r))
            C.ERR_clear_error()
        elif op == "copy":
            if o["t"] not in ctxs:
                ctxs[o["t"]] = C.EVP_CIPHER_CTX_new()
            if C.EVP_CIPHER_CTX_copy(ctxs[o["t"]], x) != 1:
                return bad("copy failed")
            st[o["t"]] = dict(t)
        elif op == "free":
            C.EVP_CIPHER_CTX_free(x)
            del ctxs[s]
        elif op == "ivlen":
            r = C.EVP_CIPHER_CTX_ctrl(x, SET_IVLEN, o["n"], None)
            if (r > 0) != bool(o["ok"]):
                return bad("nonce length %d: control returned %d" % (o["n"], r))
            C.ERR_clear_error()
    return None
