"""Replay of SignApi.tla: EVP_PKEY_sign/verify, EVP_DigestSign/Verify, key generation."""
import ctypes
from ctypes import byref, c_size_t, c_void_p
from lib.evp import data, buf
from lib.ec import CURVES, OID
from . import pk

NIDS = {94: b"1.2.643.2.2.9", 256: b"1.2.643.7.1.1.2.2", 512: b"1.2.643.7.1.1.2.3"}
PARAMSET = 0x1000 + 1


def setup(paths, seed):
    e = pk.base(paths, seed)
    e.made = e.accepted = e.refused = 0
    e.kg = {}
    C = e.C
    e.md = {k: C.EVP_get_digestbyname(v) for k, v in
            ((94, b"md_gost94"), (256, b"md_gost12_256"), (512, b"md_gost12_512"))}
    e.rand = pk.Rand(C)
    return e


def stats(e):
    return dict(calls=e.calls, made=e.made, accepted=e.accepted, refused=e.refused)


class Job:
    pass


def run_job(e, job):
    j = Job()
    j.ctx, j.md, j.gen, j.sigs, j.id = {}, {}, {}, [], job["id"]
    try:
        with e.rand:
            e.rand.queue = []
            return _run(e, job, j)
    finally:
        for c in j.ctx.values():
            e.C.EVP_PKEY_CTX_free(c)
        for c in j.md.values():
            e.C.EVP_MD_CTX_free(c)
        for c in j.gen.values():
            e.C.EVP_PKEY_free(c[0])
        e.C.ERR_clear_error()


def hashnid(k):
    return {"g512": 512, "g256": 256}.get(k[0], 94)


def priv(e, j, k):
    return j.gen[k[2]][1] if k[2] in j.gen else pk.priv_of(e.seed, k)


def pub(e, j, k):
    return j.gen[k[2]][2] if k[2] in j.gen else pk.pub_of(e.seed, k)


def key(e, j, k, pr):
    if k[2] in j.gen:
        g = j.gen[k[2]]
        if pr and g[3] == k[:2]:
            return g[0]
        # the same number under another name or as a public key: through its encoding
        c = (k[2], k[0], k[1], pr)
        if c not in j.gen:
            from lib import ec
            E = CURVES[k[1]]
            if pr:
                r = pk.d2i(e.C, e.C.d2i_AutoPrivateKey, ec.pkcs8(k[0], k[1], ec.priv_inner(E, g[1])))
            else:
                r = pk.d2i(e.C, e.C.d2i_PUBKEY, ec.spki(k[0], k[1], E.xy(g[2])))
            assert r
            j.gen[c] = (r,)
        return j.gen[c][0]
    return pk.key(e, k, pr)


def knum(e, j, i, E):
    return pk.num(e.seed, "k", j.id, i) % (E.q - 1) + 1


def message(e, j, mid, n):
    return data(e.seed, "msg", j.id, mid, 4096)[:n]


def digest(e, j, d, k):
    """the bytes of a digest token, for key k"""
    E = CURVES[k[1]]
    t, i, n = d["t"], d["i"], d["n"]
    le = lambda v: v.to_bytes(max(n, 1), "little")[:n]
    v = int.from_bytes(data(e.seed, "v", j.id, i, 31), "little")
    if t == "rand":
        return data(e.seed, "dig", j.id, i, n, n)
    if t in ("zero", "one"):
        return le(int(t == "one"))
    if t in ("q", "q1"):
        return le(E.q + (t == "q1"))
    if t == "v":
        return le(v)
    if t == "vq":
        return le(v + E.q)
    if t == "ff":
        return b"\xff" * n
    if t == "hash":
        c = (j.id, i, d["a"], d["m"])
        if c not in e.kg:
            if len(e.kg) > 3000:
                e.kg.clear()
            e.kg[c] = pk.digest(e.R, d["a"], message(e, j, i, d["m"]))
        return e.kg[c]
    K = d["k"]
    E = CURVES[K[1]]
    if t == "s0":
        kk = knum(e, j, i, E)
        r = E.mul(kk)[0] % E.q
        return le(-r * priv(e, j, K) * pow(kk, -1, E.q) % E.q)
    return le(j.sigs[i - 1][3])     # fit: the digest that belongs to the signature


def other(e, j, o, n):
    """a signature made by the oracle: (key, r, s, e)"""
    k = o["key"]; E = CURVES[k[1]]; q = E.q; d = priv(e, j, k); m = o["mode"]
    kk = knum(e, j, 100 + n, E)
    if m == "kone":
        kk = 1
    if m == "ktwo":
        kk = 2
    if m == "kminus":
        kk = q - 1
    if m == "leadr":
        P = E.mul(kk)
        for _ in range(1200):
            if (P[0] % q) >> (8 * E.size - 8) == 0 and P[0] % q:
                break
            P = E.add(P, E.g); kk += 1
        kk %= q
    while True:
        r = E.mul(kk)[0] % q
        if o["d"]["t"] == "fit":
            if m == "dbl":
                ee = -2 * r * d * pow(kk, -1, q) % q
            elif m in ("szero", "sq"):
                ee = -r * d * pow(kk, -1, q) % q
            else:
                s = {"sone": 1, "sminus": q - 1, "slead": pk.num(e.seed, "slead", n) % (1 << (8 * E.size - 24))}[m] or 1
                ee = (s - r * d) * pow(kk, -1, q) % q
        else:
            ee = E.e_of(digest(e, j, o["d"], k))
        s = (r * d + kk * ee) % q
        if m in ("szero", "sq") and r and ee:
            s = 0 if m == "szero" else q
            break
        if r and s and ee:
            break
        kk = kk % (q - 1) + 1
        m = "rand" if m in ("kone", "kminus", "ktwo") else m
    return k, r, s, ee


def alter(e, j, o, sig):
    k, r, s, _ = sig
    E = CURVES[o["key"][1]]; q = E.q; n = E.size; a, p = o["alter"], o["p"]
    n0 = CURVES[k[1]].size
    b = s.to_bytes(n0, "big") + r.to_bytes(n0, "big")
    if a == "none":
        return b
    top = 1 << (8 * n)
    E0 = CURVES[k[1]]; q = E0.q; n = n0; top = 1 << (8 * n)
    pk_ = lambda rr, ss: ss.to_bytes(n, "big") + rr.to_bytes(n, "big")
    if a == "flip":
        i = p % (16 * n)
        c = bytearray(b); c[i // 8] ^= 1 << (i % 8)
        return bytes(c)
    if a == "swap":
        return b[n:] + b[:n] if r != s else b""
    if a in ("r+q", "s+q"):
        m = 1 + p % 3
        while m and (r if a[0] == "r" else s) + m * q >= top:
            m -= 1
        if not m:
            return pk_(q, s) if a[0] == "r" else pk_(r, q)
        return pk_(r + m * q, s) if a[0] == "r" else pk_(r, s + m * q)
    if a == "r=0":
        return pk_(0, s)
    if a == "s=0":
        return pk_(r, 0)
    if a == "zero":
        return bytes(2 * n)
    if a == "r=q":
        return pk_(q, s)
    if a == "s=q":
        return pk_(r, q)
    if a == "-s":
        return pk_(r, q - s)
    if a == "-r":
        return pk_(q - r, s)
    if a == "-r-s":
        return pk_(q - r, q - s)
    if a == "cut1":
        return b[:-1]
    if a == "cuthalf":
        return b[:n]
    if a == "cuthead":
        return b[1:]
    if a == "empty":
        return b""
    if a == "more":
        return b + bytes([p % 256])
    if a == "wide":
        return bytes(n) + b[:n] + bytes(n) + b[n:]
    if a == "prefix":
        return bytes(1 + p % 64) + b
    if a == "twice":
        return b + b
    if a == "inf":      # the combination is the point at infinity
        x = (r, 1, q - 1, E0.g[0] % q or 1)[p % 4]
        return pk_(x, x * priv(e, j, o["key"]) % q) if CURVES[o["key"][1]].q == q else bytes(2 * n)
    if a == "short":
        return b[:p % (2 * n)]
    if a == "rev":
        return b[::-1]
    if a == "ones":
        return b"\xff" * (2 * n)
    if a == "other":
        return pk_(pk.num(e.seed, "o", p) % (q - 1) + 1, pk.num(e.seed, "oo", p) % (q - 1) + 1)
    raise ValueError(a)


def verdict(e, j, o, sb):
    """the oracle's own word on a signature that the specification calls wrong"""
    E = CURVES[o["key"][1]]; n = E.size
    dg = digest(e, j, o["d"], o["key"])
    if len(sb) != 2 * n or len(dg) not in (32, 64):
        return False
    return E.verify(pub(e, j, o["key"]), dg, int.from_bytes(sb[n:], "big"), int.from_bytes(sb[:n], "big"))


def made(e, j, o, out, n):
    """a signature that came out of the engine; a complaint or None"""
    k = o["key"]; E = CURVES[k[1]]; q = E.q
    if n != 2 * E.size:
        return "signature of %d bytes" % n
    s, r = int.from_bytes(out[:E.size], "big"), int.from_bytes(out[E.size:n], "big")
    j.sigs.append((k, r, s, 0))
    if not (0 < r < q and 0 < s < q):
        return "signature out of range"
    kk = (s - r * priv(e, j, k)) * pow(E.e_of(digest(e, j, o["d"], k)), -1, q) % q
    if kk == 0:
        return "signature gives the key away"
    P = E.mul(kk)
    if P is None or P[0] % q != r:
        return "not a signature of this digest"
    e.made += 1
    return None


def script(e, j, o):
    E = CURVES[o["key"][1]]; q = E.q
    out = []
    for x in o["rnd"]:
        if x == "s0":
            # with this number s would be 0
            out.append(knum(e, j, o["d"]["i"], E))
        else:
            out.append({"zero": 0, "one": 1, "minus": q - 1, "q": q, "big": q - 12345, "small": 77, "fail": "fail"}[x])
    e.rand.queue = out


def bn(C, p):
    n = (C.BN_num_bits(p) + 7) // 8
    b = buf(b"", max(n, 1))
    C.BN_bn2bin(p, ctypes.addressof(b))
    return int.from_bytes(b.raw[:n], "big")


def _run(e, job, j):
    C = e.C
    ctx, md = j.ctx, j.md

    def drop(s):
        if s in ctx:
            C.EVP_PKEY_CTX_free(ctx.pop(s))
        if s in md:
            C.EVP_MD_CTX_free(md.pop(s))
    for i, o in enumerate(job["hist"]):
        s, op = o.get("s"), o["op"]
        e.calls += 1
        e.rand.queue = []

        def bad(w, **kw):
            return dict(step=i, op=o, why=w, errs=C.errs()[:3], **{k: (v.hex() if isinstance(v, bytes) else v) for k, v in kw.items()})
        if op == "open":
            drop(s)
            c = ctx[s] = C.EVP_PKEY_CTX_new(key(e, j, o["key"], o["priv"]), e.eng.e)
            if not c or (C.EVP_PKEY_verify_init if o["v"] else C.EVP_PKEY_sign_init)(c) != 1:
                return bad("init failed")
        elif op == "dopen":
            drop(s)
            c = md[s] = C.EVP_MD_CTX_new()
            h = hashnid(o["key"])
            m = {"right": e.md[h], "null": None, "wrong": e.md[{94: 256, 256: 512, 512: 94}[h]]}[o["md"]]
            r = (C.EVP_DigestVerifyInit if o["v"] else C.EVP_DigestSignInit)(c, None, m, e.eng.e, key(e, j, o["key"], o["priv"]))
            if (r == 1) != bool(o["ok"]):
                return bad("init: %d" % r)
            if not o["ok"]:
                drop(s)
        elif op == "ask":
            n = c_size_t(7)
            r = C.EVP_PKEY_sign(ctx[s], None, byref(n), None, 32)
            if r != 1 or n.value != o["n"]:
                return bad("length query: %d, %d" % (r, n.value))
        elif op == "dup":
            t = o["t"]
            drop(t)
            if o["msg"]:
                md[t] = C.EVP_MD_CTX_new()
                if C.EVP_MD_CTX_copy_ex(md[t], md[s]) != 1:
                    return bad("copy failed")
            else:
                ctx[t] = C.EVP_PKEY_CTX_dup(ctx[s])
                if not ctx[t]:
                    del ctx[t]
                    return bad("copy failed")
        elif op in ("sign", "dsign"):
            n0 = 2 * CURVES[o["key"][1]].size
            room = n0 + {"exact": 0, "more": 30, "less": -1 - i % 5}[o.get("room", "exact")]
            out = buf(b"\x5a" * 200, 200); n = c_size_t(room)
            script(e, j, o)
            if op == "sign":
                dg = digest(e, j, o["d"], o["key"])
                r = C.EVP_PKEY_sign(ctx[s], ctypes.addressof(out), byref(n), dg, len(dg))
            else:
                r = C.EVP_DigestSignFinal(md[s], ctypes.addressof(out), byref(n))
            left = list(e.rand.queue); e.rand.queue = []
            if (r == 1) != bool(o["ok"]) and not ("fail" in o["rnd"] and "fail" in left):
                return bad("signing: %d" % r)
            if out.raw[room:] != b"\x5a" * (200 - room):
                return bad("bytes written behind the buffer")
            if r == 1:
                w = made(e, j, o, out.raw, n.value)
                if w:
                    return bad(w, sig=out.raw[:n.value])
        elif op == "other":
            j.sigs.append(None)
            j.sigs[-1] = other(e, j, o, len(j.sigs))
        elif op in ("verify", "dverify"):
            sb = alter(e, j, o, j.sigs[o["g"] - 1])
            b = buf(sb, max(1, len(sb)))
            if op == "verify":
                dg = digest(e, j, o["d"], o["key"])
                r = C.EVP_PKEY_verify(ctx[s], sb, len(sb), dg, len(dg))
            else:
                r = C.EVP_DigestVerifyFinal(md[s], sb, len(sb))
            if (r == 1) != bool(o["ok"]):
                if r == 1 and verdict(e, j, o, sb):
                    e.accepted += 1     # a chance collision: the equation does hold
                else:
                    return bad("verification: %d" % r, sig=sb)
            elif r == 1:
                e.accepted += 1
            else:
                e.refused += 1
        elif op == "feed":
            m = message(e, j, o["mid"], o["off"] + o["n"])[o["off"]:]
            b = buf(m, max(1, len(m)))
            if C.EVP_DigestUpdate(md[s], m, len(m)) != 1:
                return bad("update failed")
        elif op == "gen":
            k = o["key"]; E = CURVES[k[1]]
            from lib.ec import ALG
            c = C.EVP_PKEY_CTX_new_id(C.OBJ_txt2nid(ALG[k[0]].encode()), e.eng.e)
            p = c_void_p()
            try:
                if not c or C.EVP_PKEY_keygen_init(c) != 1 or C.EVP_PKEY_CTX_ctrl(c, -1, -1, PARAMSET, C.OBJ_txt2nid(OID[k[1]].encode()), None) != 1:
                    return bad("parameters for a new key")
                script(e, j, o)
                r = C.EVP_PKEY_keygen(c, byref(p))
                left = list(e.rand.queue); e.rand.queue = []
                if (r == 1) != bool(o["ok"]) and not ("fail" in o["rnd"] and "fail" in left):
                    return bad("key generation: %d" % r)
                if r == 1:
                    eck = C.EVP_PKEY_get0(p)
                    d = bn(C, C.EC_KEY_get0_private_key(eck))
                    x, y = C.BN_new(), C.BN_new()
                    ok = C.EC_POINT_get_affine_coordinates(C.EC_KEY_get0_group(eck), C.EC_KEY_get0_public_key(eck), x, y, None)
                    P = (bn(C, x), bn(C, y)) if ok == 1 else None
                    C.BN_free(x); C.BN_free(y)
                    j.gen[k[2]] = (p.value, d, E.mul(d) if 0 < d < E.q else None, k[:2])
                    p = c_void_p()
                    if not 0 < d < E.q:
                        return bad("private key out of range")
                    if P != E.mul(d):
                        return bad("public key does not belong to the private key")
                    ctx_ = C.EVP_PKEY_CTX_new(j.gen[k[2]][0], e.eng.e)
                    drop(1)
                    ctx[1] = ctx_
                    if C.EVP_PKEY_sign_init(ctx_) != 1:
                        return bad("init failed")
            finally:
                C.EVP_PKEY_CTX_free(c)
                if p.value:
                    C.EVP_PKEY_free(p)
        C.ERR_clear_error()
    return None
