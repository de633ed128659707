"""Replay of MacApi.tla into the engine's MACs, both as keyed digests and through EVP_PKEY."""
import ctypes
from lib import evp, ref, modes
from lib.evp import data, buf
from ctypes import c_uint, c_size_t, c_int, byref, c_void_p

MD = {"gmac": ("gost-mac", 3), "gmac12": ("gost-mac-12", 7), "mmac": ("magma-mac", 8), "kmac": ("kuznyechik-mac", 9),
      "kacpkm": ("kuznyechik-ctr-acpkm-omac", 9)}
SET_KEY, XOF_LEN, KEY_MESH = 0x1004, 0x3, 0x20
MAC_LEN = 0x1005     # EVP_PKEY_ALG_CTRL + 5


class Env:
    pass


def setup(paths, seed):
    e = Env(); e.seed = seed
    e.R = ref.get(paths["ref"]); e.eng = evp.load(paths); e.C = e.eng.C
    e.nid = {k: e.C.OBJ_txt2nid(v[0].encode()) for k, v in MD.items()}
    e.md = {k: e.C.ENGINE_get_digest(e.eng.e, e.nid[k]) for k in MD}
    assert all(e.md.values()), e.md
    e.calls = e.macs = 0
    return e


def stats(e):
    return dict(calls=e.calls, macs=e.macs)


def keyb(e, k):
    # printable, so that it can also be given as a string
    return bytes(33 + b % 90 for b in data(e.seed, "mackey", k, 32))


def imit(R, alg, key, m):
    """GOST 28147-89 MAC with CryptoPro meshing: (zero padded blocks; one block gets a second, zero one)"""
    m = m + bytes(-len(m) % 8)
    if len(m) == 8:
        m += bytes(8)
    st = bytes(8)
    for p in range(0, len(m), 1024):
        if p:
            key = R.meshkey(alg, key)
        st = R.imit(alg, key, st, m[p:p + 1024])
    return st


def acpkm_master(R, key, n, T):
    """ACPKM-Master: n bytes of CTR-ACPKM keystream, section T, counter block 1^(n/2)||0"""
    return modes.process(R, "ctr", 9, key, b"\xff" * 8, T, bytes(n), 1)


def omac_acpkm(R, key, m, N, T):
    B = 16
    nb = max(1, -(-len(m) // B))
    nsec = (nb - 1) * B // N + 1
    mat = acpkm_master(R, key, nsec * 48, T)
    st = bytes(B)
    for j in range(nsec):
        k, k1 = mat[48 * j:48 * j + 32], mat[48 * j + 32:48 * j + 48]
        lo, hi = j * N, min((j + 1) * N, (nb - 1) * B)
        if hi > lo:
            st = R.cbc(9, k, st, m[lo:hi], 1)[1]
    last = m[(nb - 1) * B:]
    if len(last) == B:
        x = k1
    else:
        v = int.from_bytes(k1, "big") << 1
        if v >> 128:
            v = (v & ((1 << 128) - 1)) ^ 0x87
        x = v.to_bytes(16, "big")
        last = last + b"\x80" + bytes(B - len(last) - 1)
    t = bytes(a ^ b ^ c for a, b, c in zip(last, x, st))
    return R.E(9, k, t)


def oracle(e, o, m):
    R, g = e.R, o["alg"]
    k = keyb(e, o["key"])
    if g in ("gmac", "gmac12"):
        a = modes.SBOX[o["par"]] if o["par"] else MD[g][1]
        return imit(R, a, k, m)
    if g == "kacpkm":
        return omac_acpkm(R, k, m, o["n"] or 4096, o["t"] or 4096)
    return R.cmac(MD[g][1], k, m)


def run_job(e, job):
    ctx, keep = {}, []
    try:
        return _run(e, job, ctx, keep)
    finally:
        for x in ctx.values():
            e.C.EVP_MD_CTX_free(x)
        for p in keep:
            e.C.EVP_PKEY_free(p)
        e.C.ERR_clear_error()


def make_key(e, o, keep):
    """-> (EVP_PKEY or None, complaint)"""
    C = e.C
    kb = (keyb(e, o["key"]) * 2)[:o["klen"]]
    nid = e.nid[o["alg"]]
    if o["how"] == "new":
        p = C.EVP_PKEY_new_mac_key(nid, e.eng.e, kb, len(kb))
        if p:
            keep.append(p)
        return p, None
    x = C.EVP_PKEY_CTX_new_id(nid, e.eng.e)
    if not x or C.EVP_PKEY_keygen_init(x) != 1:
        return None, "no keygen"
    try:
        if o["how"] == "hex":
            r = C.EVP_PKEY_CTX_ctrl_str(x, b"hexkey", kb.hex().encode())
        elif o["how"] == "str":
            r = C.EVP_PKEY_CTX_ctrl_str(x, b"key", kb)
        else:
            b = buf(kb, 64)
            r = C.EVP_PKEY_CTX_ctrl(x, -1, 4, 6, len(kb), ctypes.addressof(b))
        if (r > 0) != (o["klen"] == 32):
            return None, "key of %d bytes: control returned %d" % (o["klen"], r)
        if o["size"]:
            r = C.EVP_PKEY_CTX_ctrl_str(x, b"size", str(o["size"]).encode())
            if (r > 0) != bool(o["okz"]):
                return None, "size %d: control returned %d" % (o["size"], r)
        if o["par"]:
            if C.EVP_PKEY_CTX_ctrl_str(x, b"paramset", modes.NAMES[o["par"]]) <= 0:
                return None, "paramset refused"
        p = c_void_p(None)
        r = C.EVP_PKEY_keygen(x, byref(p))
        if p.value:
            keep.append(p.value)
        return (p.value if r == 1 else None), None
    finally:
        C.EVP_PKEY_CTX_free(x)


def _run(e, job, ctx, keep):
    C, jid = e.C, job["id"]
    inp, pctx = {}, {}
    for i, o in enumerate(job["ops"]):
        s, op = o["s"], o["op"]
        e.calls += 1

        def bad(why, **kw):
            d = {"step": i, "op": {k: v for k, v in o.items() if k != "seg"}, "why": why, "errors": C.errs()[:3]}
            d.update({k: (v.hex() if isinstance(v, bytes) else v) for k, v in kw.items()})
            return d
        if s not in ctx:
            ctx[s] = C.EVP_MD_CTX_new()
        x = ctx[s]
        if op == "init":
            if not o["again"]:
                C.EVP_MD_CTX_reset(x)
            if C.EVP_DigestInit_ex(x, e.md[o["alg"]], e.eng.e) != 1:
                return bad("init failed")
        elif op == "key":
            kb = (keyb(e, o["key"]) * 3)[:o["len"]]
            b = buf(kb, 80)
            r = C.EVP_MD_CTX_ctrl(x, SET_KEY, o["len"], ctypes.addressof(b))
            if (r > 0) != bool(o["ok"]):
                return bad("key control returned %d" % r)
        elif op == "size":
            if o["route"] == "md":
                r = C.EVP_MD_CTX_ctrl(x, XOF_LEN, o["n"], None)
            else:
                r = C.EVP_PKEY_CTX_ctrl(pctx[s], -1, -1, MAC_LEN, o["n"], None)
            if o["ok"] != 2 and (r > 0) != bool(o["ok"]):
                return bad("size control returned %d" % r)
        elif op == "mesh":
            t = c_int(o["t"])
            r = C.EVP_MD_CTX_ctrl(x, KEY_MESH, o["n"], ctypes.addressof(t) if o["t"] else None)
            if (r > 0) != bool(o["ok"]):
                return bad("section size control returned %d" % r)
        elif op == "pinit":
            C.EVP_MD_CTX_reset(x)
            p, why = make_key(e, o, keep)
            if why:
                return bad(why)
            if bool(p) != bool(o["ok"]):
                return bad("key object %s" % ("made from a key of wrong length" if p else "not made"))
            if p:
                pc = c_void_p(None)
                if C.EVP_DigestSignInit(x, ctypes.addressof(pc), e.md[o["alg"]], e.eng.e, p) != 1:
                    return bad("DigestSignInit failed")
                pctx[s] = pc.value
        elif op == "upd":
            d = data(e.seed, "m", jid, i + 1, o["n"])
            inp[i + 1] = d
            b = buf(d + b"\x77" * 16, len(d) + 16)
            r = C.EVP_DigestUpdate(x, ctypes.cast(b, ctypes.c_char_p), len(d))
            if (r == 1) != bool(o["ok"]) and (len(d) or r != 1):
                return bad("data %s" % ("accepted without a key" if r == 1 else "refused"))
        elif op == "fin":
            ob = buf(b"\x5a" * 96, 96)
            z = o["size"]
            if o["how"] == "fin":
                ol = c_uint(0)
                r = C.EVP_DigestFinal_ex(x, ctypes.addressof(ob), byref(ol))
            elif o["how"] == "xof":
                r = C.EVP_DigestFinalXOF(x, ctypes.addressof(ob), z)
            else:
                sl = c_size_t(96)
                if C.EVP_DigestSignFinal(x, None, byref(sl)) != 1 or sl.value != z:
                    return bad("reported MAC size %d" % sl.value)
                r = C.EVP_DigestSignFinal(x, ctypes.addressof(ob), byref(sl))
                if r == 1 and sl.value != z:
                    return bad("MAC size %d" % sl.value)
            if (r == 1) != bool(o["ok"]):
                return bad("final %s" % ("gave a MAC" if r == 1 else "failed"))
            if r == 1:
                m = b"".join(inp[k] for k, _ in o["seg"])
                w = oracle(e, o, m)[:z]
                e.macs += 1
                if ob.raw[:z] != w:
                    return bad("wrong MAC of %d bytes" % len(m), got=ob.raw[:z], expected=w)
                if ob.raw[z:] != b"\x5a" * (96 - z):
                    return bad("wrote past the MAC")
        elif op == "copy":
            if o["t"] not in ctx:
                ctx[o["t"]] = C.EVP_MD_CTX_new()
            if C.EVP_MD_CTX_copy_ex(ctx[o["t"]], x) != 1:
                return bad("copy failed")
            if s in pctx:
                pctx[o["t"]] = C.EVP_MD_CTX_get_pkey_ctx(ctx[o["t"]])
        elif op == "free":
            C.EVP_MD_CTX_free(x); del ctx[s]
        C.ERR_clear_error()
    return None

