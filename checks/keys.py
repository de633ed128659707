"""Replay of KeyApi.tla: reading, writing, printing, comparing, copying, generating and using keys."""
import ctypes
from ctypes import byref, c_int, c_size_t, c_void_p
from lib import ec
from lib.evp import data, buf
from lib.ec import CURVES, OID, ALG, HASH, tlv, seq, oid, octets, integer
from . import pk

NID = dict(g01=b"1.2.643.2.2.19", g01dh=b"1.2.643.2.2.98", g256=b"1.2.643.7.1.1.1.1", g512=b"1.2.643.7.1.1.1.2")
DIGEST = dict(g01=b"1.2.643.2.2.9", g01dh=b"1.2.643.2.2.9", g256=b"1.2.643.7.1.1.2.2", g512=b"1.2.643.7.1.1.2.3")


def setup(paths, seed):
    e = pk.base(paths, seed)
    e.read = e.refused = e.wrote = 0
    e.rand = pk.Rand(e.C)
    return e


def stats(e):
    return dict(calls=e.calls, read=e.read, refused=e.refused, wrote=e.wrote)


class Job:
    pass


def run_job(e, job):
    j = Job()
    j.slot, j.gen, j.id, j.n = {}, {}, job["id"], 0
    assert e.eng.ctrl("GOST_PK_FORMAT", "RAW")
    try:
        with e.rand:
            e.rand.queue = []
            for i, h in enumerate(job["hist"]):
                j.n = i
                e.calls += 1
                e.C.ERR_clear_error()
                r = globals()["do_" + h["op"]](e, j, h)
                if r:
                    return dict(step=i, event=h, problem=r)
    finally:
        for p in j.slot.values():
            e.C.EVP_PKEY_free(p)
        e.C.ERR_clear_error()


def nid(e, k):
    return e.C.OBJ_txt2nid(NID[k])


def put(e, j, s, p):
    old = j.slot.pop(s, None)
    if p:
        j.slot[s] = p
    if old:
        e.C.EVP_PKEY_free(old)


def priv(e, j, k):
    return j.gen[k["c"]] if k["c"] in j.gen else pk.priv_of(e.seed, (k["t"], k["cv"], k["c"]))


def pub(e, j, k):
    if k["c"] in j.gen:
        c = (j.id, k["c"])
        if c not in pk._p:
            pk._p[c] = CURVES[k["cv"]].mul(j.gen[k["c"]])
        return pk._p[c]
    return pk.pub_of(e.seed, (k["t"], k["cv"], k["c"]))


# ------------------------------------------------------------------ encodings
def canon_params(t, cv):
    big = t == "g512"
    if t in ("g01", "g01dh") or (not big and cv[:2] != "TC") or (big and cv != "512C"):
        return seq(oid(OID[cv]), oid(HASH[t]))
    return seq(oid(OID[cv]))


def alg_id(t, cv, alter, p):
    a = oid(ALG[t])
    c = oid(OID[cv]) if cv in OID else oid("1.2.643.2.2.35.99")
    h = oid(HASH[t])
    if alter == "noParams":
        return seq(a)
    if alter in ("nullParams", "intParams", "emptyParams"):
        return seq(a, dict(nullParams=b"\5\0", intParams=b"\2\1\5", emptyParams=b"\x30\0")[alter])
    if alter == "badCurve":
        return seq(a, seq(oid("1.2.643.2.2.35.%d" % (4 + p % 300)), h))
    if alter == "hashCurve":
        return seq(a, seq(h, c) if p % 2 else seq(h))
    if alter == "noHash":
        return seq(a, seq(c))
    if alter == "otherHash":
        return seq(a, seq(c, oid(("1.2.643.7.1.1.2.3", "1.2.643.2.2.30.0", "1.2.643.7.1.1.2.2", "1.2.840.113549.2.5")[p % 4])))
    if alter == "cipher":
        return seq(a, seq(c, h, oid("1.2.643.2.2.31.1")))
    return seq(a, seq(c, h) if p % 3 else canon_par_seq(t, cv))


def canon_par_seq(t, cv):
    return canon_params(t, cv) if cv in OID else seq(oid("1.2.643.2.2.35.99"))


def cut(b, p, alter):
    if alter == "trunc":
        n = p % len(b)
        return b[:n] if p % 2 else b[:len(b) - 1 - p % 3]
    if alter == "noise":
        i = p % len(b)
        x = bytearray(b)
        x[i] ^= 1 << (p // 7 % 8) if p % 3 else x[i] ^ (0, 0x80, 0xFF, 0x7F)[p % 4]
        return bytes(x)
    return b


def spki(e, j, h):
    E = CURVES[h["cv"]]
    a, p, n = h["alter"], h["p"], CURVES[h["cv"]].size
    x, y = pub(e, j, h)
    le = lambda v: v.to_bytes(n, "little")
    if a == "x+p":
        x = x + E.p if (x + E.p) >> (8 * n) == 0 else (1 << 8 * n) - 1
    if a == "y+p":
        y = y + E.p if (y + E.p) >> (8 * n) == 0 else (1 << 8 * n) - 1
    if a == "ones":
        x, y = ((1 << 8 * n) - 1, y) if p % 2 else (x, (1 << 8 * n) - 1)
    if a == "origin":
        x, y = 0, 0
    if a == "flip":
        if p % 2:
            x ^= 1 << (p // 2 % (8 * n - 8))
        else:
            y ^= 1 << (p // 2 % (8 * n - 8))
    b = le(x) + le(y)
    if a == "swap":
        b = b[n:] + b[:n]
    if a == "short":
        b = b[:-1 - p % 3]
    if a == "long":
        b = b + bytes(1 + p % 3)
    if a == "empty":
        b = b""
    if a == "half":
        b = b[:n] if p % 2 else b[:n // 2] + b[n:n + n // 2]
    if a == "double":
        b = le(x) + bytes(n) + le(y) + bytes(n)
    inner = octets(b)
    if a == "raw":
        inner = b
    if a == "int":
        inner = tlv(2, b"\0" + b)
    return seq(alg_id(h["t2"], h["cv2"], a, p), tlv(3, b"\0", inner))


def masked(e, j, d, E, n, k):
    out = b""
    for i in range(k):
        m = pk.num(e.seed, "mask", j.id, j.n, i) % (E.q - 1) + 1
        if i == 0 and k == 2:
            m = 1 + j.n        # a short mask
        d = d * pow(m, -1, E.q) % E.q
        out += m.to_bytes(n, "little")
    return d.to_bytes(n, "little") + out


def p8(e, j, h):
    E = CURVES[h["cv2"]] if h["alter"] == "otherCurve" else CURVES[h["cv"]]
    a, p, n, f = h["alter"], h["p"], E.size, h["form"]
    d = priv(e, j, h)
    if a == "otherCurve" and f in ("masked", "seq"):
        d = priv(e, j, dict(h, cv=h["cv2"]))
    if f not in ("masked", "seq"):
        d = {"q": E.q, "q+1": E.q + 1, "ones": (1 << 8 * n) - 1}.get(a, d)
    if a == "zero":
        d = 0
    le = d.to_bytes(n, "little")
    if f == "raw":
        b = le
    elif f == "octets":
        v = le
        if a == "len":
            v = (le[:-1], le + b"\0", le + bytes(n), b"", le[:n - 3])[p % 5]
        b = octets(v)
    elif f == "integer":
        b = integer(d)
        if a == "neg":
            b = tlv(2, (-d).to_bytes(n + 1, "big", signed=True))
    else:
        v = masked(e, j, d, E, n, h["nm"])
        if a == "zero" and p % 2 and h["nm"]:
            v = v[:n] and (pk.num(e.seed, "z", j.id) % E.q).to_bytes(n, "little") + bytes(n) + v[2 * n:]
        if f == "masked":
            b = v
        else:
            if a == "len":
                v = (v[:-1], v + b"\1", v[:n - 1])[p % 3]
            if a == "len0":
                v = b""
            tail = b"" if a == "onlyone" else octets(data("p", 2 * n) if p % 2 else b"")
            b = seq(octets(v), tail)
    if len(b) % n == 0 and f in ("integer", "seq"):
        b = octets(le) if f == "integer" or a in ("none",) else b + b"\0"
    if a == "empty":
        b = b""
    if a == "cut":
        b = b[:-1 - p % 5]
        if b and len(b) % n == 0:       # reads as a raw key: the ambiguity of the format
            b = b[:-1]
    if a == "more" and f in ("raw", "masked"):
        b = b + bytes(1 + p % 7)
    elif a in ("more", "tag"):
        b = bytes([(0x0C, 0x03, 0x01, 0x31, 0x05, 0x24)[p % 6]]) + (b[1:] if f not in ("raw", "masked") else b + bytes(1))
    return seq(integer(0), alg_id(h["t2"], h["cv2"], a, p), octets(b), tlv(0xA0, seq(oid("1.2.3.4"), tlv(0x31, octets(b"x")))) if a == "attrs" else b"")


def do_read(e, j, h):
    C = e.C
    put(e, j, h["s"], None)
    if h["kind"] == "par":
        b = oid(OID[h["cv2"]])
        if h["alter"] == "badCurve":
            b = oid("1.2.643.2.2.35.%d" % (4 + h["p"] % 300))
        if h["alter"] == "hashCurve":
            b = oid(HASH[h["t"]])
        if h["alter"] == "notoid":
            b = (b"\5\0", b"\x30\0", b"\2\1\1", seq(b))[h["p"] % 4]
    else:
        b = spki(e, j, h) if h["kind"] == "spki" else p8(e, j, h)
    b = cut(b, h["p"], h["alter"])
    q = buf(b, len(b) or 1)
    ptr = c_void_p(ctypes.addressof(q))
    if h["kind"] == "par":
        r = C.d2i_KeyParams(nid(e, h["t2"]), None, byref(ptr), len(b))
    else:
        if h["kind"] == "p8" and (h["alter"] == "attrs" or h["p"] % 2):    # the automatic recognition of libcrypto knows no attributes
            i = C.d2i_PKCS8_PRIV_KEY_INFO(None, byref(ptr), len(b))
            r = i and C.EVP_PKCS82PKEY(i)
            if i:
                C.PKCS8_PRIV_KEY_INFO_free(i)
        else:
            r = (C.d2i_PUBKEY if h["kind"] == "spki" else C.d2i_AutoPrivateKey)(None, byref(ptr), len(b))
    if h["ok"] == 2:
        if r:     # whatever it is, it is written and read as one and the same key
            if h["kind"] != "par":
                d1 = der(e, r, h["kind"])
                k2 = d1 and pk.d2i(C, C.d2i_PUBKEY if h["kind"] == "spki" else C.d2i_AutoPrivateKey, d1)
                same = k2 and C.EVP_PKEY_eq(r, k2) == 1
                if k2:
                    C.EVP_PKEY_free(k2)
                if not same:
                    C.EVP_PKEY_free(r)
                    return "a key that was read is not written and read back as itself: %s" % b.hex()
            C.EVP_PKEY_free(r)
        return
    if bool(r) != bool(h["ok"]):
        if r:
            C.EVP_PKEY_free(r)
        return ("accepted: " if r else "refused: ") + b.hex() + " " + str(C.errs()[:2])
    e.read += h["ok"]
    e.refused += 1 - h["ok"]
    put(e, j, h["s"], r)


def der(e, key, kind):
    C = e.C
    if kind == "p8":
        p = C.EVP_PKEY2PKCS8(key)
        if not p:
            return None
        o = c_void_p()
        n = C.i2d_PKCS8_PRIV_KEY_INFO(p, byref(o))
        C.PKCS8_PRIV_KEY_INFO_free(p)
    else:
        o = c_void_p()
        n = (C.i2d_PUBKEY if kind == "spki" else C.i2d_KeyParams)(key, byref(o))
    if n <= 0 or not o.value:
        return None
    b = ctypes.string_at(o.value, n)
    C.free(o)
    return b


def expected(e, j, kind, k, legacy):
    if kind == "par":
        return oid(OID[k["cv"]])
    E = CURVES[k["cv"]]
    al = seq(oid(ALG[k["t"]]), canon_params(k["t"], k["cv"]))
    if kind == "spki":
        return seq(al, tlv(3, b"\0", octets(E.xy(pub(e, j, k)))))
    d = priv(e, j, k).to_bytes(E.size, "little")
    return seq(integer(0), al, octets(octets(d) if legacy else d))


def do_write(e, j, h):
    e.wrote += 1
    b = der(e, j.slot[h["s"]], h["kind"])
    if not h["ok"]:
        return "written though the part is missing: " + b.hex() if b else None
    w = expected(e, j, h["kind"], h["key"], h["legacy"])
    if b != w:
        return "written %s, expected %s" % (b and b.hex(), w.hex())


def do_carry(e, j, h):
    C = e.C
    k = j.slot[h["s"]]
    if j.n % 2:
        b = der(e, k, "spki" if h["pub"] else "p8")
        r = b and pk.d2i(C, C.d2i_PUBKEY if h["pub"] else C.d2i_AutoPrivateKey, b)
    else:
        m = C.BIO_new(C.BIO_s_mem())
        if h["pub"]:
            ok = C.PEM_write_bio_PUBKEY(m, k)
            r = ok == 1 and C.PEM_read_bio_PUBKEY(m, None, None, None)
        else:
            ok = C.PEM_write_bio_PrivateKey(m, k, None, None, 0, None, None)
            r = ok == 1 and C.PEM_read_bio_PrivateKey(m, None, None, None)
        C.BIO_free(m)
    if not r:
        return "a key the engine wrote is not read back: " + str(C.errs()[:3])
    if C.EVP_PKEY_eq(k, r) != 1:
        C.EVP_PKEY_free(r)
        return "a key read back is not equal to the key written"
    put(e, j, h["r"], r)


def do_format(e, j, h):
    if not e.eng.ctrl("GOST_PK_FORMAT", h["val"]):
        return "format not set"


def do_bare(e, j, h):
    p = e.C.EVP_PKEY_new()
    assert e.C.EVP_PKEY_set_type(p, nid(e, h["t"]))
    put(e, j, h["s"], p)


def do_copypar(e, j, h):
    r = e.C.EVP_PKEY_copy_parameters(j.slot[h["s"]], j.slot[h["r"]])
    if (r > 0) != bool(h["ok"]):
        return "copying parameters answered %d" % r


def do_gen(e, j, h):
    C = e.C
    c = C.EVP_PKEY_CTX_new(j.slot[h["s"]], None)
    assert c
    o = c_void_p()
    ok = C.EVP_PKEY_keygen_init(c) > 0 and C.EVP_PKEY_keygen(c, byref(o)) > 0
    C.EVP_PKEY_CTX_free(c)
    if not ok:
        return "no key generated: " + str(C.errs()[:3])
    k = h["key"]
    E = CURVES[k["cv"]]
    b = C.EC_KEY_get0_private_key(C.EVP_PKEY_get0(o))
    o2 = buf(80)
    assert b
    C.BN_bn2binpad(b, o2, 80)
    d = int.from_bytes(o2.raw, "big")
    put(e, j, h["r"], o.value)
    if not 0 < d < E.q:
        return "generated private key out of range"
    j.gen[k["c"]] = d


def do_eq(e, j, h):
    C = e.C
    a, b = j.slot[h["s"]], j.slot[h["r"]]
    for x, y in ((a, b), (b, a)):
        r = C.EVP_PKEY_eq(x, y)
        if (r == 1) != bool(h["ok"]):
            return "comparison of keys answered %d" % r
        r = C.EVP_PKEY_parameters_eq(x, y)
        if (r == 1) != bool(h["par"]):
            return "comparison of parameters answered %d" % r


def do_use(e, j, h):
    C = e.C
    d = data("use", j.id, j.n, h["n"])
    c = C.EVP_PKEY_CTX_new(j.slot[h["s"]], None)
    s = buf(128)
    n = c_size_t(128)
    ok = C.EVP_PKEY_sign_init(c) > 0 and C.EVP_PKEY_sign(c, s, byref(n), d, len(d)) > 0
    C.EVP_PKEY_CTX_free(c)
    if not ok or n.value != 2 * h["n"]:
        return "no signature: " + str(C.errs()[:3])
    c = C.EVP_PKEY_CTX_new(j.slot[h["r"]], None)
    ok = C.EVP_PKEY_verify_init(c) > 0 and C.EVP_PKEY_verify(c, s.raw[:n.value], n.value, d, len(d)) == 1
    C.EVP_PKEY_CTX_free(c)
    if ok != bool(h["ok"]):
        return "signature %s by the other key" % ("accepted" if ok else "refused")


def do_info(e, j, h):
    C = e.C
    p, t = j.slot[h["s"]], h["key"]["t"]
    md = c_int()
    got = [C.EVP_PKEY_get_base_id(p), C.EVP_PKEY_get_bits(p), C.EVP_PKEY_get_security_bits(p), C.EVP_PKEY_get_size(p),
           C.EVP_PKEY_missing_parameters(p), C.EVP_PKEY_get_default_digest_nid(p, byref(md)), md.value]
    exp = [nid(e, t), h["bits"], h["bits"], h["bits"] // 4, h["missing"], 2, C.OBJ_txt2nid(DIGEST[t])]
    if got != exp:
        return "type, bits, security bits, size, missing parameters, digest: %r, expected %r" % (got, exp)
    if h["key"]["k"] in ("pub", "priv", "par"):
        g = C.EC_KEY_get0_group(C.EVP_PKEY_get0(p))
        n = C.EC_GROUP_get_curve_name(g)
        if n != C.OBJ_txt2nid(OID[h["key"]["cv"]].encode()):
            return "parameter set %s instead of %s" % (C.OBJ_nid2sn(n), h["key"]["cv"])


def do_check(e, j, h):
    C = e.C
    c = C.EVP_PKEY_CTX_new(j.slot[h["s"]], None)
    if not c:
        return "no context for a key with parameters"
    r, u = C.EVP_PKEY_check(c), C.EVP_PKEY_public_check(c)
    C.EVP_PKEY_CTX_free(c)
    if (r == 1) != bool(h["ok"]) or (u == 1) != bool(h["ok"]):
        return "key check answered %d, %d" % (r, u)


def do_print(e, j, h):
    C = e.C
    k, w, ind = h["key"], h["what"], h["indent"]
    m = C.BIO_new(C.BIO_s_mem())
    r = dict(params=C.EVP_PKEY_print_params, public=C.EVP_PKEY_print_public, private=C.EVP_PKEY_print_private)[w](m, j.slot[h["s"]], ind, None)
    b = buf(4000)
    n = C.BIO_read(m, b, 4000)
    C.BIO_free(m)
    out = b.raw[:max(n, 0)].decode()
    if w == "params" and k["t"] in ("g256", "g512"):
        return        # these have no parameter printing
    sp = " " * ind
    full = k["k"] in ("pub", "priv")
    ok = full or (w == "params" and k["k"] == "par")
    if (r > 0) != ok:
        return "printing answered %d" % r
    if not ok:
        return
    exp = ""
    if w == "private":
        exp += sp + "Private key: " + ("%X" % priv(e, j, k) if k["k"] == "priv" else "<undefined>") + "\n"
    if w != "params":
        x, y = pub(e, j, k)
        exp += sp + "Public key:\n" + sp + "   X:%X\n" % x + sp + "   Y:%X\n" % y
    exp += sp + "Parameter set: " + C.OBJ_nid2ln(C.OBJ_txt2nid(OID[k["cv"]].encode())).decode() + "\n"
    if out != exp:
        return "printed %r, expected %r" % (out, exp)
