"""Replay of ParamNames.tla: naming parameter sets, generating keys."""
import ctypes
from ctypes import byref, c_int, c_size_t, c_void_p, c_char_p
from lib import ec
from lib.evp import data, buf
from lib.ec import CURVES, OID, ALG, HASH, tlv, seq, oid
from . import pk, keys
from .ciphers import header_const

LETTER = {"A": "A", "B": "B", "C": "C", "XA": "XA", "XB": "XB", "test": "0", "TCA": "TCA", "TCB": "TCB", "TCC": "TCC", "TCD": "TCD",
          "512A": "A", "512B": "B", "512C": "C"}
# the names OpenSSL's object table gives the sets
SN = {"test": "id-GostR3410-2001-TestParamSet", "A": "id-GostR3410-2001-CryptoPro-A-ParamSet", "B": "id-GostR3410-2001-CryptoPro-B-ParamSet",
      "C": "id-GostR3410-2001-CryptoPro-C-ParamSet", "XA": "id-GostR3410-2001-CryptoPro-XchA-ParamSet", "XB": "id-GostR3410-2001-CryptoPro-XchB-ParamSet",
      "TCA": "id-tc26-gost-3410-2012-256-paramSetA", "TCB": "id-tc26-gost-3410-2012-256-paramSetB", "TCC": "id-tc26-gost-3410-2012-256-paramSetC",
      "TCD": "id-tc26-gost-3410-2012-256-paramSetD", "512A": "id-tc26-gost-3410-2012-512-paramSetA", "512B": "id-tc26-gost-3410-2012-512-paramSetB",
      "512C": "id-tc26-gost-3410-2012-512-paramSetC", "512test": "id-tc26-gost-3410-2012-512-paramSetTest"}
JUNK = {"empty": b"", "a0": b"A0", "sbox": b"1.2.643.2.2.31.1", "digest": b"1.2.643.2.2.9", "unknownoid": b"1.2.643.2.2.35.77", "nextoid": b"1.2.643.2.2.35.4",
        "arc": b"1.2.643.2.2.35", "space": b" ", "spaceafter": b"A ", "high": b"\xc1", "hex": b"0x41", "long": b"A" * 300, "at": b"@",
        "512A": b"512A", "negative": b"-1"}
NIDS = {"undef": 0, "negative": -1, "huge": 1 << 30}


def setup(paths, seed):
    e = pk.base(paths, seed)
    e.PARAMSET = 0x1000 + 1
    e.named = e.refused = e.made = 0
    return e


def stats(e):
    return dict(calls=e.calls, named=e.named, refused=e.refused, keys=e.made)


def run_job(e, job):
    ctxs, ks = {}, []
    try:
        for i, h in enumerate(job["hist"]):
            e.calls += 1
            e.C.ERR_clear_error()
            r = globals()["do_" + h["op"]](e, job, i, h, ctxs, ks)
            if r:
                return dict(step=i, event=h, problem=r, errors=e.C.errs()[:3])
    finally:
        for c in ctxs.values():
            e.C.EVP_PKEY_CTX_free(c[0])
        for k in ks:
            e.C.EVP_PKEY_free(k[0])
        e.C.ERR_clear_error()


def put(e, ctxs, s, c):
    if s in ctxs:
        e.C.EVP_PKEY_CTX_free(ctxs[s][0])
    ctxs[s] = c


def do_new(e, job, i, h, ctxs, ks):
    C = e.C
    x = C.EVP_PKEY_CTX_new(ks[h["from"] - 1][0], e.eng.e) if h["from"] else C.EVP_PKEY_CTX_new_id(keys.nid(e, h["t"]), e.eng.e)
    if not x:
        return "no context"
    if h["dup"]:
        y = C.EVP_PKEY_CTX_dup(x)
        C.EVP_PKEY_CTX_free(x)
        if not y:
            return "copy of the context failed"
        x = y
    put(e, ctxs, h["s"], [x, None])
    if (C.EVP_PKEY_paramgen_init if h["how"] == "param" else C.EVP_PKEY_keygen_init)(x) != 1:
        return "init failed"


def do_name(e, job, i, h, ctxs, ks):
    C, c = e.C, ctxs[h["s"]]
    x, f, cv = c[0], h["form"], h["cv"]
    cmd = b"paramset"
    if f == "nid":
        n = NIDS[cv] if cv in NIDS else C.OBJ_txt2nid(OID[cv].encode()) if cv in OID else C.OBJ_txt2nid(b"1.2.643.2.2.31.1" if cv == "sbox" else b"1.2.643.7.1.1.1.1")
        r = C.EVP_PKEY_CTX_ctrl(x, -1, -1, e.PARAMSET, n, None)
        if h["ok"] == 2:
            # refused at once: the previous set stays;  accepted: nothing can be generated any more
            if r <= 0 and c[1] is None:
                c[1] = h["prev"]
            elif r > 0:
                c[1] = "never"
    else:
        if f == "letter" or f == "wrong":
            v = LETTER.get(cv, cv)
            v = v.lower() if h["sp"] == "lower" else v[0] + v[1:].lower() if h["sp"] == "mixed" else v
        elif f == "oid":
            v = OID[cv]
        elif f == "sn":
            v = SN[cv]
        elif f == "ln":
            v = C.OBJ_nid2ln(C.OBJ_txt2nid(OID[cv].encode())).decode()
        else:
            v = JUNK.get(cv, cv)
        if isinstance(v, str):
            v = v.encode()
        if cv == "othercmd":
            cmd, v = b"paramsets", b"A"
        r = C.EVP_PKEY_CTX_ctrl_str(x, cmd, v)
    if h["ok"] < 2:
        if (r > 0) != bool(h["ok"]):
            return "%s (%d)" % ("a name that is no name for this key was accepted" if r > 0 else "name refused", r)
        if h["ok"]:
            c[1] = None
    if r > 0:
        e.named += 1
    else:
        e.refused += 1


def i2d(C, f, k):
    p = c_void_p(None)
    n = f(k, byref(p))
    if n <= 0:
        return b""
    b = ctypes.string_at(p.value, n)
    C.free(p)
    return b


def num(C, b):
    t = buf(100)
    n = C.BN_bn2bin(b, t)
    return int.from_bytes(t.raw[:n], "big")


def curve_problem(e, k, cv):
    """is this key's group exactly the standard's curve?"""
    C, E = e.C, CURVES[cv]
    K = C.EVP_PKEY_get0(k)
    G = C.EC_KEY_get0_group(K)
    if not G:
        return "no group"
    b = [C.BN_new() for _ in range(5)]
    try:
        C.EC_GROUP_get_curve(G, b[0], b[1], b[2], None)
        C.EC_POINT_get_affine_coordinates(G, C.EC_GROUP_get0_generator(G), b[3], b[4], None)
        g = lambda q: num(C, q)
        got = dict(p=g(b[0]), a=g(b[1]), b=g(b[2]), x=g(b[3]), y=g(b[4]), q=g(C.EC_GROUP_get0_order(G)), h=g(C.EC_GROUP_get0_cofactor(G)))
    finally:
        for q in b:
            C.BN_free(q)
    want = dict(p=E.p, a=E.a % E.p, b=E.b % E.p, x=E.g[0], y=E.g[1], q=E.q, h=E.h)
    for n in want:
        if got[n] != want[n]:
            return "%s is %x, not %x" % (n, got[n], want[n])
    if C.EC_GROUP_get_curve_name(G) != C.OBJ_txt2nid(OID[cv].encode()):
        return "the group is named %s" % C.OBJ_nid2sn(C.EC_GROUP_get_curve_name(G))


def do_gen(e, job, i, h, ctxs, ks):
    C, c = e.C, ctxs[h["s"]]
    p = c_void_p(None)
    r = (C.EVP_PKEY_paramgen if h["how"] == "param" else C.EVP_PKEY_keygen)(c[0], byref(p))
    k = p.value
    if h["cv"] == "bad" and c[1] not in (None, "never", "", "bad"):      # the control refused: the previous set
        if r != 1:
            return "the context was left unusable by a refused name"
        q = curve_problem(e, k, c[1])
        C.EVP_PKEY_free(k)
        return q
    if (r == 1) != bool(h["ok"]):
        return "generated without a parameter set" if r == 1 else "generation failed (%d)" % r
    if r != 1:
        return None
    ks.append((k, h["t"], h["cv"]))
    e.made += 1
    if C.EVP_PKEY_get_base_id(k) != keys.nid(e, h["t"]):
        return "the key is of another type"
    if C.EVP_PKEY_get_bits(k) != (512 if h["t"] == "g512" else 256):
        return "wrong size"
    q = curve_problem(e, k, h["cv"])
    if q:
        return q
    if h["how"] == "key":
        E = CURVES[h["cv"]]
        der = i2d(C, C.i2d_PUBKEY, k)
        K = C.EVP_PKEY_get0(k)
        d = num(C, C.EC_KEY_get0_private_key(K))
        if not 0 < d < E.q:
            return "private key out of range"
        if der != keys_spki(h["t"], h["cv"], E.xy(E.mul(d))):
            return "the public key's encoding is not that of the set: " + der.hex()
    elif C.EC_KEY_get0_private_key(C.EVP_PKEY_get0(k)):
        return "parameters with a private key"


def keys_spki(t, cv, xy):
    return seq(seq(oid(ALG[t]), keys.canon_params(t, cv)), tlv(3, b"\0" + tlv(4, xy)))


def do_cmp(e, job, i, h, ctxs, ks):
    C, a, b = e.C, ks[h["i"] - 1][0], ks[h["j"] - 1][0]
    r = C.EVP_PKEY_parameters_eq(a, b)
    if (r == 1) != bool(h["par"]):
        return "parameters compared: %d" % r
    if not h["same"]:
        r = C.EVP_PKEY_eq(a, b)
        if (r == 1) != bool(h["eq"]):
            return "keys compared: %d" % r


def do_work(e, job, i, h, ctxs, ks):
    """a signature by the key is one on the standard's curve"""
    C, k = e.C, ks[h["k"] - 1][0]
    E = CURVES[h["cv"]]
    n = 64 if h["t"] == "g512" else 32
    d = data(e.seed, "names", job["id"], i, n)
    x = C.EVP_PKEY_CTX_new(k, e.eng.e)
    try:
        ob, ol = buf(2 * n), c_size_t(2 * n)
        if C.EVP_PKEY_sign_init(x) != 1 or C.EVP_PKEY_sign(x, ob, byref(ol), d, n) != 1:
            return "signing failed"
        s, r = int.from_bytes(ob.raw[:n], "big"), int.from_bytes(ob.raw[n:], "big")
        dd = num(C, C.EC_KEY_get0_private_key(C.EVP_PKEY_get0(k)))
        v = int.from_bytes(d, "little") % E.q or 1
        w = pow(v, -1, E.q)
        P = E.add(E.mul(s * w % E.q), E.mul(-r * w % E.q, E.mul(dd)))
        if not (0 < r < E.q and 0 < s < E.q) or P is None or P[0] % E.q != r:
            return "the signature is not one on this curve"
    finally:
        C.EVP_PKEY_CTX_free(x)
