"""Replay of TransApi.tla: key transport messages, made by the engine or by the oracle, altered, opened."""
import ctypes
from ctypes import byref, c_size_t, c_char_p
from lib import ec
from lib.evp import data, buf
from lib.ec import CURVES, tlv, seq, octets, oid
from . import pk, kexp

SET_IV, CIPHER = 8, 12
SN = dict(g89=b"gost89", m=b"magma-ctr", macp=b"magma-ctr-acpkm", maco=b"magma-ctr-acpkm-omac", k=b"kuznyechik-ctr",
          kacp=b"kuznyechik-ctr-acpkm", kaco=b"kuznyechik-ctr-acpkm-omac")
OIDS = {"A": "1.2.643.2.2.31.1", "Z": "1.2.643.7.1.2.5.1.1", "B": "1.2.643.2.2.31.2", "C": "1.2.643.2.2.31.3"}
SB = {"A": 3, "Z": 7}


def setup(paths, seed):
    e = pk.base(paths, seed)
    e.sent = e.opened = e.refused = 0
    e.cn = {k: e.C.OBJ_txt2nid(v) for k, v in SN.items()}
    e.cn["magma-cbc"] = e.C.OBJ_txt2nid(b"magma-cbc")
    e.rand = pk.Rand(e.C); e.rand.__enter__()
    e.ctl = 8
    return e


def stats(e):
    return dict(calls=e.calls, sent=e.sent, opened=e.opened, refused=e.refused)


# --------------------------------------------------------------------- DER
def rd(b, i):
    """(tag, content, next)"""
    t = b[i]; n = b[i + 1]; i += 2
    if n & 0x80:
        k = n & 0x7F
        n = int.from_bytes(b[i:i + k], "big"); i += k
    assert i + n <= len(b)
    return t, b[i:i + n], i + n


def items(b):
    out, i = [], 0
    while i < len(b):
        t, c, j = rd(b, i)
        out.append((t, c, b[i:j])); i = j
    return out


def parse(b, fmt):
    """fields of a message, or None"""
    try:
        (t, c, _), = items(b)
        it = items(c)
        assert t == 0x30
        if fmt == "cp":
            assert [x[0] for x in it] == [0x30, 0xA0]
            a, k = items(it[0][1]), items(it[1][1])
            assert [x[0] for x in a] == [4, 4] and [x[0] for x in k] in ([6, 4], [6, 0xA0, 4])
            return dict(body=a[0][1], chk=a[1][1], oid=k[0][2], eph=k[1][1] if len(k) == 3 else None, ukm=k[-1][1])
        assert [x[0] for x in it] == [4, 0x30, 4]
        return dict(body=it[0][1], chk=b"", oid=b"", eph=it[1][1], ukm=it[2][1])
    except (AssertionError, ValueError, IndexError):
        return None


def build(m, fmt):
    if fmt == "cp":
        return seq(seq(octets(m["body"]), octets(m["chk"])),
                   tlv(0xA0, m["oid"], tlv(0xA0, m["eph"]) if m["eph"] is not None else b"", octets(m["ukm"])))
    return seq(octets(m["body"]), tlv(0x30, m["eph"]), octets(m["ukm"]) if m["ukm"] is not None else b"")


def spki_content(alg, curve, xy):
    return rd(ec.spki(alg, curve, xy), 0)[1]


def kind_of(c):
    """(algorithm, curve) of a SubjectPublicKeyInfo"""
    a = items(items(c)[0][1])
    return a[0][2], items(a[1][1])[0][2]


def split_xy(c):
    """(everything before, X||Y) of the content of a SubjectPublicKeyInfo"""
    n = 128 if c[-130:-128] == b"\x04\x81" or c[-131:-128] == b"\x04\x81\x80" else 64
    return c[:-n], c[-n:]


# ------------------------------------------------------------------ oracle
def cp_sbox(alg):
    return "A" if alg in ("g01", "g01dh") else "Z"


def secret(e, fmt, rk, d, P, ukm):
    """kek of (curve of rk, private d, point P)"""
    E = CURVES[rk[1]]
    from .omac import kdf_tree
    def vko(u, bits):
        Q = E.mul(int.from_bytes(u, "little") * d % E.q * E.h, P)
        return pk.digest(e.R, bits, E.xy(Q))
    if fmt == "cp":
        return vko(ukm[:8], 94 if rk[0] in ("g01", "g01dh") else 256)
    r = (int.from_bytes(ukm[:16], "big") or 1).to_bytes(16, "little")
    return vko(r, 512) if rk[0] == "g512" else kdf_tree(e.R, vko(r, 256), b"kdf tree", ukm[16:24], 64)


def wrap(e, fmt, alg, kek, ukm, key):
    if fmt == "cp":
        return kexp.cpwrap_def(e.R, SB[cp_sbox(alg)], kek, ukm, key)
    return kexp.kexp_def(e.R, fmt, key, ukm[24:24 + (4 if fmt == "m" else 8)], kek[32:], kek[:32]), b""


def sess_of(e, job, i):
    return data(e.seed, "sess", job, i, 32)


def run_job(e, job):
    ctx = {}
    try:
        return _run(e, job, ctx)
    finally:
        for c in ctx.values():
            e.C.EVP_PKEY_CTX_free(c)
        e.C.ERR_clear_error()


def _run(e, job, ctx):
    C, M, U = e.C, [], {}     # U: id of a random UKM -> bytes; M: list of (fmt, fields or None, der)
    for i, o in enumerate(job["hist"]):
        s, op = o["s"], o["op"]
        e.calls += 1

        def bad(w, **kw):
            return dict(step=i, op=o, why=w, errs=C.errs()[:3], **{k: (v.hex() if isinstance(v, bytes) else v) for k, v in kw.items()})

        def ukm_of(u):
            return U.get(u[1]) or data(e.seed, "tukm", job["id"], u[1], u[0])
        if op == "open":
            if s in ctx:
                C.EVP_PKEY_CTX_free(ctx.pop(s))
            c = ctx[s] = C.EVP_PKEY_CTX_new(pk.key(e, o["key"], o["priv"]), e.eng.e)
            if not c or (C.EVP_PKEY_encrypt_init if o["kind"] == "enc" else C.EVP_PKEY_decrypt_init)(c) != 1:
                return bad("init failed")
            if o["cipher"] != "unset" and C.EVP_PKEY_CTX_ctrl(c, -1, -1, CIPHER, e.cn[o["cipher"]], None) <= 0:
                return bad("cipher selection refused")
        elif op == "ukm":
            u = ukm_of((o["n"], o["id"])); b = buf(u, len(u))
            if C.EVP_PKEY_CTX_ctrl(ctx[s], -1, -1, SET_IV, len(u), ctypes.addressof(b)) <= 0:
                return bad("UKM refused")
        elif op == "peer":
            r = C.EVP_PKEY_derive_set_peer(ctx[s], pk.key(e, o["key"], o["priv"]))
            if (r > 0) != bool(o["ok"]):
                return bad("peer key: %d" % r)
        elif op == "dup":
            t = o["t"]
            if t in ctx:
                C.EVP_PKEY_CTX_free(ctx.pop(t))
            ctx[t] = C.EVP_PKEY_CTX_dup(ctx[s])
            if not ctx[t]:
                del ctx[t]
                return bad("copy failed")
        elif op == "ask":
            n = c_size_t(3)
            if C.EVP_PKEY_decrypt(ctx[s], None, byref(n), b"", 0) != 1 or n.value != 32:
                return bad("length query")
        elif op == "enc":
            r = enc(e, job, i, o, ctx[s], M, ukm_of, bad)
            if r:
                return r
            if o["ok"]:
                U[o["ukm"][1]] = U.get(o["ukm"][1]) or (M[-1][1]["ukm"] if o["ukm"][1] < 0 else b"")
        elif op == "alter":
            M.append(alter(e, o, M))
        elif op == "dec":
            fmt, f, der = M[o["m"] - 1]
            room = {"exact": 32, "more": 70, "less": 31}[o["room"]]
            out = buf(b"\x5a" * 160, 160); n = c_size_t(room)
            db = buf(der, len(der) or 1)
            r = C.EVP_PKEY_decrypt(ctx[s], ctypes.addressof(out), byref(n), ctypes.cast(db, c_char_p), len(der))
            if out.raw[max(32, room):] != b"\x5a" * (160 - max(32, room)) or (room < 32 and out.raw[room:] != b"\x5a" * (160 - room)):
                return bad("bytes written behind the buffer")
            want = sess_of(e, job["id"], o["sess"]) if o["v"] else None
            if (r == 1) != (want is not None):
                return bad("decrypt: %d" % r, message=der)
            if want is not None:
                e.opened += 1
                if n.value != 32 or out.raw[:32] != want:
                    return bad("wrong session key", got=out.raw[:32], expected=want)
            else:
                e.refused += 1
        C.ERR_clear_error()
    return None


def enc(e, job, i, o, c, M, ukm_of, bad):
    C = e.C
    key = data(e.seed, "sess", job["id"], i + 1, 32)
    key = (key * 3)[:o["n"]]
    fmt, rk = o["fmt"], o["rcpt"]
    if o["by"] == "oracle":
        E = CURVES[rk[1]]
        d = pk.num(e.seed, "eph", job["id"], i) % (E.q - 1) + 1 if o["snd"][2] == "eph" else pk.priv_of(e.seed, o["snd"])
        u = ukm_of(o["ukm"])
        u = u[:8] if fmt == "cp" else u
        kek = secret(e, fmt, rk, d, pk.pub_of(e.seed, rk), u)
        b, k = wrap(e, fmt, rk[0], kek, u, key)
        P = E.mul(d)
        m = dict(body=b, chk=k, oid=oid(OIDS[cp_sbox(rk[0])]), eph=None if fmt == "cp" and o["static"] else spki_content(rk[0], rk[1], E.xy(P)), ukm=u)
        M.append((fmt, m, build(m, fmt)))
        return None
    n0 = c_size_t(5)
    kb = ctypes.create_string_buffer(key, max(1, len(key)))
    kp = ctypes.cast(kb, c_char_p)
    r0 = 0
    if o["good"]:
        r0 = C.EVP_PKEY_encrypt(c, None, byref(n0), kp, o["n"])
        if r0 != 1:
            return bad("length query of encryption: %d" % r0)
    size = n0.value if r0 == 1 else 600
    room = size + {"exact": 0, "more": 50, "less": -1}[o["room"]]
    out = buf(b"\x5a" * 900, 900); n = c_size_t(room)
    r = C.EVP_PKEY_encrypt(c, ctypes.addressof(out), byref(n), kp, o["n"])
    if out.raw[room:] != b"\x5a" * (900 - room):
        return bad("bytes written behind the buffer")
    if (r == 1) != bool(o["ok"]):
        return bad("encrypt: %d" % r)
    if r != 1:
        return None
    e.sent += 1
    if n.value > size:
        return bad("the length query promised %d bytes, %d came" % (size, n.value))
    der = out.raw[:n.value]
    m = parse(der, fmt)
    if m is None:
        return bad("the message is not a key transport structure", message=der)
    if o["preset"]:
        u = ukm_of(o["ukm"])
        if m["ukm"] != (u[:8] if fmt == "cp" else u):
            return bad("the UKM set is not the UKM sent", message=der)
    elif len(m["ukm"]) != (8 if fmt == "cp" else 32):
        return bad("UKM of wrong length", message=der)
    if fmt == "cp" and m["oid"] != oid(OIDS[cp_sbox(rk[0])]):
        return bad("wrong S-box parameter set", message=der)
    E = CURVES[rk[1]]
    if (m["eph"] is None) != (fmt == "cp" and bool(o["static"])):
        return bad("sender's key %s" % ("missing" if m["eph"] is None else "sent"), message=der)
    P = pk.pub_of(e.seed, o["snd"]) if o["static"] else None
    if m["eph"] is not None:
        pre, xy = split_xy(m["eph"])
        if kind_of(m["eph"]) != (oid(ec.ALG[rk[0]]), oid(ec.OID[rk[1]])) or len(xy) != 2 * E.size:
            return bad("the sender's key has other parameters", message=der)
        Q = (int.from_bytes(xy[:E.size], "little"), int.from_bytes(xy[E.size:], "little"))
        if o["static"] and Q != P:
            return bad("another sender's key", message=der)
        if not E.on(Q) or E.mul(E.q, Q) is not None:
            return bad("the ephemeral key is not in the group", message=der)
        P = Q
    # what a conforming recipient would see
    b, k = wrap(e, fmt, rk[0], secret(e, fmt, rk, pk.priv_of(e.seed, rk), P, m["ukm"]), m["ukm"], key)
    if (m["body"], m["chk"]) != (b, k):
        return bad("the message does not carry the session key", message=der)
    if any(x[1] and x[1].get("own") == (m["eph"], m["ukm"]) for x in M) and not o["preset"]:
        return bad("an ephemeral key and UKM came twice", message=der)
    m["own"] = (m["eph"], m["ukm"])
    M.append((fmt, m, der))
    return None


def alter(e, o, M):
    fmt, m, der = M[o["from"] - 1]
    k, f, x = o["k"], o["f"], o["x"]
    if k == "trunc":
        return fmt, None, der[:x % len(der)]
    m = dict(m)
    if k == "bit":
        if f == "eph":
            pre, xy = split_xy(m["eph"])
            m["eph"] = pre + kexp.flip(xy, x)
        else:
            m[f] = kexp.flip(m[f], x)
    elif k == "len":
        if f == "eph":
            pre, xy = split_xy(m["eph"])
            E = 64 if len(xy) == 128 else 32
            alg = items(m["eph"])[0][2]
            n = len(xy)
            xy = (xy + bytes(200))[:n + x] if x > 0 else xy[:max(0, n + x)]
            m["eph"] = alg + tlv(3, b"\0", octets(xy))
        elif f == "ukm" and fmt != "cp" and x == -1000:
            m["ukm"] = None
        else:
            v = m[f]
            m[f] = v + data("tail", x, x) if x > 0 else v[:max(0, len(v) + x)]
    elif k == "eph":
        kk = o["key"]
        m["eph"] = None if not kk[0] else spki_content(kk[0], kk[1], CURVES[kk[1]].xy(pk.pub_of(e.seed, kk)))
    elif k == "oid":
        cur = "A" if m["oid"] == oid(OIDS["A"]) else "Z"
        m["oid"] = oid({-1: OIDS["B"], -2: OIDS["C"], -3: "1.2.643.2.2.31.99", -4: OIDS["A" if cur == "Z" else "Z"]}[x])
    elif k == "graft":
        m[f] = M[x - 1][1][f]
    return fmt, m, build(m, fmt)
