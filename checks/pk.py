"""Keys for the public-key replays: made by the oracle, handed to the engine as DER."""
import ctypes
from ctypes import byref, c_char_p, c_void_p, c_size_t, c_int
from lib import evp, ref, ec
from lib.evp import data, buf
from lib.ec import CURVES


class Env:
    pass


def base(paths, seed):
    e = Env(); e.seed = seed
    e.R = ref.get(paths["ref"]); e.eng = evp.Engine(paths["engine"]); e.C = e.eng.C
    e.keys, e.calls = {}, 0
    return e


def num(seed, *lab):
    return int.from_bytes(data(seed, *lab, 80), "big")


_d, _p = {}, {}


def priv_of(seed, k):
    """k = (alg, curve, class)"""
    alg, cv, c = k[:3]
    E = CURVES[cv]
    if c == "one":
        return 1
    if c == "two":
        return 2
    if c == "minus":
        return E.q - 1
    if c in ("xlead", "ylead"):           # a coordinate of the public key begins with a zero byte
        t = (E, c)
        if t not in _d:
            d, P = num(seed, "lead", E.size, c) % (E.q - 1000000) + 1, None
            P = E.mul(d)
            while P[c == "ylead"] >> (8 * E.size - 8):
                d, P = d + 1, E.add(P, E.g)
            _d[t] = d
        return _d[t]
    v = num(seed, "priv", E.size, c)   # the same number on every curve of one size, whatever its name
    if c == "lead":
        return v % (1 << (8 * E.size - 40)) or 1
    return v % (1 << (8 * E.size - 3)) % (E.q - 1) + 1


def pub_of(seed, k):
    k = tuple(k[:3])
    c = (seed, k[1], k[2], k[0])
    if c not in _p:
        E = CURVES[k[1]]
        if k[2] == "low":
            _p[c] = E.twotorsion()[0]
        elif k[2] == "mix":
            _p[c] = E.add(pub_of(seed, (k[0], k[1], "r1")), E.twotorsion()[0])
        elif k[2] == "neg":
            _p[c] = E.neg(pub_of(seed, (k[0], k[1], "r1")))
        else:
            _p[c] = E.mul(priv_of(seed, k))
    return _p[c]


def fit(e, cls, k, ukm, shape, keg):
    """a public key for which the agreement of key k with this UKM meets a point of the wanted shape"""
    E = CURVES[k[1]]
    n = (int.from_bytes(ukm[:16], "big") or 1) if keg else int.from_bytes(ukm, "little")
    R = E.shaped(shape, num(e.seed, "shape", cls))
    assert E.on(R)
    m = n * priv_of(e.seed, k) * E.h % E.q
    Q = E.mul(pow(m, -1, E.q), R)
    _p[(e.seed, k[1], cls, k[0])] = Q
    return Q


def forget(e, cls):
    for c in [c for c in _p if c[2] in cls]:
        del _p[c]
    for c in [c for c in e.keys if c[0][2] in cls]:
        e.C.EVP_PKEY_free(e.keys.pop(c))


def d2i(C, f, der):
    b = buf(der, len(der)); p = c_void_p(ctypes.addressof(b))
    return f(None, byref(p), len(der))


def key(e, k, priv):
    """EVP_PKEY for the key, cached"""
    c = (tuple(k), bool(priv))
    if c not in e.keys:
        E = CURVES[k[1]]
        if priv:
            r = d2i(e.C, e.C.d2i_AutoPrivateKey, ec.pkcs8(k[0], k[1], ec.priv_inner(E, priv_of(e.seed, k))))
        else:
            r = d2i(e.C, e.C.d2i_PUBKEY, ec.spki(k[0], k[1], E.xy(pub_of(e.seed, k))))
        assert r, (k, priv, e.C.errs())
        e.keys[c] = r
    return e.keys[c]


def h94(R, msg):
    return R.h94(1, msg)


def digest(R, bits, msg):
    return h94(R, msg) if bits == 94 else R.streebog(bits, msg)


def vko(e, k, peer, ukm, bits):
    """the secret, or None"""
    E = CURVES[k[1]]
    s = int.from_bytes(ukm, "little") * priv_of(e.seed, k) % E.q * E.h
    P = E.mul(s, pub_of(e.seed, peer))
    return None if P is None else digest(e.R, bits, E.xy(P))


def keg(e, k, peer, ukm):
    from .omac import kdf_tree
    r = int.from_bytes(ukm[:16], "big") or 1
    lu = r.to_bytes(16, "little")
    if k[0] == "g512":
        return vko(e, k, peer, lu, 512)
    s = vko(e, k, peer, lu, 256)
    return None if s is None else kdf_tree(e.R, s, b"kdf tree", ukm[16:24], 64)


def ukm_bytes(e, job, u, q):
    n, cls, i = u
    if cls == "zero":
        return bytes(n)
    if cls == "one":
        return (b"\1" + bytes(n))[:n]
    if cls == "ff":
        return b"\xff" * n
    if cls == "q":
        return q.to_bytes(64, "little")[:n]
    d = data(e.seed, "ukm", job, i, n)
    return (bytes(16) + d)[:n] if cls == "z16" else d


class Rand:
    """RAND_METHOD that hands out queued nonces (n bytes big-endian for a request of n or more), else a deterministic stream"""
    def __init__(self, C):
        F = ctypes.CFUNCTYPE(c_int, c_void_p, c_int)
        self.C, self.queue, self.n, self.asked = C, [], 0, []
        self.f = F(self.bytes)
        self.st = ctypes.CFUNCTYPE(c_int)(lambda: 1)

        class M(ctypes.Structure):
            _fields_ = [(x, c_void_p) for x in ("seed", "bytes", "cleanup", "add", "pseudo", "status")]
        self.m = M(None, ctypes.cast(self.f, c_void_p), None, None, ctypes.cast(self.f, c_void_p), ctypes.cast(self.st, c_void_p))

    def bytes(self, p, n):
        self.asked.append(n)
        if self.queue:
            v = self.queue.pop(0)
            if v == "fail":
                return 0
            b = v if isinstance(v, bytes) else v.to_bytes(n, "big")
            b = (b + bytes(n))[:n]
        else:
            self.n += 1
            b = data("rand", self.n, n)
        ctypes.memmove(p, b, n)
        return 1

    def __enter__(self):
        assert self.C.RAND_set_rand_method(ctypes.addressof(self.m))
        return self

    def __exit__(self, *a):
        self.C.RAND_set_rand_method(None)
