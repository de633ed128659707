"""Keys for demonstrations."""
from g import *
import ec


def _d2i(fn, der):
    b = buf(der, len(der))
    p = c_void_p(ctypes.addressof(b))
    k = fn(None, byref(p), len(der))
    return k


def pub(alg, pset, Q):
    return _d2i(C.d2i_PUBKEY, ec.spki(alg, pset, ec.CURVES[pset].xy(Q)))


def priv(alg, pset, d):
    cv = ec.CURVES[pset]
    k = _d2i(C.d2i_AutoPrivateKey, ec.pkcs8(alg, pset, ec.priv_inner(cv, d)))
    return k


def sign(k, dg):
    c = C.EVP_PKEY_CTX_new(k, E.e)
    assert C.EVP_PKEY_sign_init(c) > 0
    o = buf(256); n = c_size_t(256)
    assert C.EVP_PKEY_sign(c, o, byref(n), dg, len(dg)) > 0
    C.EVP_PKEY_CTX_free(c)
    return o.raw[:n.value]


def verify(k, sig, dg):
    c = C.EVP_PKEY_CTX_new(k, E.e)
    assert C.EVP_PKEY_verify_init(c) > 0
    r = C.EVP_PKEY_verify(c, sig, len(sig), dg, len(dg))
    C.EVP_PKEY_CTX_free(c)
    return r == 1


def pubbytes(k):
    x = ctypes.c_void_p(None)
    n = C.i2d_PUBKEY(k, byref(x))
    r = ctypes.string_at(x.value, n)
    C.CRYPTO_free(x.value, None, 0)
    return r


def privbytes(k):
    x = ctypes.c_void_p(None)
    n = C.i2d_PrivateKey(k, byref(x))
    r = ctypes.string_at(x.value, n)
    C.CRYPTO_free(x.value, None, 0)
    return r


def derive(k, peer, ukm, vko=0, out=64):
    """agreed key, or None where it is refused; vko: digest NID or 0 for KEG / the old 8-byte UKM form"""
    c = C.EVP_PKEY_CTX_new(k, E.e)
    try:
        if C.EVP_PKEY_derive_init(c) <= 0 or C.EVP_PKEY_derive_set_peer(c, peer) <= 0:
            return None
        if vko and C.EVP_PKEY_CTX_ctrl(c, -1, -1, 0x1000 + 11, vko, None) <= 0:
            return None
        if ukm is not None and C.EVP_PKEY_CTX_ctrl(c, -1, -1, 8, len(ukm), buf(ukm, len(ukm))) <= 0:
            return None
        o = buf(out); n = c_size_t(out)
        if C.EVP_PKEY_derive(c, o, byref(n)) <= 0:
            return None
        return o.raw[:n.value]
    finally:
        C.EVP_PKEY_CTX_free(c)
