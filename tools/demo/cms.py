"""Sealing and opening with the CTR-ACPKM-OMAC ciphers as CMS does it."""
from g import *
OBJ = C.OBJ_txt2obj(b"1.2.643.7.1.0.6.1.1", 1)


def seal(name, key, m):
    x = C.EVP_CIPHER_CTX_new()
    n = c_int(0)
    assert C.EVP_CipherInit_ex(x, E.cipher(name), E.e, key, data("civ", 8), 1)
    t = C.ASN1_TYPE_new()
    assert C.EVP_CIPHER_param_to_asn1(x, t) > 0
    o = buf(len(m) + 64)
    assert C.EVP_CipherUpdate(x, o, byref(n), m, len(m))
    assert C.EVP_CipherFinal_ex(x, buf(64), byref(n))
    sk = c_void_p(C.OPENSSL_sk_new_null())
    assert C.EVP_CIPHER_CTX_ctrl(x, 0x28, 1, sk) > 0
    v = C.X509at_get0_data_by_OBJ(sk, OBJ, -3, 4)
    mac = ctypes.string_at(ctypes.cast(v + 8, ctypes.POINTER(c_void_p))[0], ctypes.cast(v, ctypes.POINTER(c_int))[0])
    return o.raw[:len(m)], mac, t


def unseal(name, key, ct, mac, t):
    """the message, or None where it is refused"""
    x = C.EVP_CIPHER_CTX_new()
    n = c_int(0)
    assert C.EVP_CipherInit_ex(x, E.cipher(name), E.e, None, None, 0)
    assert C.EVP_CIPHER_asn1_to_param(x, t) > 0
    assert C.EVP_CipherInit_ex(x, None, None, key, None, 0)
    sk = c_void_p(C.OPENSSL_sk_new_null())
    b = buf(mac, len(mac))
    assert C.X509at_add1_attr_by_OBJ(byref(sk), OBJ, 4, ctypes.addressof(b), len(mac))
    if C.EVP_CIPHER_CTX_ctrl(x, 0x28, 0, sk) <= 0:
        return None
    o = buf(len(ct) + 64)
    if C.EVP_CipherUpdate(x, o, byref(n), ct, len(ct)) <= 0:
        return None
    got = o.raw[:n.value]
    return got if C.EVP_CipherFinal_ex(x, o, byref(n)) > 0 else None
