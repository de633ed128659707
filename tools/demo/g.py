"""Small helpers for demonstrations: the built engine (cwd /repo) through the public EVP interface."""
import os, sys, ctypes
from ctypes import byref, create_string_buffer as buf, c_int, c_size_t, c_void_p
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import evp
C = evp.crypto()
E = evp.Engine(os.path.abspath("_build/bin/gost.so"))
data = evp.data


def crypt(enc, name, key, iv, parts, ctx=None, ctrl=(), aad=(), tag=None, gettag=0, pad=None, final=True):
    """(ok, output, tag)"""
    x = ctx or C.EVP_CIPHER_CTX_new()
    if not C.EVP_CipherInit_ex(x, E.cipher(name) if ctx is None else None, E.e if ctx is None else None, key, iv, enc):
        return False, b"", b""
    if pad is not None:
        C.EVP_CIPHER_CTX_set_padding(x, pad)
    for c in ctrl:
        assert C.EVP_CIPHER_CTX_ctrl(x, *c) > 0, c
    out = b""
    n = c_int(0)
    for a in aad:
        if not C.EVP_CipherUpdate(x, None, byref(n), a, len(a)):
            return False, out, b""
    if tag is not None:
        if C.EVP_CIPHER_CTX_ctrl(x, 0x11, len(tag), buf(tag, len(tag))) <= 0:
            return False, out, b""
    for p in parts:
        o = buf(len(p) + 64)
        n.value = 0
        if not C.EVP_CipherUpdate(x, o, byref(n), p, len(p)):
            return False, out, b""
        out += o.raw[:n.value]
    t = b""
    if final:
        o = buf(64)
        n.value = 0
        if not C.EVP_CipherFinal_ex(x, o, byref(n)):
            return False, out, b""
        out += o.raw[:n.value]
        if gettag:
            tb = buf(gettag)
            assert C.EVP_CIPHER_CTX_ctrl(x, 0x10, gettag, tb) > 0
            t = tb.raw
    return True, out, t


def digest(name, parts):
    x = C.EVP_MD_CTX_new()
    assert C.EVP_DigestInit_ex(x, E.digest(name), E.e)
    for p in parts:
        assert C.EVP_DigestUpdate(x, p, len(p))
    o = buf(64); n = ctypes.c_uint(0)
    assert C.EVP_DigestFinal_ex(x, o, byref(n))
    return o.raw[:n.value]


def mac(name, key, parts):
    nid = C.OBJ_sn2nid(name.encode())
    k = C.EVP_PKEY_new_mac_key(nid, E.e, key, len(key))
    x = C.EVP_MD_CTX_new()
    assert C.EVP_DigestSignInit(x, None, E.digest(name), E.e, k)
    for p in parts:
        assert C.EVP_DigestUpdate(x, p, len(p))
    o = buf(64); n = c_size_t(64)
    assert C.EVP_DigestSignFinal(x, o, byref(n))
    return o.raw[:n.value]


def keyed(name, key, parts):
    """MAC through the digest interface and its key control"""
    x = C.EVP_MD_CTX_new()
    assert C.EVP_DigestInit_ex(x, E.digest(name), E.e)
    assert C.EVP_MD_CTX_ctrl(x, 0x1004, len(key), buf(key, len(key))) > 0
    for p in parts:
        assert C.EVP_DigestUpdate(x, p, len(p))
    o = buf(64); n = ctypes.c_uint(0)
    assert C.EVP_DigestFinal_ex(x, o, byref(n))
    return o.raw[:n.value]


def expect(what, got, want):
    if got != want:
        print("FAIL", what, "got", got.hex() if isinstance(got, bytes) else got, "want", want.hex() if isinstance(want, bytes) else want)
        sys.exit(1)
