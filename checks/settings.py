"""Steps of Settings.tla (run by checks.life)."""
import ctypes, os
from ctypes import byref, c_int, c_size_t, c_void_p, c_char_p
from lib import modes, ec
from lib.evp import data, buf
from lib.ec import CURVES
from . import pk, trans, cparams

ENV = {"crypt": "CRYPT_PARAMS", "pbe": "GOST_PBE_HMAC", "fmt": "GOST_PK_FORMAT"}
CMD = {"crypt": b"CRYPT_PARAMS", "pbe": b"PBE_PARAMS", "fmt": b"GOST_PK_FORMAT"}
NUM = {"crypt": 200, "pbe": 201, "fmt": 202}
BAD = {"A": "junk", "B": "1.2.643.2.2.30.1", "C": "id-GostR3410-2001-CryptoPro-A-ParamSet", "D": "1.2.3.4.5", "T": "A", "Z": "1.2.643.2.2.31"}
MODE = {"gost89": "cfb", "gost89-cbc": "cbc", "gost89-cnt": "cnt", "gost89-cnt-12": "cnt"}
PRF = {"256": b"1.2.643.7.1.1.4.1", "512": b"1.2.643.7.1.1.4.2", "94": b"1.2.643.2.2.10"}


def spell(C, v):
    f, x = v
    if f == "none":
        return None
    if f == "text":
        return x
    if f == "bad":
        return BAD[x]
    n = C.OBJ_txt2nid(cparams.OID[x].encode())
    return cparams.OID[x] if f == "oid" else (C.OBJ_nid2sn if f == "sn" else C.OBJ_nid2ln)(n).decode()


def do_unload(e, s, h, i):
    from .life import do_unreg
    C = e.C
    do_unreg(e, s, h, i)
    for k in s.keys.values():
        C.EVP_PKEY_free(k)
    s.keys = {}
    if not C.ENGINE_remove(s.h) or not C.ENGINE_free(s.h):
        return "unloading failed"
    s.h = None
    s.churn()


def do_env(e, s, h, i):
    v = spell(e.C, h["v"])
    if v is None:
        os.environ.pop(ENV[h["s"]], None)
    else:
        os.environ[ENV[h["s"]]] = v


def do_command(e, s, h, i):
    C = e.C
    v = spell(C, h["v"])
    b = v.encode() if v is not None else None
    if h["how"] == "string":
        r = C.ENGINE_ctrl_cmd_string(s.h, CMD[h["s"]], b, 0)
    elif h["how"] == "cmd":
        r = C.ENGINE_ctrl_cmd(s.h, CMD[h["s"]], 0, b, None, 0)
    else:
        p = buf(b) if b is not None else None
        r = C.ENGINE_ctrl(s.h, NUM[h["s"]], 0, ctypes.cast(p, c_void_p) if p else None, None)
        if p:                                   # the engine must have its own copy
            ctypes.memset(p, 0x41, len(b))
    if r != 1:
        return "command refused (%d)" % r


def do_nocommand(e, s, h, i):
    C = e.C
    r = {"name": lambda: C.ENGINE_ctrl_cmd_string(s.h, b"CRYPT_PARAM", b"1.2.643.2.2.31.1", 0),
         "lower": lambda: C.ENGINE_ctrl_cmd_string(s.h, b"crypt_params", b"1.2.643.2.2.31.1", 0),
         "noarg": lambda: C.ENGINE_ctrl_cmd_string(s.h, b"CRYPT_PARAMS", None, 0),
         "number": lambda: C.ENGINE_ctrl(s.h, 203, 0, ctypes.cast(c_char_p(b"1.2.643.2.2.31.1"), c_void_p), None),
         "beyond": lambda: C.ENGINE_ctrl(s.h, 1203, 0, ctypes.cast(c_char_p(b"1.2.643.2.2.31.1"), c_void_p), None),
         "below": lambda: C.ENGINE_ctrl(s.h, 199, 0, ctypes.cast(c_char_p(b"1.2.643.2.2.31.1"), c_void_p), None)}[h["x"]]()
    if r > 0:
        return "an unknown command was accepted"


class Stream:
    def __init__(self, e, s, alg, label):
        C = e.C
        self.e, self.alg, self.label, self.n, self.m = e, alg, label, 0, 0
        self.x = C.EVP_CIPHER_CTX_new()
        self.start()
        c = C.ENGINE_get_cipher(s.h, C.OBJ_txt2nid(b"1.2.643.2.2.21" if alg == "gost89" else alg.encode()))
        self.ok = C.EVP_CipherInit_ex(self.x, c, s.h, self.key, self.iv, 1) == 1
        if self.ok:
            C.EVP_CIPHER_CTX_set_padding(self.x, 0)

    def start(self):
        self.m += 1
        self.key, self.iv, self.inp, self.out = data(self.e.seed, self.label, self.m, "k", 32), data(self.e.seed, self.label, self.m, "v", 8), b"", b""

    def feed(self, n):
        d = data(self.e.seed, self.label, self.m, len(self.inp), n)
        o, l = buf(n + 16), c_int(0)
        r = self.e.C.EVP_CipherUpdate(self.x, o, byref(l), d, n)
        self.inp += d
        self.out += o.raw[:l.value]
        return r == 1

    def problem(self, set_):
        want = modes.process(self.e.R, MODE[self.alg], modes.SBOX[set_], self.key, self.iv, 1024, self.inp, 1)
        if self.out != want:
            for x, b in modes.SBOX.items():
                if self.inp and modes.process(self.e.R, MODE[self.alg], b, self.key, self.iv, 1024, self.inp, 1) == self.out:
                    return "processed with set %s, not %s" % (x, set_)
            return "wrong data"


def do_copen(e, s, h, i):
    x = Stream(e, s, h["alg"], "%s.%d" % (s.job["id"], i))
    if x.ok != bool(h["ok"]):
        return "a context without a valid parameter set" if x.ok else "init failed"
    if x.ok:
        s.ctx[h["c"]] = x
    else:
        e.C.EVP_CIPHER_CTX_free(x.x)


def do_cfeed(e, s, h, i):
    if not s.ctx[h["c"]].feed(h["n"]):
        return "update failed"


def do_cagain(e, s, h, i):
    x = s.ctx[h["c"]]
    r = x.problem(h["set"])
    if r:
        return r
    x.start()
    if e.C.EVP_CipherInit_ex(x.x, None, None, x.key, x.iv, 1) != 1:
        return "init for a new message failed"


def do_cclose(e, s, h, i):
    x = s.ctx.pop(h["c"])
    assert len(x.inp) == h["n"]
    r = x.problem(h["set"])
    e.C.EVP_CIPHER_CTX_free(x.x)
    return r


def do_pbe(e, s, h, i):
    C = e.C
    x = C.EVP_CIPHER_CTX_new()
    try:
        c = C.ENGINE_get_cipher(s.h, C.OBJ_txt2nid(h["alg"].encode()))
        if C.EVP_CipherInit_ex(x, c, s.h, bytes(32), bytes(8), 1) != 1:
            return "init failed"
        n = c_int(-1)
        if C.EVP_CIPHER_CTX_ctrl(x, 7, 0, ctypes.cast(byref(n), c_void_p)) != 1:
            return "no PBE digest"
        if n.value != C.OBJ_txt2nid(PRF[h["is"]]):
            return "PBE digest is %s" % C.OBJ_nid2sn(n.value)
    finally:
        C.EVP_CIPHER_CTX_free(x)


def key(e, s, t, cv):
    """decoded private key, kept until unloading"""
    C = e.C
    if not C.ENGINE_set_default(s.h, 0x0600):            # public key methods
        return None
    if (t, cv) not in s.keys:
        k = pk.d2i(C, C.d2i_AutoPrivateKey, ec.pkcs8(t, cv, ec.priv_inner(CURVES[cv], pk.priv_of(e.seed, (t, cv, "set")))))
        if not k:
            return None
        s.keys[t, cv] = k
    return s.keys[t, cv]


def do_write(e, s, h, i):
    C = e.C
    k = key(e, s, h["t"], h["cv"])
    if not k:
        return "key not decoded"
    return written(e, k, h)


def written(e, k, h):
    C = e.C
    from .names import i2d
    p8 = C.EVP_PKEY2PKCS8(k)
    if not p8:
        return "not encoded"
    der = i2d(C, C.i2d_PKCS8_PRIV_KEY_INFO, p8)
    C.PKCS8_PRIV_KEY_INFO_free(p8)
    (_, body, _), = trans.items(der)
    inner = trans.items(body)[2][1]
    n = CURVES[h["cv"]].size
    d = pk.priv_of(e.seed, (h["t"], h["cv"], "set")).to_bytes(n, "little")
    if inner != (d if h["is"] == "raw" else bytes([4, n]) + d):
        return "written as %s" % inner.hex()


def do_trans(e, s, h, i):
    C = e.C
    k = key(e, s, h["t"], h["cv"])
    if not k:
        return "key not decoded"
    x = C.EVP_PKEY_CTX_new(k, s.h)
    try:
        sess = data(e.seed, "set", s.job["id"], i, 32)
        o, l = buf(600), c_size_t(600)
        if C.EVP_PKEY_encrypt_init(x) != 1 or C.EVP_PKEY_encrypt(x, o, byref(l), sess, 32) != 1:
            return "key transport failed"
        m = trans.parse(o.raw[:l.value], "cp")
        if not m or m["oid"] != cparams.oid(h["set"]):
            return "message of another parameter set"
        y = C.EVP_PKEY_CTX_new(k, s.h)
        p, n = buf(64), c_size_t(64)
        ok = C.EVP_PKEY_decrypt_init(y) == 1 and C.EVP_PKEY_decrypt(y, p, byref(n), o.raw[:l.value], l.value) == 1 and p.raw[:n.value] == sess
        C.EVP_PKEY_CTX_free(y)
        return None if ok else "own message not opened"
    finally:
        C.EVP_PKEY_CTX_free(x)
