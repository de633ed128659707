"""Replay of FaultsApi.tla: operations struck by a failing allocation or random source."""
import ctypes, json, mmap, os, signal
from ctypes import c_int, c_long, c_size_t, c_void_p, byref
from lib import evp, ec
from lib.evp import data, buf
from lib.ec import CURVES, OID, ALG
from . import pk, lean

NO = "refused"
VKO, CIPHER, SET_IV, PARAMSET = 0x1000 + 11, 12, 8, 0x1000 + 1
MD = dict(g01="md_gost94", g256="md_gost12_256", g512="md_gost12_512")


class Rand(pk.Rand):
    """a random source that can fail"""
    def __init__(self, e):
        pk.Rand.__init__(self, e.C)
        self.e, self.base, self.at, self.seen = e, 0, 0, 0

    def bytes(self, p, n):
        self.seen += 1
        if self.seen == self.at:
            return 0
        on, self.e.on.value = self.e.on.value, 0      # what we allocate is not the engine's
        ctypes.memmove(p, data("faultrand", self.base, self.seen, n), n)
        self.e.on.value = on
        return 1


class Env:
    pass


def setup(paths, seed):
    e = Env(); e.seed, e.paths = seed, paths
    e.L = ctypes.CDLL(None)
    assert c_int.in_dll(e.L, "fl_ok").value == 1, "the allocator is not ours"
    for v, t in (("on", c_int), ("at", c_long), ("count", c_long), ("failed", c_long)):
        setattr(e, v, t.in_dll(e.L, "fl_" + v))
    e.st, e.depth = (c_void_p * 24).in_dll(e.L, "fl_stack"), c_int.in_dll(e.L, "fl_depth")
    so = paths.get("prov") or paths["engine"]
    ctypes.CDLL(so)
    here = [a for m in lean.maps() if os.path.realpath(m[3]) == os.path.realpath(so) for a in m[:2]]
    c_void_p.in_dll(e.L, "fl_lo").value, c_void_p.in_dll(e.L, "fl_hi").value = min(here), max(here)
    e.shared = (c_void_p * 25).from_buffer(mmap.mmap(-1, 4096))
    c_void_p.in_dll(e.L, "fl_mirror").value = ctypes.addressof(e.shared)
    e.eng, e.C = None, evp.crypto()
    e.ops = e.struck = e.refused = e.positions = 0
    e.ders = {}
    for f in (e.C.d2i_AutoPrivateKey, e.C.d2i_PUBKEY):      # libcrypto's own decoders are fetched here, not in every child
        pk.d2i(e.C, f, bytes.fromhex("302e020100300506032b656e04220420" + "11" * 32))
    e.C.ERR_clear_error()
    return e


def stats(e):
    return dict(operations=e.ops, struck=e.struck, refused=e.refused, positions_swept=e.positions)


def up(e):
    """loads what is under test (in a child, for a sweep)"""
    if not e.eng:
        e.eng = evp.load(e.paths)
        e.keys = {}
        e.rand = Rand(e); e.rand.__enter__()


def where(e, st=None, n=None):
    m, st = lean.maps(), st or e.st
    return [x for x in (lean.name(e, m, st[i]) for i in range(2, n or e.depth.value)) if not x.startswith(("libffi", "_ctypes", "python", "libpython", "libc."))][:9]


def run(e, base, act, f=None):
    """act, struck or not -> (result, was it struck?)"""
    e.C.ERR_clear_error()
    e.rand.base, e.rand.seen, e.rand.at = base, 0, 0
    e.count.value = e.failed.value = 0
    if f and f["kind"] == "mem":
        e.at.value, e.on.value = f["at"], 1
    if f and f["kind"] == "rng":
        e.rand.at = f["at"]
    try:
        r = act()
    finally:
        e.on.value = 0
    hit = e.failed.value > 0 if f and f["kind"] == "mem" else bool(f and f["kind"] == "rng" and e.rand.seen >= f["at"])
    e.rand.at = 0
    e.C.ERR_clear_error()
    return r, hit


# -------------------------------------------------------------------- keys
def message(e, m):
    return data(e.seed, "faultmsg", m, 60)


def pctx(e, key, *inits):
    C = e.C
    c = C.EVP_PKEY_CTX_new(key, e.eng.e)
    if not c:
        return None
    for i in inits:
        if i(c) <= 0:
            C.EVP_PKEY_CTX_free(c)
            return None
    return c


def gen(e, k, frm=None, params=False):
    C, p = e.C, c_void_p()
    c = C.EVP_PKEY_CTX_new(frm, e.eng.e) if frm else C.EVP_PKEY_CTX_new_id(C.OBJ_txt2nid(ALG[k[0]].encode()), e.eng.e)
    if not c:
        return NO
    try:
        if (C.EVP_PKEY_paramgen_init if params else C.EVP_PKEY_keygen_init)(c) <= 0:
            return NO
        if not frm and C.EVP_PKEY_CTX_ctrl(c, -1, -1, PARAMSET, C.OBJ_txt2nid(OID[k[1]].encode()), None) <= 0:
            return NO
        if (C.EVP_PKEY_paramgen if params else C.EVP_PKEY_keygen)(c, byref(p)) <= 0:
            if p.value:
                C.EVP_PKEY_free(p)
            return NO
        return p.value
    finally:
        C.EVP_PKEY_CTX_free(c)


def der(e, k, priv):
    if (k, priv) not in e.ders:
        e.ders[k, priv] = ec.pkcs8(k[0], k[1], ec.priv_inner(CURVES[k[1]], pk.priv_of(e.seed, k))) if priv else ec.spki(k[0], k[1], CURVES[k[1]].xy(pk.pub_of(e.seed, k)))
    return e.ders[k, priv]


def readpub(e, k):
    return pk.d2i(e.C, e.C.d2i_PUBKEY, der(e, k, 0)) or NO


def readpriv(e, k):
    return pk.d2i(e.C, e.C.d2i_AutoPrivateKey, der(e, k, 1)) or NO


def i2d(e, f, key):
    x = c_void_p()
    n = f(key, byref(x))
    if n <= 0:
        return NO
    r = ctypes.string_at(x.value, n)
    e.C.free(x)
    return r


def ser(e, p, priv):
    """what a key is"""
    if p == NO:
        return NO
    a, b = i2d(e, e.C.i2d_PUBKEY, p), i2d(e, e.C.i2d_PrivateKey, p) if priv else b""
    return NO + "!" if NO in (a, b) else a.hex() + "/" + b.hex()


def text(e, key, f):
    C = e.C
    b = C.BIO_new(C.BIO_s_mem())
    try:
        if f(b, key, 0, None) <= 0:
            return NO
        p = c_void_p()
        n = C.BIO_ctrl(b, 3, 0, ctypes.addressof(p))
        return ctypes.string_at(p.value, n).hex() if n > 0 else ""
    finally:
        C.BIO_free(b)


def sign(e, key, alg, m):
    C = e.C
    x = C.EVP_MD_CTX_new()
    try:
        if C.EVP_DigestSignInit(x, None, e.eng.digest(MD[alg]), e.eng.e, key) <= 0 or C.EVP_DigestUpdate(x, m, len(m)) <= 0:
            return NO
        o, n = buf(256), c_size_t(256)
        return o.raw[:n.value].hex() if C.EVP_DigestSignFinal(x, ctypes.addressof(o), byref(n)) > 0 else NO
    finally:
        C.EVP_MD_CTX_free(x)


def verify(e, key, alg, m, sg):
    C = e.C
    x = C.EVP_MD_CTX_new()
    try:
        if C.EVP_DigestVerifyInit(x, None, e.eng.digest(MD[alg]), e.eng.e, key) <= 0 or C.EVP_DigestUpdate(x, m, len(m)) <= 0:
            return NO
        return "accepted" if C.EVP_DigestVerifyFinal(x, sg, len(sg)) == 1 else NO
    finally:
        C.EVP_MD_CTX_free(x)


def crypt(e, key, kind, msg, de):
    C = e.C
    c = pctx(e, key, C.EVP_PKEY_decrypt_init if de else C.EVP_PKEY_encrypt_init)
    if not c:
        return NO
    try:
        if kind != "g89" and C.EVP_PKEY_CTX_ctrl(c, -1, -1, CIPHER, C.OBJ_sn2nid(dict(m=b"magma-ctr", k=b"kuznyechik-ctr")[kind]), None) <= 0:
            return NO
        o, n = buf(1024), c_size_t(1024)
        r = (C.EVP_PKEY_decrypt if de else C.EVP_PKEY_encrypt)(c, ctypes.addressof(o), byref(n), msg, len(msg))
        return o.raw[:n.value].hex() if r > 0 else NO
    finally:
        C.EVP_PKEY_CTX_free(c)


def derive(e, key, peer, u):
    C = e.C
    c = pctx(e, key, C.EVP_PKEY_derive_init)
    if not c:
        return NO
    try:
        b = buf(data(e.seed, "faultukm", u), u)
        if u == 8 and C.EVP_PKEY_CTX_ctrl(c, -1, -1, VKO, C.OBJ_txt2nid(b"md_gost12_256"), None) <= 0 and C.ERR_peek_last_error():
            pass
        if C.EVP_PKEY_CTX_ctrl(c, -1, -1, SET_IV, u, ctypes.addressof(b)) <= 0 or C.EVP_PKEY_derive_set_peer(c, peer) <= 0:
            return NO
        o, n = buf(128), c_size_t(128)
        return o.raw[:n.value].hex() if C.EVP_PKEY_derive(c, ctypes.addressof(o), byref(n)) > 0 else NO
    finally:
        C.EVP_PKEY_CTX_free(c)


def copied(e, key, alg):
    C = e.C
    p = C.EVP_PKEY_new()
    if C.EVP_PKEY_copy_parameters(p, key) <= 0:
        C.EVP_PKEY_free(p)
        return NO
    return p


def write(e, key, k, w):
    """an operation that only looks at a key"""
    C = e.C
    if w in ("pub", "priv"):
        r = i2d(e, C.i2d_PUBKEY if w == "pub" else C.i2d_PrivateKey, key)
        return r if r == NO else r.hex()
    if w == "print":
        return text(e, key, C.EVP_PKEY_print_private)
    if w == "eq":
        return "same" if C.EVP_PKEY_eq(key, key) == 1 else NO
    p = copied(e, key, k[0]) if w == "dup" else gen(e, k, None, True)
    if p == NO:
        return NO
    return p


def look(e, key, w, r):
    """outside the window: what write() made"""
    if w in ("dup", "params") and r != NO:
        ok = e.C.EVP_PKEY_parameters_eq(r, key)
        e.C.EVP_PKEY_free(r)
        return "params %d" % ok
    return r


# ---------------------------------------------------------------- contexts
class Ctx:
    """a cipher, MAC or digest context"""
    def __init__(self, e, fam, alg):
        self.e, self.fam, self.alg, self.prov = e, fam, alg, not e.eng.e
        C = e.C
        self.tag = 0x10 if alg.endswith("-mgm") else 0
        getattr(e.eng, fam)(alg) if self.prov or fam != "mac" else e.eng.digest(alg)      # fetched: libcrypto does that once
        if fam == "cipher":
            self.p, self.free_, self.copy_ = C.EVP_CIPHER_CTX_new(), C.EVP_CIPHER_CTX_free, C.EVP_CIPHER_CTX_copy
        elif fam == "mac" and self.prov:
            self.p = None
        else:
            self.p, self.free_, self.copy_ = C.EVP_MD_CTX_new(), C.EVP_MD_CTX_free, C.EVP_MD_CTX_copy_ex

    def open(self, key, enc):
        e, C = self.e, self.e.C
        kb = data(e.seed, "faultkey", key, 32)
        if self.fam == "cipher":
            iv = data(e.seed, "faultiv", key, 16)
            if self.tag:
                iv = bytes([iv[0] & 127]) + iv[1:]
            if C.EVP_CipherInit_ex(self.p, e.eng.cipher(self.alg), e.eng.e, kb, iv, enc) != 1:
                return NO
            C.EVP_CIPHER_CTX_set_padding(self.p, enc)
            return 1
        if self.fam == "digest":
            return 1 if C.EVP_DigestInit_ex(self.p, e.eng.digest(self.alg), e.eng.e) == 1 else NO
        if self.prov:
            if not self.p:
                self.p = C.EVP_MAC_CTX_new(e.eng.mac(self.alg))
            return 1 if self.p and C.EVP_MAC_init(self.p, kb, 32, None) == 1 else NO
        k = C.EVP_PKEY_new_mac_key(C.OBJ_txt2nid(self.alg.encode()), e.eng.e, kb, 32)
        if not k:
            return NO
        r = C.EVP_DigestSignInit(self.p, None, e.eng.digest(self.alg), e.eng.e, k)
        C.EVP_PKEY_free(k)
        return 1 if r == 1 else NO

    def feed(self, d):
        C = self.e.C
        if self.fam == "cipher":
            o, n = buf(len(d) + 64), c_int(0)
            return o.raw[:n.value].hex() if C.EVP_CipherUpdate(self.p, ctypes.addressof(o), byref(n), d, len(d)) == 1 else NO
        return "" if (C.EVP_MAC_update if self.fam == "mac" and self.prov else C.EVP_DigestUpdate)(self.p, d, len(d)) == 1 else NO

    def finish(self):
        C = self.e.C
        o, n = buf(256), c_size_t(256)
        if self.fam == "cipher":
            n = c_int(0)
            if C.EVP_CipherFinal_ex(self.p, ctypes.addressof(o), byref(n)) != 1:
                return NO
            r = o.raw[:n.value]
            if self.tag and not self.prov:
                t = buf(16)
                if C.EVP_CIPHER_CTX_ctrl(self.p, self.tag, 8 if "magma" in self.alg else 16, ctypes.addressof(t)) != 1:
                    return r.hex() + "/"
                r += t.raw
            return r.hex()
        if self.fam == "digest":
            n = c_int(0)
            return o.raw[:n.value].hex() if C.EVP_DigestFinal_ex(self.p, ctypes.addressof(o), byref(n)) == 1 else NO
        r = C.EVP_MAC_final(self.p, ctypes.addressof(o), byref(n), 64) if self.prov else C.EVP_DigestSignFinal(self.p, ctypes.addressof(o), byref(n))
        return o.raw[:n.value].hex() if r == 1 else NO

    def copy(self, to):
        if self.fam == "mac" and self.prov:
            to.free()
            to.p = self.e.C.EVP_MAC_CTX_dup(self.p)
            return 1 if to.p else NO
        return 1 if self.copy_(to.p, self.p) == 1 else NO

    def free(self):
        if self.p:
            (self.e.C.EVP_MAC_CTX_free if self.fam == "mac" and self.prov else self.free_)(self.p)
        self.p = None


def wrap(e, alg, key, un):
    """KExp15, and its inverse through the key wrapping cipher"""
    C, kz = e.C, "kuzn" in alg
    kb = data(e.seed, "faultkey", key, 64)
    iv = data(e.seed, "faultiv", key, 8 if kz else 4)
    if not un:
        n, o, ol = 48 if kz else 40, buf(64), c_int(48 if kz else 40)
        nid = lambda t: C.OBJ_txt2nid(((b"kuznyechik-" if kz else b"magma-") + t))
        f = e.eng.fn("gost_kexp15", "i", "siisisszpp")
        return o.raw[:n].hex() if f(data(e.seed, "faultcek", key, 32), 32, nid(b"ctr"), kb[32:], nid(b"mac"), kb[:32], iv, len(iv),
                                    ctypes.addressof(o), ctypes.addressof(ol)) == 1 else NO
    x = C.EVP_CIPHER_CTX_new()
    if not x:
        return NO
    try:
        e.L.EVP_CIPHER_CTX_set_flags(c_void_p(x), 1)
        if C.EVP_CipherInit_ex(x, e.eng.cipher(alg), e.eng.e, kb, iv, 0) != 1:
            return NO
        o, n = buf(200), c_int(0)
        return o.raw[:n.value].hex() if C.EVP_CipherUpdate(x, ctypes.addressof(o), byref(n), un, len(un)) == 1 else NO
    finally:
        C.EVP_CIPHER_CTX_free(x)


# ------------------------------------------------------------------ sweeps
def case(e, o):
    """-> (act, look): what is done inside the window and what it amounts to"""
    if o["on"] == "key":
        k, a = tuple(o["key"]), o["act"]
        w = a[0]
        if w in ("gen", "genfrom", "readpub", "readpriv"):
            frm = readpriv(e, k) if w == "genfrom" else None
            act = dict(gen=lambda: gen(e, k), genfrom=lambda: gen(e, k, frm), readpub=lambda: readpub(e, k), readpriv=lambda: readpriv(e, k))[w]
            return act, lambda r: ser(e, r, w != "readpub")
        key = readpriv(e, k)
        same = lambda r: r
        if w == "sign":
            return (lambda: sign(e, key, k[0], message(e, 1))), same
        if w == "verify":
            s = bytes.fromhex(run(e, 5, lambda: sign(e, key, k[0], message(e, 1)))[0])
            if a[1]:
                s = s[:-1] + bytes([s[-1] ^ 1])
            return (lambda: verify(e, key, k[0], message(e, 1), s)), same
        if w == "enc":
            return (lambda: crypt(e, key, a[1], data(e.seed, "cek", 32), 0)), same
        if w == "dec":
            m = bytes.fromhex(run(e, 5, lambda: crypt(e, key, a[1], data(e.seed, "cek", 32), 0))[0])
            if a[2]:
                m = spoil(m)
            return (lambda: crypt(e, key, a[1], m, 1)), same
        if w == "derive":
            peer = readpub(e, (k[0], k[1], "r2"))
            return (lambda: derive(e, key, peer, a[1])), same
        return (lambda: write(e, key, k, w)), lambda r: look(e, key, w, r)
    if o["on"] == "wrap":
        un = b""
        if o["unwrap"]:
            un = bytes.fromhex(run(e, 5, lambda: wrap(e, o["alg"], 1, b""))[0])
        return (lambda: wrap(e, o["alg"], 1, un)), lambda r: r
    # a context: everything up to the struck step, the step, and the rest
    fam, alg, at = o["fam"], o["alg"], o["at"]
    x = Ctx(e, fam, alg)
    d = data(e.seed, "faultdata", 5040)
    en = o["enc"]

    def rest(c):
        r = c.feed(d[:4992])
        return r if r == NO else r + "/" + c.finish()
    if at in ("open", "reopen"):
        if at == "reopen":
            assert x.open(2, en) == 1; x.feed(d[:1100])
        return (lambda: x.open(1, en)), lambda r: r if r == NO else rest(x)
    assert x.open(1, en) == 1
    if at == "feed":
        return (lambda: x.feed(d[:4992])), lambda r: r if r == NO else r + "/" + x.finish()
    x.feed(d[:1040])
    if at == "finish":
        return x.finish, lambda r: r
    y = Ctx(e, fam, alg)
    if at == "recopy":
        y.open(2, en); y.feed(d[:100])
    # the copy goes on by itself, and so does what it was copied from
    return (lambda: x.copy(y)), lambda r: NO if r == NO else rest(y)


def spoil(m):
    m = bytearray(m)
    i = m.find(b"\x04\x20") if b"\x04\x20" in m else m.find(b"\x04\x28" if b"\x04\x28" in m else b"\x04\x30")
    m[i + 3] ^= 1
    return bytes(m)


def child(e, o, n):
    """one struck operation in a process of its own, where nothing has been set up before"""
    f = dict(o["f"], at=n) if n else None
    if o["on"] == "load":
        return load(e, f)
    up(e)
    act, lk = case(e, o)
    r, hit = run(e, 9, act, f)
    w = where(e) if hit and f["kind"] == "mem" else None
    v = lk(r)
    again = None
    if n and not (o["on"] == "ctx" and o["at"] in ("feed", "finish")):
        again = lk(run(e, 9, act)[0])
    return dict(r=v, hit=hit, again=again, w=w)


def load(e, f):
    C = e.C
    C.OPENSSL_init_crypto(0x400, None)
    e.rand = Rand(e)

    def once():
        d = C.ENGINE_by_id(b"dynamic")
        if not d:
            return NO
        ok = all(C.ENGINE_ctrl_cmd_string(d, a, b, 0) > 0 for a, b in ((b"SO_PATH", e.paths["engine"].encode()), (b"ID", b"gost"), (b"LOAD", None)))
        if not ok:
            C.ENGINE_free(d)
            return NO
        return d

    def use(d):
        if d == NO:
            return NO
        assert C.ENGINE_init(d)
        out = []
        for name in (b"md_gost94", b"md_gost12_256", b"md_gost12_512"):
            x, o, n = C.EVP_MD_CTX_new(), buf(64), c_int(0)
            m = C.ENGINE_get_digest(d, C.OBJ_sn2nid(name))
            if not m or C.EVP_DigestInit_ex(x, m, d) != 1 or C.EVP_DigestUpdate(x, b"abc", 3) != 1 or C.EVP_DigestFinal_ex(x, ctypes.addressof(o), byref(n)) != 1:
                out.append("no " + name.decode())
            out.append(o.raw.hex())
            C.EVP_MD_CTX_free(x)
        for name in (b"gost2001", b"gost2012_256", b"gost2012_512", b"gost-mac", b"kuznyechik-mac"):
            out.append(str(bool(C.ENGINE_get_pkey_meth(d, C.OBJ_sn2nid(name)))) + str(bool(C.ENGINE_get_pkey_asn1_meth(d, C.OBJ_sn2nid(name)))))
        C.ENGINE_finish(d); C.ENGINE_free(d)
        return "/".join(out)
    r, hit = run(e, 9, once, f)
    w = where(e) if hit else None
    v = use(r)
    # a module is bound once in a process, so there is no trying again
    return dict(r=v, hit=hit, again=None, w=w)


def fork(e, o, n):
    e.shared[0] = None
    a, b = os.pipe()
    p = os.fork()
    if p == 0:
        try:
            os.close(a)
            signal.alarm(60)
            try:
                r = child(e, o, n)
            except BaseException as ex:
                import traceback
                r = dict(x=traceback.format_exc()[-700:])
            os.write(b, json.dumps(r).encode())
        finally:
            os._exit(0)
    os.close(b)
    t = b""
    while True:
        x = os.read(a, 65536)
        if not x:
            break
        t += x
    os.close(a)
    st = os.waitpid(p, 0)[1]
    if os.WIFSIGNALED(st):
        return dict(sig=os.WTERMSIG(st), w=where(e, e.shared[1:], e.shared[0]) if e.shared[0] else None)
    return json.loads(t) if t else dict(x="no answer")


def sweep(e, o):
    if o["on"] == "key":
        for k in (tuple(o["key"]), (o["key"][0], o["key"][1], "r2")):
            der(e, k, 0), der(e, k, 1)      # once, not in every child
    ref = fork(e, o, 0)
    e.ops += 1
    if "r" not in ref:
        return dict(case=o, why="fails with nothing struck", got=ref)
    n, step = 1 + o.get("part", 0), o.get("of", 1)
    while n < 100000:
        r = fork(e, o, n)

        def bad(why):
            return dict(case=o, position=n, why=why, got=str(r)[:900], without=str(ref["r"])[:300])
        e.positions += 1
        if o["on"] == "load" and any("OBJ_add_object" in x for x in r.get("w") or ()):
            n += step       # libcrypto 3.0 goes on with half an object table when its own insertion fails
            continue
        if "sig" in r:
            return bad("crashed")
        if "r" not in r:
            return bad("could not go on")
        if not r["hit"]:
            return None if r["r"] == ref["r"] else bad("other result")
        e.struck += 1
        if r["r"] == NO:
            e.refused += 1
        elif r["r"] != ref["r"]:
            return bad("wrong result")
        if r["again"] is not None and r["again"] != ref["r"]:
            return bad("does not work afterwards either")
        n += step


# --------------------------------------------------------------- histories
def run_job(e, job):
    if "on" in job:
        return sweep(e, job)
    up(e)
    st = dict(keys={}, ctx={}, sigs=[], msgs=[])
    try:
        return hist(e, job, **st)
    finally:
        for k in st["keys"].values():
            e.C.EVP_PKEY_free(k[0])
        for c in st["ctx"].values():
            for x in c:
                x.free()
        e.C.ERR_clear_error()


def hist(e, job, keys, ctx, sigs, msgs):
    C = e.C
    for i, o in enumerate(job["hist"]):
        op, f = o["op"], o["f"]
        e.ops += 1
        if f["kind"] == "none":
            f = None
        base = "%s|%d" % (job["id"], i)

        def bad(w, **kw):
            return dict(step=i, op=o, why=w, struck_at=where(e) if f and f["kind"] == "mem" else None, **{k: str(v)[:300] for k, v in kw.items()})

        def three(act, lk=lambda r: r, keep=None):
            """without a fault, with it, and without it once more"""
            ref = lk(run(e, base, act)[0])
            r, hit = run(e, base, act, f)
            v = lk(r)
            e.struck += hit
            if v == NO and ref != NO:
                e.refused += 1
                if not hit:
                    return ref, bad("refused with nothing struck", without=ref)
            elif v != ref:
                return ref, bad("wrong result", got=v, without=ref)
            again = lk(run(e, base, act)[0])
            if again != ref:
                return ref, bad("does not work afterwards either", got=again, without=ref)
            return ref, None
        w = None
        if op == "make":
            k = tuple(o["key"])
            if o["via"] in ("gen", "genfrom"):
                frm = readpriv(e, (k[0], k[1], "r1")) if o["via"] == "genfrom" else None
                act = lambda: gen(e, k, frm)
            else:
                frm, act = None, (lambda: (readpub if o["via"] == "readpub" else readpriv)(e, k))
            got = []

            def lk(r):
                if r != NO:
                    got.append(r)
                return ser(e, r, o["via"] != "readpub")
            ref, w = three(act, lk)
            if not w and ref == NO:
                w = bad("refused with nothing struck")
            keep = got[min(1, len(got) - 1)] if got else None     # the one that was struck, if it came
            for x in got:
                if x != keep:
                    C.EVP_PKEY_free(x)
            if frm:
                C.EVP_PKEY_free(frm)
            if o["s"] in keys:
                C.EVP_PKEY_free(keys.pop(o["s"])[0])
            if keep:
                keys[o["s"]] = (keep, k)
        elif op == "sign":
            key, k = keys[o["s"]]
            r, w = three(lambda: sign(e, key, k[0], message(e, o["m"])))
            if not w and r == NO:
                w = bad("refused with nothing struck")
            sigs.append(r)
        elif op == "verify":
            key, k = keys[o["s"]]
            s = bytes.fromhex(sigs[o["g"] - 1])
            if o["bad"]:
                s = s[:5] + bytes([s[5] ^ 4]) + s[6:]
            r, w = three(lambda: verify(e, key, k[0], message(e, o["m"]), s))
            if not w and (r != NO) != bool(o["ok"]):
                w = bad("verification: " + r)
        elif op == "enc":
            key, k = keys[o["s"]]
            r, w = three(lambda: crypt(e, key, o["kind"], data(e.seed, "cek", len(msgs), 32), 0))
            if not w and r == NO:
                w = bad("refused with nothing struck")
            msgs.append(r)
        elif op == "dec":
            key, k = keys[o["s"]]
            m = bytes.fromhex(msgs[o["g"] - 1])
            m = spoil(m) if o["bad"] else m
            r, w = three(lambda: crypt(e, key, o["kind"], m, 1))
            want = NO if o["bad"] else data(e.seed, "cek", o["g"] - 1, 32).hex()
            if not w and r != want:
                w = bad("opened: " + r, want=want)
        elif op == "derive":
            key, peer = keys[o["s"]][0], keys[o["t"]][0]
            r, w = three(lambda: derive(e, key, peer, o["u"]))
        elif op == "write":
            key, k = keys[o["s"]]
            r, w = three(lambda: write(e, key, k, o["w"]), lambda r: look(e, key, o["w"], r))
            if not w and r == NO:
                w = bad("refused with nothing struck")
        elif op == "wrap":
            u = b""
            if o["unwrap"]:
                u = bytes.fromhex(wrap(e, o["alg"], o["key"], b""))
            r, w = three(lambda: wrap(e, o["alg"], o["key"], u))
            if not w and r == NO:
                w = bad("refused with nothing struck")
        else:
            w = context(e, o, f, ctx, bad, base)
        if w:
            return w
    return None


def context(e, o, f, ctx, bad, base):
    """every context has a twin that is never struck"""
    op, c = o["op"], o["c"]
    if op == "open":
        if c in ctx and (o["fresh"] or ctx[c][0].fam != o["fam"] or ctx[c][0].alg != o["alg"] and o["fam"] == "mac" or not e.eng.e):
            for x in ctx.pop(c):
                x.free()
        if c not in ctx:
            ctx[c] = [Ctx(e, o["fam"], o["alg"]) for _ in "xx"]
        x, t = ctx[c]
        for y in (x, t):
            y.alg, y.tag = o["alg"], 0x10 if o["alg"].endswith("-mgm") else 0
        if run(e, base, lambda: t.open(o["key"], o["enc"]))[0] == NO:
            return bad("refused with nothing struck")
        r, hit = run(e, base, lambda: x.open(o["key"], o["enc"]), f)
        e.struck += hit
        if r == NO:
            e.refused += 1
            if not hit:
                return bad("refused with nothing struck")
            if run(e, base, lambda: x.open(o["key"], o["enc"]))[0] == NO:
                return bad("does not work afterwards either")
        return None
    if c not in ctx:
        return None
    x, t = ctx[c]

    def drop(c):
        for y in ctx.pop(c):
            y.free()
    if op == "copy":
        d = o["d"]
        if d in ctx and ctx[d][0].fam != x.fam:
            drop(d)
        if d not in ctx:
            ctx[d] = [Ctx(e, x.fam, x.alg) for _ in "xx"]
        y, u = ctx[d]
        for z in (y, u):
            z.alg, z.tag = x.alg, x.tag
        if run(e, base, lambda: t.copy(u))[0] == NO:
            return bad("refused with nothing struck")
        r, hit = run(e, base, lambda: x.copy(y), f)
        e.struck += hit
        if r == NO:
            e.refused += 1
            if not hit:
                return bad("refused with nothing struck")
            if run(e, base, lambda: x.copy(y))[0] == NO:
                return bad("does not work afterwards either")
        return None
    act = (lambda z: lambda: z.feed(data(e.seed, "feed", base, o["n"]))) if op == "feed" else (lambda z: z.finish)
    ref = run(e, base, act(t))[0]
    r, hit = run(e, base, act(x), f)
    e.struck += hit
    w = None
    if r == NO and ref != NO:
        e.refused += 1
        w = None if hit else bad("refused with nothing struck", without=ref)
    elif r != ref:
        w = bad("wrong result", got=r, without=ref)
    if op == "finish" or hit:
        drop(c)
    return w
