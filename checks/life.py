"""Replay of Life.tla and Settings.tla: every behaviour in a process of its own (the engine's state is
the process's)."""
import ctypes, json, os, signal, struct
from ctypes import byref, c_int, c_size_t, c_void_p, c_uint, c_long
from lib import evp, ref, modes, ec
from lib.evp import data, buf
from lib.ec import CURVES, OID
from . import mgm
from .names import num

CIPHERS = """gost89 gost89-cnt gost89-cnt-12 gost89-cbc kuznyechik-ecb kuznyechik-cbc kuznyechik-cfb kuznyechik-ofb kuznyechik-ctr magma-ecb
kuznyechik-mgm magma-cbc magma-ctr magma-ctr-acpkm magma-ctr-acpkm-omac magma-mgm kuznyechik-ctr-acpkm kuznyechik-ctr-acpkm-omac
magma-kexp15 kuznyechik-kexp15""".split()
# key, IV and block sizes
SIZES = {"gost89": (32, 8, 1), "gost89-cnt": (32, 8, 1), "gost89-cnt-12": (32, 8, 1), "gost89-cbc": (32, 8, 8), "kuznyechik-ecb": (32, 0, 16),
         "kuznyechik-cbc": (32, 16, 16), "kuznyechik-cfb": (32, 16, 1), "kuznyechik-ofb": (32, 16, 1), "kuznyechik-ctr": (32, 8, 1),
         "magma-ecb": (32, 0, 8), "kuznyechik-mgm": (32, 16, 1), "magma-cbc": (32, 8, 8), "magma-ctr": (32, 4, 1), "magma-ctr-acpkm": (32, 4, 1),
         "magma-ctr-acpkm-omac": (32, 4, 1), "magma-mgm": (32, 8, 1), "kuznyechik-ctr-acpkm": (32, 8, 1), "kuznyechik-ctr-acpkm-omac": (32, 8, 1),
         "magma-kexp15": (64, 4, 8), "kuznyechik-kexp15": (64, 8, 16)}
OIDS = {"gost89": "1.2.643.2.2.21", "magma-kexp15": "1.2.643.7.1.1.7.1.1", "kuznyechik-kexp15": "1.2.643.7.1.1.7.2.1",
        "magma-ctr-acpkm": "1.2.643.7.1.1.5.1.1", "magma-ctr-acpkm-omac": "1.2.643.7.1.1.5.1.2",
        "kuznyechik-ctr-acpkm": "1.2.643.7.1.1.5.2.1", "kuznyechik-ctr-acpkm-omac": "1.2.643.7.1.1.5.2.2"}
DIGESTS = {"md_gost94": (32, 32), "gost-mac": (4, 8), "md_gost12_256": (32, 64), "md_gost12_512": (64, 64), "gost-mac-12": (4, 8),
           "magma-mac": (8, 8), "kuznyechik-mac": (16, 16), "1.2.643.7.1.1.5.2.2": (16, 16)}
PKEYS = """1.2.643.2.2.19 1.2.643.2.2.98 1.2.643.2.2.22 1.2.643.7.1.1.1.1 1.2.643.7.1.1.1.2 gost-mac-12 magma-mac kuznyechik-mac
1.2.643.7.1.1.5.2.2""".split()
KINDS = {"md94": b"md_gost94", "md256": b"md_gost12_256", "md512": b"streebog512", "cfb": b"gost89", "kcbc": b"kuznyechik-cbc", "kctr": b"kuznyechik-ctr",
         "mctr": b"magma-ctr", "kmgm": b"kuznyechik-mgm", "kofb": b"kuznyechik-ofb"}
IVL = {"cfb": 8, "kcbc": 16, "kctr": 8, "mctr": 4, "kmgm": 16, "kofb": 16}


class Env:
    pass


def setup(paths, seed):
    e = Env(); e.seed = seed; e.so = paths["engine"]
    e.R = ref.get(paths["ref"]); e.C = evp.crypto()
    e.C.OPENSSL_init_crypto(0x400, None)
    for n in "ciphers digests pkey_meths pkey_asn1_meths".split():
        f = getattr(e.C.L, "ENGINE_unregister_" + n); f.argtypes = [c_void_p]; f.restype = None
    e.stat = {}
    return e


def stats(e):
    return e.stat


def forked(e, job, fn, limit=60):
    """fn(e, job) in a child: -> (result, counters), crashes included"""
    r, w = os.pipe()
    p = os.fork()
    if p == 0:
        try:
            os.close(r)
            os.setsid()
            signal.alarm(limit)
            e.stat = {}
            try:
                res = fn(e, job)
            except AssertionError:
                import traceback
                res = {"harness_error": traceback.format_exc()}
            except Exception:
                import traceback
                res = {"harness_error": traceback.format_exc()}
            os.write(w, json.dumps([res, e.stat]).encode())
            # let the library clean up as it would at the end of a program
            if not os.environ.get("VERIF_NOEXIT"):
                e.C.L.OPENSSL_cleanup()
        finally:
            os._exit(0)
    os.close(w)
    b = b""
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        b += x
    os.close(r)
    st = os.waitpid(p, 0)[1]
    if os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        return {"crash": "timeout" if s == signal.SIGALRM else "killed by signal %d" % s, "when": "at the end of the process" if b else "during the behaviour"}, {}
    return json.loads(b) if b else ({"crash": "no answer"}, {})


def run_job(e, job):
    res, st = forked(e, job, go)
    for k, v in st.items():
        e.stat[k] = e.stat.get(k, 0) + v
    if res and job.get("key"):
        res = dict(res, key=job["key"]) if isinstance(res, dict) else {"problem": res, "key": job["key"]}
    return res


def count(e, k):
    e.stat[k] = e.stat.get(k, 0) + 1


def go(e, job):
    from . import settings
    s = S(e, job)
    if job.get("mapped"):
        ctypes.CDLL(e.so)
    for i, h in enumerate(job["hist"]):
        count(e, "calls")
        e.C.ERR_clear_error()
        f = globals().get("do_" + h["op"]) or getattr(settings, "do_" + h["op"])
        r = f(e, s, h, i)
        if r:
            return dict(step=i, event=h, problem=r, errors=e.C.errs()[:3])


class S:
    def __init__(self, e, job):
        self.e, self.job, self.h, self.ctx, self.keys, self.junk, self.clen = e, job, None, {}, {}, [], {}

    def churn(self):
        """give the memory just freed to somebody else"""
        self.junk.append([self.e.C.CRYPTO_malloc(z, b"", 0) for z in range(8, 400, 8) for _ in range(3)])


def load(e):
    C = e.C
    d = C.ENGINE_by_id(b"dynamic")
    for k, v in ((b"SO_PATH", e.so.encode()), (b"ID", b"gost"), (b"LIST_ADD", b"1"), (b"LOAD", None)):
        if not C.ENGINE_ctrl_cmd_string(d, k, v, 0):
            C.ENGINE_free(d)
            return None
    return d


def do_load(e, s, h, i):
    count(e, "loads")
    so = os.dup(1); n = os.open("/dev/null", os.O_WRONLY)
    os.dup2(n, 1)
    d = load(e)
    os.dup2(so, 1); os.close(so); os.close(n)
    if bool(d) != bool(h["ok"]):
        return "loaded a second time" if d else "the engine cannot be loaded"
    if d:
        s.h = d


def do_byid(e, s, h, i):
    d = e.C.ENGINE_by_id(b"gost")
    if bool(d) != bool(h["ok"]):
        return "found in the list" if d else "not found in the list"
    if d:
        if s.h and d != s.h:
            return "another engine of the name"
        s.h = d


def do_init(e, s, h, i):
    if not e.C.ENGINE_init(s.h):
        return "init failed"


def gone(s, h):
    if h["gone"]:
        count(s.e, "unloads")
        s.h = None
        s.churn()


def do_finish(e, s, h, i):
    if not e.C.ENGINE_finish(s.h):
        return "finish failed"
    gone(s, h)


def do_free(e, s, h, i):
    if not e.C.ENGINE_free(s.h):
        return "free failed"
    gone(s, h)


def do_remove(e, s, h, i):
    if not e.C.ENGINE_remove(s.h):
        return "remove failed"
    gone(s, h)


def do_add(e, s, h, i):
    if not e.C.ENGINE_add(s.h):
        return "add failed"


def do_setdef(e, s, h, i):
    if not e.C.ENGINE_set_default(s.h, 0xFFFF):
        return "set_default failed"


def do_unreg(e, s, h, i):
    for n in "ciphers digests pkey_meths pkey_asn1_meths".split():
        getattr(e.C.L, "ENGINE_unregister_" + n)(s.h)


def nid(C, name):
    return C.OBJ_txt2nid((OIDS.get(name) or name).encode())


NIDS_CB = ctypes.CFUNCTYPE(c_int, c_void_p, c_void_p, c_void_p, c_int)


def listing(C, eng, getter):
    g = getattr(C.L, getter); g.restype = c_void_p; g.argtypes = [c_void_p]
    f = NIDS_CB(g(eng))
    p = c_void_p()
    n = f(eng, None, ctypes.cast(byref(p), c_void_p), 0)
    return list(ctypes.cast(p, ctypes.POINTER(c_int))[0:n]), f


def do_offer(e, s, h, i):
    C = e.C
    count(e, "offers")
    ns, f = listing(C, s.h, "ENGINE_get_ciphers")
    if sorted(ns) != sorted(nid(C, x) for x in CIPHERS):
        return "ciphers offered: %s" % sorted((C.OBJ_nid2sn(x) or b"?").decode() for x in ns)
    for x in CIPHERS:
        c = C.ENGINE_get_cipher(s.h, nid(C, x))
        if not c:
            return "no cipher " + x
        got = (C.EVP_CIPHER_get_key_length(c), C.EVP_CIPHER_get_iv_length(c), C.EVP_CIPHER_get_block_size(c))
        if got != SIZES[x] or C.EVP_CIPHER_get_nid(c) != nid(C, x):
            return "%s: sizes %s" % (x, got)
    ns, f2 = listing(C, s.h, "ENGINE_get_digests")
    if sorted(ns) != sorted(nid(C, x) for x in DIGESTS):
        return "digests offered: %s" % sorted((C.OBJ_nid2sn(x) or b"?").decode() for x in ns)
    for x, sz in DIGESTS.items():
        m = C.ENGINE_get_digest(s.h, nid(C, x))
        if not m:
            return "no digest " + x
        got = (C.EVP_MD_get_size(m), C.EVP_MD_get_block_size(m))
        if got[0] != sz[0]:
            return "%s: sizes %s" % (x, got)
    for g in ("ENGINE_get_pkey_meths", "ENGINE_get_pkey_asn1_meths"):
        ns, f3 = listing(C, s.h, g)
        for x in PKEYS:
            if nid(C, x) not in ns:
                return "%s: %s is missing" % (g, x)
    for x in PKEYS:
        if not C.ENGINE_get_pkey_meth(s.h, nid(C, x)) or not C.ENGINE_get_pkey_asn1_meth(s.h, nid(C, x)):
            return "no methods for " + x
    # unknown ones
    for n in (0, -1, C.OBJ_txt2nid(b"AES-128-CBC"), C.OBJ_txt2nid(b"SHA256"), 1 << 20):
        out = c_void_p(1)
        if C.ENGINE_get_cipher(s.h, n) or C.ENGINE_get_digest(s.h, n) or f(s.h, ctypes.cast(byref(out), c_void_p), None, n) or out.value:
            return "an unknown algorithm (%d) was found" % n
        if C.ENGINE_get_pkey_meth(s.h, n) or C.ENGINE_get_pkey_asn1_meth(s.h, n):
            return "methods for an unknown algorithm (%d)" % n


def find(C, name):
    return C.EVP_get_digestbyname(name) or C.EVP_get_cipherbyname(name)


def is_md(k):
    return k.startswith("md")


class Ctx:
    """one stream through the engine and what it must come to"""
    def __init__(self, e, k, label, eng, method=None):
        C = e.C
        self.e, self.k, self.label, self.data, self.out = e, k, label, b"", b""
        if is_md(k):
            self.x = C.EVP_MD_CTX_new()
            m = method or C.ENGINE_get_digest(eng, nid(C, {"md94": "md_gost94", "md256": "md_gost12_256", "md512": "md_gost12_512"}[k]))
            self.ok = m and C.EVP_DigestInit_ex(self.x, m, eng) == 1
        else:
            self.x = C.EVP_CIPHER_CTX_new()
            m = method or C.ENGINE_get_cipher(eng, nid(C, KINDS[k].decode()))
            self.key, self.iv = data(e.seed, "life", label, "k", 32), data(e.seed, "life", label, "iv", IVL[k])
            if k == "kmgm":
                self.iv = bytes([self.iv[0] & 0x7f]) + self.iv[1:]
            self.ok = m and C.EVP_CipherInit_ex(self.x, m, eng, self.key, self.iv, 1) == 1

    def feed(self, n):
        C = self.e.C
        d = data(self.e.seed, "life", self.label, "d", len(self.data), n)
        self.data += d
        if is_md(self.k):
            return C.EVP_DigestUpdate(self.x, d, n) == 1
        if n == 0:
            return True
        o, l = buf(n + 64), c_int(0)
        r = C.EVP_CipherUpdate(self.x, o, byref(l), d, n)
        self.out += o.raw[:l.value]
        return r == 1

    def copy(self):
        C = self.e.C
        y = object.__new__(Ctx)
        y.__dict__.update(self.__dict__)
        if is_md(self.k):
            y.x = C.EVP_MD_CTX_new()
            return y if C.EVP_MD_CTX_copy_ex(y.x, self.x) == 1 else None
        y.x = C.EVP_CIPHER_CTX_new()
        return y if C.EVP_CIPHER_CTX_copy(y.x, self.x) == 1 else None

    def close(self):
        """-> problem"""
        C, R, k = self.e.C, self.e.R, self.k
        try:
            if is_md(k):
                o, l = buf(64), c_uint(0)
                if C.EVP_DigestFinal_ex(self.x, o, byref(l)) != 1:
                    return "final failed"
                want = R.h94(1, self.data) if k == "md94" else R.streebog(int(k[2:]), self.data)
                return None if o.raw[:l.value] == want else "wrong digest"
            o, l = buf(64), c_int(0)
            if C.EVP_CipherFinal_ex(self.x, o, byref(l)) != 1:
                return "final failed"
            got = self.out + o.raw[:l.value]
            a = 7 if k == "cfb" else 8 if k[0] == "m" else 9
            if k == "kmgm":
                want = mgm.xor(mgm.keystream(R, a, self.key, self.iv, len(self.data)), self.data)
                t = buf(16)
                if C.EVP_CIPHER_CTX_ctrl(self.x, 0x10, 16, t) != 1 or t.raw != mgm.mgm_tag(R, a, self.key, self.iv, b"", want):
                    return "wrong tag"
            elif k == "kcbc":
                p = 16 - len(self.data) % 16
                want = modes.process(R, "cbc", a, self.key, self.iv, 0, self.data + bytes([p]) * p, 1)
            else:
                want = modes.process(R, k[1:] if k != "cfb" else k, a, self.key, self.iv, 1024 if k == "cfb" else 0, self.data, 1)
            return None if got == want else "wrong ciphertext"
        finally:
            (C.EVP_MD_CTX_free if is_md(k) else C.EVP_CIPHER_CTX_free)(self.x)


def do_named(e, s, h, i):
    C = e.C
    if not h["found"]:
        for n in list(KINDS.values()) + [x.encode() for x in CIPHERS if x not in OIDS] + [b"streebog256", b"md_gost12_512", b"gost-mac"]:
            if find(C, n):
                return "%s is still found by name" % n.decode()
        return None
    m = find(C, KINDS[h["k"]])
    if not m:
        return "not found by name"
    c = Ctx(e, h["k"], "%s.%d" % (s.job["id"], i), None, m)
    if not c.ok:
        return "init failed"
    if not c.feed(100):
        return "update failed"
    return c.close()


def do_namedkey(e, s, h, i):
    C = e.C
    x = C.EVP_PKEY_CTX_new_id(nid(C, "1.2.643.7.1.1.1.1"), None)
    if x:
        C.EVP_PKEY_CTX_free(x)
    if bool(x) != bool(h["found"]):
        return "key methods are still registered" if x else "no key methods"


def do_open(e, s, h, i):
    c = s.ctx[h["c"]] = Ctx(e, h["k"], "%s.%d" % (s.job["id"], i), s.h)
    if not c.ok:
        return "init failed"


def do_feed(e, s, h, i):
    if not s.ctx[h["c"]].feed(h["n"]):
        return "update failed"


def do_copy(e, s, h, i):
    s.ctx[h["d"]] = s.ctx[h["c"]].copy()
    if not s.ctx[h["d"]]:
        return "copy failed"


def do_close(e, s, h, i):
    c = s.ctx.pop(h["c"])
    assert len(c.data) == h["n"]
    r = c.close()
    gone(s, h)
    return r


def do_gen(e, s, h, i):
    C = e.C
    x = C.EVP_PKEY_CTX_new_id(nid(C, {"g01": "1.2.643.2.2.19", "g256": "1.2.643.7.1.1.1.1", "g512": "1.2.643.7.1.1.1.2"}[h["t"]]), s.h)
    k = c_void_p()
    if C.EVP_PKEY_keygen_init(x) != 1 or C.EVP_PKEY_CTX_ctrl_str(x, b"paramset", OID[h["cv"]].encode()) != 1 or C.EVP_PKEY_keygen(x, byref(k)) != 1:
        return "generation failed"
    C.EVP_PKEY_CTX_free(x)
    s.keys[h["i"]] = k
    from .names import curve_problem
    return curve_problem(e, k, h["cv"])


def signature_problem(e, k, t, cv, label, eng):
    C, E = e.C, CURVES[cv]
    n = 64 if t == "g512" else 32
    d = data(e.seed, "life", "sign", label, n)
    x = C.EVP_PKEY_CTX_new(k, eng)
    if not x:
        return "no context for the key"
    try:
        ob, ol = buf(2 * n), c_size_t(2 * n)
        if C.EVP_PKEY_sign_init(x) != 1 or C.EVP_PKEY_sign(x, ob, byref(ol), d, n) != 1:
            return "signing failed"
        a, r = int.from_bytes(ob.raw[:n], "big"), int.from_bytes(ob.raw[n:], "big")
        dd = num(C, C.EC_KEY_get0_private_key(C.EVP_PKEY_get0(k)))
        v = int.from_bytes(d, "little") % E.q or 1
        w = pow(v, -1, E.q)
        P = E.add(E.mul(a * w % E.q), E.mul(-r * w % E.q, E.mul(dd)))
        if not (0 < r < E.q and 0 < a < E.q) or P is None or P[0] % E.q != r:
            return "the signature is not one on this curve"
        if C.EVP_PKEY_verify_init(x) != 1 or C.EVP_PKEY_verify(x, ob.raw, 2 * n, d, n) != 1:
            return "own signature not verified"
    finally:
        C.EVP_PKEY_CTX_free(x)


def do_sign(e, s, h, i):
    count(e, "signatures")
    return signature_problem(e, s.keys[h["i"]], h["t"], h["cv"], "%s.%d" % (s.job["id"], i), s.h)


def do_drop(e, s, h, i):
    e.C.EVP_PKEY_free(s.keys.pop(h["i"]))
    gone(s, h)


# ---- the known finding: tables of the previous life
def do_lookup(e, s, h, i):
    s.churn()
    x = e.C.EVP_PKEY_CTX_new_id(nid(e.C, "1.2.643.7.1.1.1.1"), None)
    if x:
        return "key methods of the unloaded engine are found"
