"""Replay of Threads.tla: real threads in the engine built with the scheduler of shim/sched.c.  Every
behaviour runs in a process of its own, so that each first use is one."""
import ctypes, os, threading
from ctypes import byref, c_char_p, c_int, c_size_t, c_void_p
from lib import evp, ref, ec, modes
from lib.evp import data, buf
from lib.ec import CURVES, OID
from . import kexp, life, macs, pk, settings, trans
from .names import curve_problem

ENVV = {"crypt": {"A": "1.2.643.2.2.31.1", "B": "1.2.643.2.2.31.2", "Z": "1.2.643.7.1.2.5.1.1"},
        "pbe": {"256": "md_gost12_256", "94": "md_gost94"}, "fmt": {"wrap": "LEGACY_PK_WRAP"}}
ALG = {"g01": "1.2.643.2.2.19", "g256": "1.2.643.7.1.1.1.1", "g512": "1.2.643.7.1.1.1.2"}


DERIVE = ["treek", "treem", "kdf", "expm", "expk", "cpwrap"]
CRYPTS = ["g28cnt", "g28cn12", "mecb", "mcbc", "kecb", "kcbc", "kcfb"]


def setup(paths, seed):
    e = life.setup(paths, seed)
    e.so = paths["wrap"]
    e.S = ctypes.CDLL(e.so)
    u32 = ctypes.POINTER(ctypes.c_uint32)
    e.S.sched_setup.argtypes = [c_int, c_int, ctypes.POINTER(c_int), c_int, u32, c_int, c_int]
    e.S.sched_setup.restype = None
    so = os.dup(1); n = os.open("/dev/null", os.O_WRONLY); os.dup2(n, 1)
    e.h = life.load(e)
    os.dup2(so, 1); os.close(so); os.close(n)
    if not e.h or not e.C.ENGINE_set_default(e.h, 0xFFFF):
        raise RuntimeError("the engine cannot be loaded")
    os.environ["VERIF_NOEXIT"] = "1"
    e.hot, e.steps, e.pubs = None, {}, {}
    for x in ENVV:
        os.environ.pop(settings.ENV[x], None)
    return e


def stats(e):
    return e.stat


def priv(e, o):
    return pk.priv_of(e.seed, (o["t"], o["cv"], "threads"))


def pub(e, o):
    k = (o["t"], o["cv"])
    if k not in e.pubs:
        e.pubs[k] = CURVES[o["cv"]].mul(priv(e, o))
    return e.pubs[k]


class T:
    """one thread's calls; .res: problem or None per call, .keys: what is looked at afterwards"""
    def __init__(self, e, n, ops):
        self.e, self.n, self.ops, self.res, self.keys = e, n, ops, [], []

    def run(self):
        e = self.e
        e.S.sched_enter(self.n)
        try:
            for i, o in enumerate(self.ops):
                try:
                    self.res.append(globals()["op_" + o["kind"]](e, self, o, i))
                except Exception:
                    import traceback
                    self.res.append({"harness_error": traceback.format_exc()})
        finally:
            e.S.sched_leave()

    def label(self, i):
        return "thread%d.%d" % (self.n, i)


def op_gen(e, t, o, i):
    C = e.C
    x = C.EVP_PKEY_CTX_new_id(C.OBJ_txt2nid(ALG[o["t"]].encode()), e.h)
    k = c_void_p()
    if not x or C.EVP_PKEY_keygen_init(x) != 1 or C.EVP_PKEY_CTX_ctrl_str(x, b"paramset", OID[o["cv"]].encode()) != 1 or C.EVP_PKEY_keygen(x, byref(k)) != 1:
        return "generation failed"
    C.EVP_PKEY_CTX_free(x)
    t.keys.append((i, k, o))
    return sign(e, k, o, t.label(i))


def sign(e, k, o, label):
    if o["cv"] in life.CURVES:
        return life.signature_problem(e, k, o["t"], o["cv"], label, e.h)


def op_dec(e, t, o, i):
    E = CURVES[o["cv"]]
    P = pub(e, o)
    k = pk.d2i(e.C, e.C.d2i_PUBKEY, ec.spki(o["t"], o["cv"], P[0].to_bytes(E.size, "little") + P[1].to_bytes(E.size, "little")))
    if not k:
        return "a public key is not decoded"
    t.keys.append((i, k, o))
    from .names import i2d
    b = i2d(e.C, e.C.i2d_PUBKEY, k)
    if OID[o["cv"]] and ec.oid(OID[o["cv"]]) not in b:
        return "the decoded key encodes to another parameter set"


def op_decpriv(e, t, o, i):
    k = pk.d2i(e.C, e.C.d2i_AutoPrivateKey, ec.pkcs8(o["t"], o["cv"], ec.priv_inner(CURVES[o["cv"]], priv(e, o))))
    if not k:
        return "a private key is not decoded"
    t.keys.append((i, k, o))
    return sign(e, k, o, t.label(i))


class Box:
    pass


def op_write(e, t, o, i):
    C = e.C
    k = pk.d2i(C, C.d2i_AutoPrivateKey, ec.pkcs8(o["t"], o["cv"], ec.priv_inner(CURVES[o["cv"]], pk.priv_of(e.seed, (o["t"], o["cv"], "set")))))
    if not k:
        return "a private key is not decoded"
    r = settings.written(e, k, o)
    t.keys.append((i, k, o))
    return r


def op_cipher(e, t, o, i):
    s = Box(); s.h = e.h
    x = settings.Stream(e, s, o["alg"], t.label(i))
    if not x.ok:
        return "init failed"
    if not x.feed(64):
        return "update failed"
    r = x.problem(o["is"])
    e.C.EVP_CIPHER_CTX_free(x.x)
    return r


def op_stream(e, t, o, i):
    c = life.Ctx(e, o["k"], t.label(i), e.h)
    if not c.ok:
        return "init failed"
    for n in (3, 64, 45):
        if not c.feed(n):
            return "update failed"
    return c.close()


def op_mac(e, t, o, i):
    C, R = e.C, e.R
    key, d = macs.keyb(e, t.n * 10 + i), data(e.seed, "threads", t.n, i, "d", 77)
    x = C.EVP_MD_CTX_new()
    try:
        m = C.ENGINE_get_digest(e.h, C.OBJ_txt2nid(macs.MD[o["k"]][0].encode()))
        if C.EVP_DigestInit_ex(x, m, e.h) != 1 or C.EVP_MD_CTX_ctrl(x, macs.SET_KEY, 32, key) != 1:
            return "key not taken"
        for a, b in ((0, 5), (5, 40), (40, 77)):
            if C.EVP_DigestUpdate(x, d[a:b], b - a) != 1:
                return "update failed"
        b, l = buf(64), ctypes.c_uint(0)
        if C.EVP_DigestFinal_ex(x, b, byref(l)) != 1:
            return "final failed"
        if b.raw[:l.value] != macs.oracle(e, dict(alg=o["k"], key=t.n * 10 + i, par=0, n=0, t=0), d)[:4 if o["k"][0] == "g" else 16]:
            return "wrong MAC"
    finally:
        C.EVP_MD_CTX_free(x)


def op_derive(e, t, o, i):
    """key derivation, export and wrapping, and what is made of them"""
    d = lambda w, n: data(e.seed, "threads", t.n, i, w, n)
    k, key = o["k"], d("key", 32)
    if k in ("treek", "treem"):
        f = e.S.gost_tlstree
        for x in range(3):
            q = d("q%d" % x, 8)
            out = buf(32)
            if f(e.C.OBJ_txt2nid(b"kuznyechik-cbc" if k == "treek" else b"magma-cbc"), c_char_p(key), out, c_char_p(q)) != 1:
                return "tlstree failed"
            ms = ((0xFFFFFFFF00000000, 0xFFFFFFFFFFF80000, 0xFFFFFFFFFFFFFFC0) if k == "treek" else (0xFFFFFFC000000000, 0xFFFFFFFFFE000000, 0xFFFFFFFFFFFFF000))
            w = key
            for l, m in enumerate(ms):
                w = e.R.hmac(256, w, b"\1" + b"level%d" % (l + 1) + b"\0" + (int.from_bytes(q, "big") & m).to_bytes(8, "big") + b"\1\0")
            if out.raw != w:
                return "wrong TLSTREE key"
    elif k == "kdf":
        out, lab, sd = buf(96), d("lab", 11), d("sd", 16)
        if e.S.gost_kdftree2012_256(out, c_size_t(96), c_char_p(key), c_size_t(32), c_char_p(lab), c_size_t(11), c_char_p(sd), c_size_t(16), c_size_t(1)) != 1:
            return "KDF_TREE failed"
        if out.raw != b"".join(e.R.hmac(256, key, bytes([j]) + lab + b"\0" + sd + b"\3\0") for j in (1, 2, 3)):
            return "wrong KDF_TREE"
    elif k in ("expm", "expk"):
        a = k[3]; nm = kexp.NID[a]
        cek, km = d("cek", 32), d("km", 32); iv = d("iv", nm[3])
        n = [e.C.OBJ_txt2nid(x.encode()) for x in nm[:2]]
        out, ol = buf(32 + nm[2]), c_int(32 + nm[2])
        if e.S.gost_kexp15(c_char_p(cek), 32, n[0], c_char_p(key), n[1], c_char_p(km), c_char_p(iv), c_size_t(nm[3]), out, byref(ol)) != 1:
            return "export failed"
        if out.raw != kexp.kexp_def(e.R, a, cek, iv, key, km):
            return "wrong export"
        back = buf(32)
        if e.S.gost_kimp15(out, c_size_t(32 + nm[2]), n[0], c_char_p(key), n[1], c_char_p(km), c_char_p(iv), c_size_t(nm[3]), back) != 1 or back.raw != cek:
            return "import failed"
    elif k == "cpwrap":
        x, out, back, ukm, cek = buf(16384), buf(44), buf(32), d("ukm", 8), d("cek", 32)
        e.S.gost_init(x, byref(ctypes.c_char.in_dll(e.S, "Gost28147_TC26ParamSetZ")))
        if e.S.keyWrapCryptoPro(x, c_char_p(key), c_char_p(ukm), c_char_p(cek), out) != 1 or out.raw != ukm + b"".join(kexp.cpwrap_def(e.R, 7, key, ukm, cek)):
            return "wrong wrapping"
        if e.S.keyUnwrapCryptoPro(x, c_char_p(key), out, back) != 1 or back.raw != cek:
            return "unwrapping failed"


def op_crypt(e, t, o, i):
    """a whole message through a cipher, there and back"""
    C = e.C; name, a = modes.ALG[o["k"]]
    d = lambda w, n: data(e.seed, "threads", t.n, i, w, n)
    key, iv, m = d("key", 32), d("iv", modes.IVLEN[o["k"]]), d("m", 1152)
    mode = ciphers_mode(o["k"])
    sec = 1024 if o["k"][:3] == "g28" and mode != "cbc" else 0
    for enc in (1, 0):
        x = C.EVP_CIPHER_CTX_new()
        try:
            if C.EVP_CipherInit_ex(x, C.ENGINE_get_cipher(e.h, C.OBJ_txt2nid(name.encode())), e.h, key, iv or None, enc) != 1:
                return "init failed"
            C.EVP_CIPHER_CTX_set_padding(x, 0)
            src = m if enc else ct
            out = b""
            for lo, hi in ((0, 16), (16, 64), (64, 1152)):
                b, l = buf(hi - lo + 32), c_int(0)
                if C.EVP_CipherUpdate(x, b, byref(l), src[lo:hi], hi - lo) != 1:
                    return "update failed"
                out += b.raw[:l.value]
            if out != (modes.process(e.R, mode, a, key, iv, sec, m, 1) if enc else m):
                return "wrong %s" % ("ciphertext" if enc else "plaintext")
            ct = out
        finally:
            C.EVP_CIPHER_CTX_free(x)


def ciphers_mode(k):
    return {"g28cfb": "cfb", "g28cnt": "cnt", "g28cn12": "cnt"}.get(k) or k[1:4].replace("28c", "cbc")


def op_trans(e, t, o, i):
    s = Box(); s.h, s.keys, s.job = e.h, {}, {"id": "threads%d" % t.n}
    return settings.do_trans(e, s, dict(o, set="A" if o["t"] == "g01" else "Z"), i)


def op_ssign(e, t, o, i):
    return sign(e, e.shared[o["t"], o["cv"]], o, t.label(i))


def op_strans(e, t, o, i):
    s = Box(); s.h, s.keys, s.job = e.h, e.shared, {"id": "threads%d" % t.n}
    return settings.do_trans(e, s, dict(o, set="Z"), i)


def op_pbe(e, t, o, i):
    s = Box(); s.h = e.h
    return settings.do_pbe(e, s, {"alg": "gost89-cnt", "is": o["is"]}, i)


def perform(e, progs, segs, hot, record, level):
    """-> (problem, information)"""
    n = len(progs)
    e.shared = {}
    for p in progs:
        for o in p:
            if o["kind"] in ("ssign", "strans") and (o["t"], o["cv"]) not in e.shared:
                e.shared[o["t"], o["cv"]] = pk.d2i(e.C, e.C.d2i_AutoPrivateKey, ec.pkcs8(o["t"], o["cv"], ec.priv_inner(CURVES[o["cv"]], priv(e, o))))
    flat = [v for sg in segs for v in sg]
    e.S.sched_setup(n, len(segs), (c_int * max(1, len(flat)))(*flat), len(hot), (ctypes.c_uint32 * max(1, len(hot)))(*hot), record, level)
    ts = [T(e, k, p) for k, p in enumerate(progs)]
    th = [threading.Thread(target=t.run, daemon=True) for t in ts]
    for x in th:
        x.start()
    for x in th:
        x.join()
    info = dict(points=[e.S.sched_info(0, k) for k in range(n)], switches=e.S.sched_info(1, 0), freerun=e.S.sched_info(2, 0), waited=e.S.sched_info(3, 0))
    if record:
        info["words"] = [ctypes.c_uint32(e.S.sched_info(5, k)).value for k in range(e.S.sched_info(4, 0))]
    for t in ts:
        for i, r in enumerate(t.res):
            if r:
                return (r if isinstance(r, dict) else dict(thread=t.n + 1, call=i, what=t.ops[i], problem=r)), info
        for i, k, o in t.keys:
            r = curve_problem(e, k, o["cv"])
            if r:
                return dict(thread=t.n + 1, call=i, what=o, problem=r), info
            d = e.C.EC_KEY_get0_private_key(e.C.EVP_PKEY_get0(k))
            if o["kind"] != "gen" and d and o["kind"] == "decpriv":
                from .names import num
                if num(e.C, d) != priv(e, o):
                    return dict(thread=t.n + 1, call=i, what=o, problem="another private key"), info
    return None, info


def put_env(v):
    for x, m in ENVV.items():
        if v[x]:
            os.environ[settings.ENV[x]] = m[v[x]]


def kid(e, job):
    put_env(job["env"])
    r, info = perform(e, job["progs"], job["segs"], job["hot"], job["record"], job["level"])
    return [r, info]


def child(e, env, progs, segs, hot, record, level):
    res, _ = life.forked(e, dict(env=env, progs=progs, segs=segs, hot=hot, record=record, level=level), kid)
    if isinstance(res, dict):                   # crash
        return res, None
    return res


def learn(e, env, ops, level):
    """the words of static data that calls write, and the scheduling points of each call made first"""
    if e.hot is None:
        e.hot = []
        full = dict(crypt="B", pbe="256", fmt="wrap")
        w = set()
        for o in ([dict(kind="gen", t=t, cv=c) for t, c in (("g01", "A"), ("g256", "TCB"), ("g256", "TCC"), ("g256", "TCD"), ("g256", "TCA"), ("g512", "512A"), ("g512", "512B"), ("g512", "512C"))]
                  + [dict(kind="cipher", alg="gost89", **{"is": "B"}), dict(kind="pbe", **{"is": "256"}), dict(kind="write", t="g01", cv="A", **{"is": "wrap"}), dict(kind="trans", t="g256", cv="TCA"), dict(kind="trans", t="g512", cv="512C")]
                  + [dict(kind="derive", k=k) for k in DERIVE] + [dict(kind="crypt", k=k) for k in CRYPTS]
                  + [dict(kind="mac", k=k) for k in macs.MD] + [dict(kind="stream", k=k) for k in life.KINDS if k != "cfb"]):
            r, info = child(e, full, [[o, o]], [], [], 1, 1)
            if info:
                w |= set(info["words"])
        e.hot = sorted(w)
        e.stat["shared_words"] = len(e.hot)
    for o in ops:
        key = repr((env, o, level))
        if key not in e.steps:
            r, info = child(e, env, [[o]], [], e.hot, 0, level)
            e.steps[key] = (r, info["points"][0] if info else 0)
    return [e.steps[repr((env, o, level))] for o in ops]


def run_job(e, job):
    env = dict(crypt="", pbe="", fmt="")
    progs, segs, parts = {}, [], []
    for h in job["hist"]:
        if h["op"] == "env":
            env = h["env"]
        elif h["op"] == "add":
            progs.setdefault(h["th"], []).append(h["do"])
        elif h["op"] == "go":
            segs.append((h["th"] - 1, h["n"]))
        elif h["op"] == "part":
            parts.append(h)
    ps = [progs[k] for k in sorted(progs)]
    firsts = learn(e, env, [p[0] for p in ps], job["level"])
    for (r, n), p in zip(firsts, ps):
        if r:
            return dict(alone=p[0], problem=r)
    for h in parts:
        y = firsts[h["th"] - 1][1]
        n = h["n"] if y <= h["of"] else h["n"] * y // h["of"]
        if n > y:
            e.stat["past the end"] = e.stat.get("past the end", 0) + 1
            return None
        if n:
            segs.append((h["th"] - 1, n))
    r, info = child(e, env, ps, segs, e.hot, 0, job["level"])
    for k in ("switches", "freerun", "waited"):
        e.stat[k] = e.stat.get(k, 0) + (info[k] if info else 0)
    e.stat["points"] = e.stat.get("points", 0) + (sum(info["points"]) if info else 0)
    if r:
        return dict(env=env, level=job["level"], programs=ps, schedule=segs, result=r) if not (isinstance(r, dict) and "harness_error" in r) else r
