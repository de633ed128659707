"""Replay of KdfTree.tla (KDF_TREE, TLSTREE) and TlsApi.tla (record controls)."""
import ctypes
from lib import evp, ref, modes
from lib.evp import data, buf
from ctypes import c_int, byref, c_char_p, c_uint, c_size_t
from .omac import Env

NAMES = dict(modes.ALG)
MACS = {"mmac": ("magma-mac", 8), "kmac": ("kuznyechik-mac", 9)}
MODE = {"mctr": "ctr", "mctra": "ctr", "kctr": "ctr", "kctra": "ctr", "kofb": "ofb", "kcfb": "cfb", "g28cnt": "cnt", "g28cfb": "cfb"}
TLS_C, TLS_MD, SET_KEY, MESH = 0x2A, 0x4, 0x1004, 0x20


def setup(paths, seed):
    e = Env(); e.seed = seed
    e.R = ref.get(paths["ref"]); e.eng = evp.Engine(paths["engine"]); e.C = e.eng.C
    e.kdf = e.eng.fn("gost_kdftree2012_256", "i", "pzszszszz")
    e.tree = e.eng.fn("gost_tlstree", "i", "isps")
    e.cbc = {"m": e.C.OBJ_txt2nid(b"magma-cbc"), "k": e.C.OBJ_txt2nid(b"kuznyechik-cbc")}
    e.ci = {k: e.eng.cipher(NAMES[k][0]) for k in MODE}
    e.nid = {k: e.C.OBJ_txt2nid(v[0].encode()) for k, v in MACS.items()}
    e.md = {k: e.C.ENGINE_get_digest(e.eng.e, e.nid[k]) for k in MACS}
    e.calls = e.records = 0; e.cache = {}; e.how = {}; e.msg = {}
    return e


def stats(e):
    return dict(calls=e.calls, records=e.records)


def tree(e, key, lv):
    for l, q in enumerate(lv):
        c = (key, l, tuple(q))
        if c not in e.cache:
            if len(e.cache) > 20000:
                e.cache.clear()
            e.cache[c] = e.R.hmac(256, key, b"\1" + b"level%d" % (l + 1) + b"\0" + bytes(q) + b"\1\0")
        key = e.cache[c]
    return key


def run_job(e, o):
    if "hist" in o:
        return hist(e, o)
    e.calls += 1
    if o["k"] == "kdf":
        for kl in (32, 16, 64, 65):
            key, lab, seed = data(e.seed, "kk", kl, 32)[:kl] if kl <= 32 else data(e.seed, "kk", kl, kl), data(e.seed, "kl", o["label"], o["label"]), data(e.seed, "ks", o["seed"], o["seed"])
            out = buf(b"\x5a" * (o["out"] + 16), o["out"] + 16)
            r = e.kdf(ctypes.addressof(out), o["out"], key, kl, lab, len(lab), seed, len(seed), o["rep"])
            e.C.ERR_clear_error()
            if (r == 1) != o["ok"]:
                return {"why": "length %s" % ("accepted" if r == 1 else "refused"), "case": {k: v for k, v in o.items() if k != "steps"}}
            if not o["ok"]:
                continue
            want = b"".join(e.R.hmac(256, key, bytes(s["ctr"]) + lab + b"\0" + seed + bytes(s["len"])) for s in o["steps"])
            if out.raw != want + b"\x5a" * 16:
                return {"why": "KDF_TREE differs from its definition", "keylen": kl, "case": {k: v for k, v in o.items() if k != "steps"}}
        return None

    def real(q):
        out = buf(48)
        r = e.tree(e.cbc[o["alg"]], key, ctypes.addressof(out), bytes(q))
        return out.raw[:32] if r == 1 and out.raw[32:] == bytes(16) else None
    key = data(e.seed, "tk", o["alg"], 32)
    a = real(o["seq"])
    if a != tree(e, key, o["lv"]):
        return {"why": "TLSTREE key differs from its definition", "case": o}
    if o["k"] == "flip":
        b = real(o["seq2"])
        if b != tree(e, key, o["lv2"]) or (a == b) != o["same"]:
            return {"why": "a change of the sequence number has the wrong effect", "case": o}
    return None


def hist(e, job):
    ctx, keep = {}, []
    try:
        return _hist(e, job, ctx, keep)
    finally:
        for m, x in ctx.values():
            (e.C.EVP_MD_CTX_free if m else e.C.EVP_CIPHER_CTX_free)(x)
        for p in keep:
            e.C.EVP_PKEY_free(p)
        e.C.ERR_clear_error()


def _hist(e, job, ctx, keep):
    C, R, inp = e.C, e.R, {}
    keyb = lambda k: data(e.seed, "tlskey", k, 32)
    for i, o in enumerate(job["hist"]):
        s, op = o["s"], o["op"]
        e.calls += 1

        def bad(w, **kw):
            return dict(step=i, op=o, why=w, errs=C.errs()[:3], **{k: (v.hex() if isinstance(v, bytes) else v) for k, v in kw.items()})
        if op == "open":
            g = o["alg"]; mac = g in MACS
            if s in ctx:
                m, x = ctx.pop(s)
                (C.EVP_MD_CTX_free if m else C.EVP_CIPHER_CTX_free)(x)
            x = C.EVP_MD_CTX_new() if mac else C.EVP_CIPHER_CTX_new()
            ctx[s] = (mac, x)
            if not mac:
                if C.EVP_CipherInit_ex(x, e.ci[g], e.eng.e, keyb(o["key"]), bytes(o["iv"]), 1) != 1:
                    return bad("init failed")
                if o["mesh"] and C.EVP_CIPHER_CTX_ctrl(x, MESH, o["mesh"], None) <= 0:
                    return bad("section size refused")
            elif o["how"] == "md":
                kb = buf(keyb(o["key"]), 32)
                if C.EVP_DigestInit_ex(x, e.md[g], e.eng.e) != 1 or C.EVP_MD_CTX_ctrl(x, SET_KEY, 32, ctypes.addressof(kb)) != 1:
                    return bad("init failed")
            else:
                p = C.EVP_PKEY_new_mac_key(e.nid[g], e.eng.e, keyb(o["key"]), 32); keep.append(p)
                if C.EVP_DigestSignInit(x, None, e.md[g], e.eng.e, p) != 1:
                    return bad("init failed")
            e.how[s] = o["how"]
            continue
        mac, x = ctx[s]
        if op == "again":
            if C.EVP_CipherInit_ex(x, None, None, keyb(o["key"]) if o["key"] else None, None, 1) != 1:
                return bad("init failed")
        elif op == "tls":
            q = buf(bytes(o["seq"]), 8)
            r = C.EVP_MD_CTX_ctrl(x, TLS_MD, o["arg"], ctypes.addressof(q)) if mac else C.EVP_CIPHER_CTX_ctrl(x, TLS_C, o["arg"], ctypes.addressof(q))
            if (r > 0) != bool(o["ok"]):
                return bad("record control: %d" % r)
            if q.raw != bytes(o["seq"]):
                return bad("the caller's sequence number was changed")
            e.records += r > 0
        elif op == "upd":
            d = data(e.seed, "tin", job["id"], i + 1, o["n"])
            n = len(d)
            if mac:
                inp[i + 1] = d
                f = C.EVP_DigestUpdate
                if f(x, d, n) != 1:
                    return bad("update failed")
                continue
            ib = buf(d + b"\xa5" * 32, n + 32); ob = ib if o["ip"] else buf(b"\x5a" * (n + 32), n + 32); ol = c_int(-1)
            r = C.EVP_CipherUpdate(x, ctypes.addressof(ob), byref(ol), ctypes.cast(ib, c_char_p), n)
            g = o["alg"]
            k = tree(e, keyb(o["key"]), o["tree"]) if o["tree"] else keyb(o["key"])
            want = modes.process(R, MODE[g], NAMES[g][1], k, bytes(o["riv"]), o["sec"], bytes(o["pos"]) + d, 1)[o["pos"]:] if MODE[g] != "cfb" else None
            if r != 1 or ol.value != n:
                return bad("update failed")
            if MODE[g] == "cfb":
                # feedback: the reference needs the whole message
                h = e.msg.setdefault((job["id"], s), b"") if o["pos"] else b""
                e.msg[(job["id"], s)] = h + d
                want = modes.process(R, "cfb", NAMES[g][1], k, bytes(o["riv"]), o["sec"], h + d, 1)[len(h):]
            if ob.raw[:n] != want:
                return bad("wrong bytes", got=ob.raw[:min(n, 48)], expected=want[:48])
        elif op == "fin":
            g = o["alg"]
            out = buf(64)
            if e.how[s] == "md":
                r = C.EVP_DigestFinal_ex(x, out, None)
            else:
                z = c_size_t(64)
                r = C.EVP_DigestSignFinal(x, out, byref(z))
            k = tree(e, keyb(o["key"]), o["tree"]) if o["tree"] else keyb(o["key"])
            want = R.cmac(MACS[g][1], k, b"".join(inp[a] for a, _ in o["seg"]))
            if r != 1 or out.raw[:len(want)] != want:
                return bad("wrong MAC", got=out.raw[:16], expected=want)
            if e.how[s] == "md":
                del ctx[s]; C.EVP_MD_CTX_free(x)
        elif op == "copy":
            t = o["t"]
            if t in ctx:
                m, y = ctx.pop(t)
                (C.EVP_MD_CTX_free if m else C.EVP_CIPHER_CTX_free)(y)
            y = C.EVP_MD_CTX_new() if mac else C.EVP_CIPHER_CTX_new()
            ctx[t] = (mac, y)
            if (C.EVP_MD_CTX_copy_ex if mac else C.EVP_CIPHER_CTX_copy)(y, x) != 1:
                return bad("copy failed")
            e.how[t] = e.how[s]
            if (job["id"], s) in e.msg:
                e.msg[(job["id"], t)] = e.msg[(job["id"], s)]
        C.ERR_clear_error()
    return None
