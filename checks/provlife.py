"""Replay of ProvLife.tla: the provider in several library contexts."""
import ctypes, os
from lib import evp, ref, modes
from lib.evp import data, buf, params
from checks.macs import keyb, oracle
from checks import mgm
from checks.provmac import NAMES as MACS
from checks.digests import _d, MD
from ctypes import c_int, c_uint, c_size_t, byref

CIPH = {a: modes.ALG[a][0] for a in modes.ALG if a != "mecb"}
CIPH.update(mmgm="magma-mgm", kmgm="kuznyechik-mgm")
# name -> (kind, algorithm, key or output length, iv or block length)
TC = "1.2.643.7.1.1."
LOOK = {"gost89": ("c", "g28cfb", 32, 8), "GOST 28147-89": ("c", "g28cfb", 32, 8), "1.2.643.2.2.21": ("c", "g28cfb", 32, 8), "gost89-cnt": ("c", "g28cnt", 32, 8),
        "gost89-cnt-12": ("c", "g28cn12", 32, 8), "gost89-cbc": ("c", "g28cbc", 32, 8), "kuznyechik-ecb": ("c", "kecb", 32, 0), "kuznyechik-cbc": ("c", "kcbc", 32, 16),
        "kuznyechik-cfb": ("c", "kcfb", 32, 16), "kuznyechik-ofb": ("c", "kofb", 32, 16), "kuznyechik-ctr": ("c", "kctr", 32, 8), "magma-cbc": ("c", "mcbc", 32, 8),
        "magma-ctr": ("c", "mctr", 32, 4), "magma-ctr-acpkm": ("c", "mctra", 32, 4), TC + "5.1.1": ("c", "mctra", 32, 4), "kuznyechik-ctr-acpkm": ("c", "kctra", 32, 8),
        TC + "5.2.1": ("c", "kctra", 32, 8), "magma-mgm": ("c", "mmgm", 32, 8), "kuznyechik-mgm": ("c", "kmgm", 32, 16),
        TC + "5.1.2": ("c", None, 32, 4), TC + "5.2.2": ("c", None, 32, 8),
        "md_gost94": ("d", "94", 32, 32), "id-GostR3411-94": ("d", "94", 32, 32), "1.2.643.2.2.9": ("d", "94", 32, 32),
        "md_gost12_256": ("d", "256", 32, 64), "id-tc26-gost3411-12-256": ("d", "256", 32, 64), TC + "2.2": ("d", "256", 32, 64),
        "md_gost12_512": ("d", "512", 64, 64), "id-tc26-gost3411-12-512": ("d", "512", 64, 64), TC + "2.3": ("d", "512", 64, 64),
        "gost-mac": ("m", "gmac", 4, 0), "1.2.643.2.2.22": ("m", "gmac", 4, 0), "gost-mac-12": ("m", "gmac12", 4, 0), "magma-mac": ("m", "mmac", 8, 0),
        "kuznyechik-mac": ("m", "kmac", 16, 0), "kuznyechik-ctr-acpkm-omac": ("m", "kacpkm", 16, 0), "m:" + TC + "5.2.2": ("m", "kacpkm", 16, 0),
        "GOST none": ("c", None, 0, 0)}


class Env:
    pass


def setup(paths, seed):
    e = Env(); e.seed = seed
    e.R = ref.get(paths["ref"]); e.C = evp.crypto()
    e.dir = os.path.dirname(paths["prov"]).encode()
    e.calls = e.loads = e.results = e.looked = 0
    return e


def stats(e):
    return dict(calls=e.calls, loads=e.loads, results=e.results, names=e.looked)


class Obj:
    def __init__(self, e, C, l, alg, jid, n):
        self.e, self.C, self.alg, self.jid, self.n = e, C, alg, jid, n
        self.kind = "d" if alg in MD else "m" if alg in MACS else "c"
        self.f = fetch(C, l, self.kind, {"d": MD.get(alg, [0])[0], "m": MACS.get(alg), "c": CIPH.get(alg)}[self.kind])
        self.x = None
        self.inp = [data(e.seed, "pl", jid, n, h, 16 * (5 + (n * 7 + h) % 90)) for h in (0, 1)]
        if alg in MD or alg in MACS:
            self.inp[1] += data(e.seed, "pl", jid, n, 2, n % 16)
        self.key = keyb(e, n)
        self.out = b""

    def begin(self):
        C = self.C
        if self.kind == "d":
            self.x = C.EVP_MD_CTX_new()
            return C.EVP_DigestInit_ex(self.x, self.f, None) == 1
        if self.kind == "m":
            self.x = C.EVP_MAC_CTX_new(self.f)
            return self.x and C.EVP_MAC_init(self.x, self.key, 32, None) == 1
        self.x = C.EVP_CIPHER_CTX_new()
        ivl = C.EVP_CIPHER_get_iv_length(self.f)
        self.iv = data(self.e.seed, "pliv", self.jid, self.n, ivl)
        if self.alg in ("mmgm", "kmgm"):
            self.iv = bytes([self.iv[0] & 127]) + self.iv[1:]
        # the parameter goes with the call that names the cipher
        self.sec = 0
        a = None
        if self.alg in ("mctra", "kctra"):
            self.sec = (32, 48, 64, 1024)[self.n % 4]
            a = params(key_mesh=self.sec)
        if C.EVP_CipherInit_ex2(self.x, self.f, self.key, self.iv, 1, ctypes.addressof(a) if a else None) != 1:
            return False
        C.EVP_CIPHER_CTX_set_padding(self.x, 0)
        return True

    def feed(self, h):
        C, d = self.C, self.inp[h]
        if self.kind == "d":
            return C.EVP_DigestUpdate(self.x, d, len(d)) == 1
        if self.kind == "m":
            return C.EVP_MAC_update(self.x, d, len(d)) == 1
        ob, ol = buf(bytes(len(d) + 64), len(d) + 64), c_int(0)
        r = C.EVP_CipherUpdate(self.x, ob, byref(ol), d, len(d))
        if r == 1:
            self.out += ob.raw[:ol.value]
        return r == 1

    def end(self):
        """complaint or None"""
        C, e, m = self.C, self.e, b"".join(self.inp)
        ob = buf(bytes(200), 200)
        if self.kind == "d":
            ol = c_uint(0)
            r = C.EVP_DigestFinal_ex(self.x, ob, byref(ol))
            want = _d(e, self.alg, m)
            got = ob.raw[:ol.value]
        elif self.kind == "m":
            sl = c_size_t(0)
            r = C.EVP_MAC_final(self.x, ctypes.addressof(ob), byref(sl), 200)
            want = oracle(e, dict(alg=self.alg, key=self.n, par="", n=0, t=0), m)[:LOOK[MACS[self.alg]][2]]
            got = ob.raw[:sl.value]
        elif self.alg in ("mmgm", "kmgm"):
            r = 1
            want = modes.xor(mgm.keystream(e.R, 8 if self.alg == "mmgm" else 9, self.key, self.iv, len(m)), m)
            got = self.out
        else:
            ol = c_int(0)
            r = C.EVP_CipherFinal_ex(self.x, ob, byref(ol))
            got = self.out + ob.raw[:ol.value]
            mode = {"g28cfb": "cfb", "g28cbc": "cbc", "g28cnt": "cnt", "g28cn12": "cnt", "mctra": "ctr", "kctra": "ctr"}.get(self.alg, self.alg[1:])
            sec = 1024 if self.alg.startswith("g28") else self.sec
            want = modes.process(e.R, mode, modes.ALG[self.alg][1], self.key, self.iv, sec, m, 1)
        e.results += 1
        if r != 1:
            return "final failed"
        if got != want:
            return "wrong result: %s for %s" % (got[:32].hex(), want[:32].hex())

    def free(self):
        C = self.C
        {"d": C.EVP_MD_CTX_free, "m": C.EVP_MAC_CTX_free, "c": C.EVP_CIPHER_CTX_free}[self.kind](self.x)
        unfetch(C, self.kind, self.f)


def fetch(C, l, kind, name):
    return {"d": C.EVP_MD_fetch, "m": C.EVP_MAC_fetch, "c": C.EVP_CIPHER_fetch}[kind](l, name.encode(), None)


def unfetch(C, kind, f):
    {"d": C.EVP_MD_free, "m": C.EVP_MAC_free, "c": C.EVP_CIPHER_free}[kind](f)


def run_job(e, job):
    C = e.C
    st = dict(libs={0: None}, provs={}, objs={})
    try:
        return _run(e, job, st)
    finally:
        for o in st["objs"].values():
            o.free()
        for p in st["provs"].values():
            C.OSSL_PROVIDER_unload(p)
        for k, l in st["libs"].items():
            if k:
                C.OSSL_LIB_CTX_free(l)
        C.ERR_clear_error()


def _run(e, job, st):
    C, libs, provs, objs, jid = e.C, st["libs"], st["provs"], st["objs"], job["id"]
    C.OSSL_PROVIDER_set_default_search_path(None, e.dir)
    if not hasattr(e, "default"):
        e.default = C.OSSL_PROVIDER_load(None, b"default")
    for i, o in enumerate(job["ops"]):
        op, s = o["op"], o["s"]
        l = libs.get(o["l"])
        e.calls += 1

        def bad(why):
            return {"step": i, "op": o, "why": why, "errors": C.errs()[:3]}
        if op == "lib":
            libs[o["l"]] = l = C.OSSL_LIB_CTX_new()
            C.OSSL_PROVIDER_set_default_search_path(l, e.dir)
        elif op == "load":
            p = C.OSSL_PROVIDER_load(l, b"gostprov")
            if not p:
                return bad("not loaded")
            provs[o["l"]] = p
            e.loads += 1
        elif op == "unload":
            if C.OSSL_PROVIDER_unload(provs.pop(o["l"])) != 1:
                return bad("not unloaded")
        elif op == "drop":
            C.OSSL_LIB_CTX_free(libs.pop(o["l"]))
        elif op == "begin":
            x = Obj(e, C, l, o["alg"], jid, o["id"])
            if bool(x.f) != bool(o["ok"]):
                if x.f:
                    unfetch(C, x.kind, x.f)
                return bad("fetched from an unloaded provider" if x.f else "not fetched")
            if x.f:
                objs[s] = x
                if not x.begin():
                    return bad("init failed")
        elif op == "half":
            if not objs[s].feed(0):
                return bad("update failed")
        elif op == "end":
            x = objs[s]
            if not x.feed(1):
                return bad("update failed")
            why = x.end()
            if why:
                return bad(why)
            objs.pop(s).free()
        elif op == "free":
            objs.pop(s).free()
        elif op == "look":
            k, alg, n1, n2 = LOOK[o["name"]]
            f = fetch(C, l, k, o["name"].removeprefix("m:"))
            if bool(f) != bool(o["ok"]):
                if f:
                    unfetch(C, k, f)
                return bad("found" if f else "not found")
            if f:
                e.looked += 1
                if k == "c":
                    got = (C.EVP_CIPHER_get_key_length(f), C.EVP_CIPHER_get_iv_length(f))
                elif k == "d":
                    got = (C.EVP_MD_get_size(f), C.EVP_MD_get_block_size(f))
                else:
                    x = C.EVP_MAC_CTX_new(f)
                    got = (C.EVP_MAC_CTX_get_mac_size(x), 0)
                    C.EVP_MAC_CTX_free(x)
                main = {"c": CIPH, "m": MACS, "d": {q: v[0] for q, v in MD.items()}}[k].get(alg)
                isa = {"c": C.EVP_CIPHER_is_a, "d": C.EVP_MD_is_a, "m": C.EVP_MAC_is_a}[k](f, main.encode()) if main else 1
                unfetch(C, k, f)
                if got != (n1, n2):
                    return bad("lengths %s instead of %s" % (got, (n1, n2)))
                if isa != 1:
                    return bad("is not " + main)
        elif op == "err":
            f = fetch(C, l, "m", "magma-mac")
            if not f:
                return bad("not found")
            x = C.EVP_MAC_CTX_new(f)
            r = C.EVP_MAC_update(x, b"x", 1)
            errs = C.errs()
            C.EVP_MAC_CTX_free(x)
            unfetch(C, "m", f)
            if r == 1:
                return bad("data accepted without a key")
            if not any("mac key not set" in q for q in errs):
                return dict(bad("the reason is not given"), errors=errs[:3])
        C.ERR_clear_error()
    return None
