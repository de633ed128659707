"""Replay of CipherApi.tla behaviours into the engine's EVP ciphers."""
import ctypes, sys, os
from lib import evp, ref, modes
from lib.evp import data, buf
from ctypes import c_int, byref, c_void_p

GUARD = 64


class Env:
    pass


def header_const(name):
    import re, glob
    for f in ("/repo/gost_lcl.h", "/usr/include/openssl/evp.h"):
        for ln in open(f, errors="replace"):
            m = re.match(r"#\s*define\s+%s\s+(.*)" % name, ln)
            if m:
                v = m.group(1).split("/*")[0].strip().strip("()")
                try:
                    return int(v, 0)
                except ValueError:
                    base, _, off = v.partition("+")
                    return header_const(base.strip()) + (int(off, 0) if off else 0)
    raise KeyError(name)


def setup(paths, seed):
    e = Env()
    e.seed = seed
    e.R = ref.get(paths["ref"])
    e.eng = evp.load(paths)
    e.C = e.eng.C
    e.SET_SBOX = header_const("EVP_CTRL_SET_SBOX")
    e.ci = {k: e.eng.cipher(v[0]) for k, v in modes.ALG.items()}
    e.calls = 0
    e.bytes = 0
    return e


def stats(e):
    return {"calls": e.calls, "bytes": e.bytes}


def keyb(e, k):
    return data(e.seed, "key", k, 32)


HI = [0xfefefefb, 0xfefefefc, 0xfefefefd, 0xfefefefe, 0xffffffff, 0, 0xfdfdfdf8, 0xf7f7f7dc]
LO = [0xfefefefe, 0xfefefeff, 0xffffffff, 0, 0xfdfdfdfd, 0xf6f6f6f6, 0x12345678, 0xfefefefd]


def ivb(e, v, n, alg=None):
    if v > 6:
        # made for key (v-7)%3+1: the register of CNT starts close to its limits
        t = (v - 7) // 3
        reg = LO[(t + t // 8 * 3) % 8].to_bytes(4, "little") + HI[t % 8].to_bytes(4, "little")
        return e.R.ecb(modes.ALG[alg][1], keyb(e, (v - 7) % 3 + 1), reg, 0)
    if v == 4:
        return b"\xff" * n
    if v == 5:
        return bytes(n)
    if v == 6:
        return data(e.seed, "iv6", max(0, n - 3)) + b"\xff\xff\xfe"[:n] if n else b""
    return data(e.seed, "iv", v, n)


def pkcs(d, B):
    n = B - len(d) % B
    return d + bytes([n]) * n


def raw(e, jid, step, n):
    return data(e.seed, "in", jid, step, n)


def algid_of(o):
    return modes.SBOX[o["sbox"]] if o["sbox"] else modes.ALG[o["alg"]][1]


def ct_of(e, jid, o, msg, tot):
    a = algid_of(o)
    return modes.process(e.R, o["mode"], a, keyb(e, o["key"]), ivb(e, o["iv"], modes.IVLEN[o["alg"]], o["alg"]), o["sec"],
                         pkcs(raw(e, jid, "ct%d" % msg, tot), e.R.bs(a)), 1)


def piece(e, jid, o, c):
    if c["ct"]:
        return ct_of(e, jid, o, c["ct"], c["tot"])[c["off"]:c["off"] + c["n"]]
    return raw(e, jid, c["id"], c["n"])


def expectations(e, jid, ops):
    """full expected output for each op, by the spec's closed form on the op's own chain."""
    exp = [None] * len(ops)
    done = []
    for i in range(len(ops) - 1, -1, -1):
        o = ops[i]
        if o["op"] not in ("upd", "fin"):
            continue
        if o["op"] == "fin" and o["kind"] not in ("pad", "unpad"):
            continue
        a = algid_of(o)
        B = o["B"]
        ch = o["chain"]
        sig = (o["alg"], a, o["key"], o["iv"], o["sec"], o["enc"])
        blk = o["mode"] in ("ecb", "cbc")
        inp = None
        full = None
        if o["op"] == "upd" or o["kind"] == "unpad":
            for s2, ch2, full2 in done:
                if s2 == sig and len(ch2) >= len(ch) and ch2[:len(ch)] == ch:
                    full = full2
                    break
        if full is None:
            inp = b"".join(piece(e, jid, o, c) for c in ch)
            if o["op"] == "fin" and o["kind"] == "pad":
                inp = pkcs(inp, B)
            if blk:
                inp = inp[:len(inp) // B * B]
            full = modes.process(e.R, o["mode"], a, keyb(e, o["key"]), ivb(e, o["iv"], modes.IVLEN[o["alg"]], o["alg"]), o["sec"], inp, o["enc"])
            if not (o["op"] == "fin" and o["kind"] == "pad"):
                done.append((sig, ch, full))
        if o["op"] == "upd":
            exp[i] = full[o["from"]:o["from"] + o["outl"]]
            assert len(exp[i]) == o["outl"], (o, len(full))
        elif o["kind"] == "pad":
            exp[i] = full[o["from"]:]
        else:
            total = sum(c["n"] for c in ch)
            last = full[o["from"]:total]
            n = last[-1] if last else 0
            ok = len(last) == B and 1 <= n <= B and last[-n:] == bytes([n]) * n
            exp[i] = last[:B - n] if ok else None
    return exp


def iv_now(e, jid, o):
    """the updated IV after n whole blocks"""
    B, iv = o["B"], ivb(e, o["iv"], modes.IVLEN[o["alg"]], o["alg"])
    if not o["n"]:
        return iv
    if o["mode"] == "ctr":
        return ((int.from_bytes(iv + bytes(B - len(iv)), "big") + o["n"]) % (1 << 8 * B)).to_bytes(B, "big")
    inp = b"".join(piece(e, jid, o, c) for c in o["chain"])
    out = modes.process(e.R, o["mode"], algid_of(o), keyb(e, o["key"]), iv, o["sec"], inp, o["enc"])
    a, b = inp[-B:], out[-B:]
    return modes.xor(a, b) if o["mode"] == "ofb" else b if o["enc"] else a


def run_job(e, job):
    ctxs = {}
    try:
        return _run(e, job, ctxs)
    except Exception as ex:
        import traceback
        return {"exception": traceback.format_exc()[-800:]}
    finally:
        for c in ctxs.values():
            e.C.EVP_CIPHER_CTX_free(c)
        e.C.ERR_clear_error()


def _run(e, job, ctxs):
    C = e.C
    jid, ops = job["id"], job["ops"]
    exp = expectations(e, jid, ops)
    for i, o in enumerate(ops):
        s = o["s"]
        if s not in ctxs:
            ctxs[s] = C.EVP_CIPHER_CTX_new()
        x = ctxs[s]
        op = o["op"]
        e.calls += 1

        def bad(why, **kw):
            d = {"step": i, "op": {k: v for k, v in o.items() if k != "chain"}, "why": why, "errors": C.errs()[:4]}
            d.update({k: (v[:96].hex() if isinstance(v, bytes) else v) for k, v in kw.items()})
            return d

        if op in ("new", "reinit"):
            al = o["alg"]
            iv = ivb(e, o["iv"], modes.IVLEN[al], al) if o["iv"] and modes.IVLEN[al] else None
            key = keyb(e, o["key"]) if o["key"] else None
            if op == "new":
                C.EVP_CIPHER_CTX_reset(x)
                ci, en = e.ci[al], o["enc"]
                seq = {"all": [(ci, key, iv, en)], "two": [(ci, None, None, en), (None, key, iv, -1)],
                       "keyfirst": [(ci, key, None, en), (None, None, iv, -1)],
                       "ivfirst": [(ci, None, iv, en), (None, key, None, -1)]}[o["how"]]
            else:
                # OpenSSL itself forgets key and IV if a provided cipher is named again
                seq = [(e.ci[al] if o["again"] and e.eng.e else None, key, iv, o["enc"])]
            for ci, k, v, en in seq:
                if C.EVP_CipherInit_ex(x, ci, e.eng.e if ci else None, k, v, en) != 1:
                    return bad("init failed")
            if op == "reinit" and o["mesh"]:
                if e.eng.mesh(x, o["mesh"] - 1) <= 0:
                    return bad("section-size control refused right after initialisation")
        elif op == "upd":
            d = piece(e, jid, o, o["chain"][-1])
            e.bytes += len(d)
            n, al = len(d), o["al"]
            ib = buf(bytes(al) + d + b"\xA5" * GUARD, al + n + GUARD)
            if o["inpl"]:
                ob, oo = ib, al
            else:
                ob, oo = buf(b"\x5A" * (n + 32 + GUARD + al), n + 32 + GUARD + al), al
            ol = c_int(-1)
            r = C.EVP_CipherUpdate(x, ctypes.addressof(ob) + oo, byref(ol), ctypes.cast(ctypes.addressof(ib) + al, ctypes.c_char_p), n)
            if r != 1:
                return bad("update failed")
            if ol.value != o["outl"]:
                return bad("update produced %d bytes, expected %d" % (ol.value, o["outl"]))
            got = ob.raw[oo:oo + ol.value]
            if got != exp[i]:
                k = next(j for j in range(len(got)) if got[j] != exp[i][j])
                return bad("wrong output, first at byte %d of this call (byte %d of the message)" % (k, o["from"] + k),
                           got=got[k:], expected=exp[i][k:])
            if o["inpl"]:
                if ib.raw[al + n:] != b"\xA5" * GUARD:
                    return bad("wrote past the buffer")
            elif ob.raw[oo + n + 32:] != b"\x5A" * (len(ob) - oo - n - 32):
                return bad("wrote past the buffer")
        elif op == "fin":
            ob = buf(64); ol = c_int(-1)
            r = C.EVP_CipherFinal_ex(x, ob, byref(ol))
            k = o["kind"]
            want = b"" if k == "none" else exp[i] if k in ("pad", "unpad") else None
            if want is None:
                if r == 1:
                    return bad("final accepted a message that is not correctly padded / not whole blocks")
                C.ERR_clear_error()
            else:
                if r != 1:
                    return bad("final failed")
                if ob.raw[:ol.value] != want:
                    return bad("wrong final output", got=ob.raw[:max(0, ol.value)], expected=want)
        elif op == "copy":
            t = o["t"]
            if t not in ctxs:
                ctxs[t] = C.EVP_CIPHER_CTX_new()
            if C.EVP_CIPHER_CTX_copy(ctxs[t], x) != 1:
                return bad("copy failed")
        elif op == "pad":
            C.EVP_CIPHER_CTX_set_padding(x, o["v"])
        elif op == "mesh":
            r = e.eng.mesh(x, o["v"])
            if (r > 0) != bool(o["ok"]):
                return bad("section-size control returned %d" % r)
            C.ERR_clear_error()
        elif op == "iv":
            # as much of it as the IV is long
            v, want = buf(16), iv_now(e, jid, o)[:modes.IVLEN[o["alg"]]]
            if C.EVP_CIPHER_CTX_get_updated_iv(x, v, 16) != 1:
                return bad("the updated IV is refused")
            got = v.raw[:len(want)]
            if got != want:
                return bad("wrong updated IV", got=got, expected=want)
        elif op == "sbox":
            nm = buf(modes.NAMES[o["v"]])
            if C.EVP_CIPHER_CTX_ctrl(x, e.SET_SBOX, 0, ctypes.addressof(nm)) <= 0:
                return bad("S-box control failed")
    return None
