"""Very long messages on the counter modes: the closed form lets the far end be checked directly."""
import ctypes
from lib import evp, ref, modes
from lib.evp import data, buf
from ctypes import c_int, byref
from checks.ciphers import keyb, ivb, setup as _setup


def setup(paths, seed):
    return _setup(paths, seed)


def stats(e):
    return {"bytes": e.bytes}


def run_job(e, job):
    C, al, R = e.C, job["alg"], e.R
    B = R.bs(modes.ALG[al][1]); a = modes.ALG[al][1]
    key, iv = keyb(e, 1), ivb(e, 1, modes.IVLEN[al])
    x = C.EVP_CIPHER_CTX_new()
    try:
        if C.EVP_CipherInit_ex(x, e.ci[al], e.eng.e, key, iv, 1) != 1:
            return {"why": "init failed"}
        total = job["blocks"] * B
        e.bytes += total
        CH = 1 << 22
        z = buf(CH + 64); o = buf(CH + 64); ol = c_int()
        p = 0
        short = total <= 1 << 21
        acc = []
        marks = set()
        while p < total:
            n = min(CH - 24, total - p) if p == 0 else min(CH, total - p)
            if C.EVP_CipherUpdate(x, ctypes.addressof(o), byref(ol), ctypes.cast(z, ctypes.c_char_p), n) != 1 or ol.value != n:
                return {"why": "update failed at %d" % p}
            if short:
                acc.append(o.raw[:n])
            else:                    # keystream around the counter's carries, by the closed form
                for c in (0, 255, 256, 65535, 65536, (1 << 24) - 1, 1 << 24, job["blocks"] - 1):
                    q = c * B
                    if p <= q and q + B <= p + n:
                        ctr = ((int.from_bytes(iv + bytes(B - len(iv)), "big") + c) % (1 << 8 * B)).to_bytes(B, "big")
                        marks.add(c)
                        if o.raw[q - p:q - p + B] != R.E(a, key, ctr):
                            return {"why": "wrong keystream at block %d" % c, "alg": al}
            p += n
        if short:
            got = b"".join(acc)
            S = {"g28cnt": 1024, "kctra": 4096, "mctra": 1024}.get(al, 0)
            mode = "cnt" if al == "g28cnt" else "ctr"
            want = modes.process(R, mode, a, key, iv, S, bytes(total), 1)
            if got != want:
                k = next(i for i in range(total) if got[i] != want[i])
                return {"why": "wrong output at byte %d" % k, "alg": al}
        return None
    finally:
        C.EVP_CIPHER_CTX_free(x)
