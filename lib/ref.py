"""ctypes front of the independent reference primitives in /verif/ref."""
import ctypes, functools
from ctypes import c_int, c_long, c_char_p, c_void_p, create_string_buffer as buf

GOST_TEST, GOST_A, GOST_B, GOST_C, GOST_D, GOST_Z = 2, 3, 4, 5, 6, 7
MAGMA, KUZ = 8, 9


class Ref:
    def __init__(self, path):
        L = self.L = ctypes.CDLL(path)
        for n in ("ref_ecb", "ref_cbc", "ref_cfb", "ref_ofb_ks", "ref_ctr_ks", "ref_cnt_ks", "ref_imit",
                  "ref_cbcmac", "ref_mgm_mul", "ref_meshkey", "ref_h94", "ref_streebog"):
            getattr(L, n).restype = None

    def bs(self, alg):
        return 16 if alg == KUZ else 8

    def ecb(self, alg, key, data, enc=1):
        o = buf(max(1, len(data)))
        self.L.ref_ecb(c_int(alg), c_char_p(key), c_char_p(data), o, c_long(len(data) // self.bs(alg)), c_int(enc))
        return o.raw[:len(data)]

    def E(self, alg, key, block):
        return self.ecb(alg, key, block, 1)

    def cbc(self, alg, key, iv, data, enc):
        o = buf(max(1, len(data))); r = buf(iv, len(iv))
        self.L.ref_cbc(c_int(alg), c_char_p(key), r, c_char_p(data), o, c_long(len(data) // self.bs(alg)), c_int(enc))
        return o.raw[:len(data)], r.raw

    def cfb(self, alg, key, iv, data, enc):
        o = buf(max(1, len(data))); r = buf(iv, len(iv))
        self.L.ref_cfb(c_int(alg), c_char_p(key), r, c_char_p(data), o, c_long(len(data)), c_int(enc))
        return o.raw[:len(data)], r.raw

    def ofb_ks(self, alg, key, iv, nb):
        o = buf(max(1, nb * self.bs(alg))); r = buf(iv, len(iv))
        self.L.ref_ofb_ks(c_int(alg), c_char_p(key), r, o, c_long(nb))
        return o.raw[:nb * self.bs(alg)], r.raw

    def ctr_ks(self, alg, key, ctr, nb):
        o = buf(max(1, nb * self.bs(alg)))
        self.L.ref_ctr_ks(c_int(alg), c_char_p(key), c_char_p(ctr), o, c_long(nb))
        return o.raw[:nb * self.bs(alg)]

    def cnt_ks(self, alg, key, reg, nb):
        o = buf(max(1, nb * 8)); r = buf(reg, len(reg))
        self.L.ref_cnt_ks(c_int(alg), c_char_p(key), r, o, c_long(nb))
        return o.raw[:nb * 8], r.raw

    def imit(self, alg, key, state, data):
        r = buf(state, 8)
        self.L.ref_imit(c_int(alg), c_char_p(key), r, c_char_p(data), c_long(len(data) // 8))
        return r.raw

    def mul(self, bs, a, b):
        o = buf(bs)
        self.L.ref_mgm_mul(c_int(bs), c_char_p(a), c_char_p(b), o)
        return o.raw

    def meshkey(self, alg, key):
        """CryptoPro: K' = D_K(C)"""
        c = buf(32)
        self.L.ref_meshkey(c)
        return self.ecb(alg, key, c.raw, 0)

    def acpkm(self, alg, key):
        D = bytes(range(0x80, 0xA0))
        return self.ecb(alg, key, D, 1)

    def h94(self, sbox, data):
        o = buf(32)
        self.L.ref_h94(c_int(sbox), c_char_p(data), c_long(len(data)), o)
        return o.raw

    def streebog(self, bits, data):
        o = buf(64)
        self.L.ref_streebog(c_int(bits), c_char_p(data), c_long(len(data)), o)
        return o.raw[:bits // 8]

    # ------------------------------------------------------------ composed
    def cmac(self, alg, key, data):
        bs = self.bs(alg)
        def dbl(b):
            v = int.from_bytes(b, "big") << 1
            if v >> (8 * bs):
                v = (v & ((1 << (8 * bs)) - 1)) ^ (0x87 if bs == 16 else 0x1b)
            return v.to_bytes(bs, "big")
        k1 = dbl(self.E(alg, key, bytes(bs))); k2 = dbl(k1)
        n = max(1, -(-len(data) // bs))
        last = data[(n - 1) * bs:]
        if len(last) == bs:
            last = bytes(a ^ b for a, b in zip(last, k1))
        else:
            last = bytes(a ^ b for a, b in zip(last + b"\x80" + bytes(bs - len(last) - 1), k2))
        _, st = self.cbc(alg, key, bytes(bs), data[:(n - 1) * bs], 1) if n > 1 else (b"", bytes(bs))
        return self.E(alg, key, bytes(a ^ b for a, b in zip(last, st)))

    def hmac(self, bits, key, data):
        if len(key) > 64:
            key = self.streebog(bits, key)
        key = key + bytes(64 - len(key))
        i = self.streebog(bits, bytes(x ^ 0x36 for x in key) + data)
        return self.streebog(bits, bytes(x ^ 0x5c for x in key) + i)


@functools.lru_cache(None)
def get(path):
    return Ref(path)
