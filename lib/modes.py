"""Evaluates the terms of spec/Modes.tla (and textbook ECB/CBC) with the reference primitives."""
ALG = {"g28cfb": ("gost89", 7), "g28cbc": ("gost89-cbc", 7), "g28cnt": ("gost89-cnt", 3), "g28cn12": ("gost89-cnt-12", 7),
       "mecb": ("magma-ecb", 8), "mcbc": ("magma-cbc", 8), "mctr": ("magma-ctr", 8), "mctra": ("magma-ctr-acpkm", 8),
       "kecb": ("kuznyechik-ecb", 9), "kcbc": ("kuznyechik-cbc", 9), "kcfb": ("kuznyechik-cfb", 9), "kofb": ("kuznyechik-ofb", 9),
       "kctr": ("kuznyechik-ctr", 9), "kctra": ("kuznyechik-ctr-acpkm", 9)}
SBOX = {"A": 3, "B": 4, "C": 5, "D": 6, "T": 2, "Z": 7}
NAMES = {"A": b"id-Gost28147-89-CryptoPro-A-ParamSet", "B": b"id-Gost28147-89-CryptoPro-B-ParamSet",
         "C": b"id-Gost28147-89-CryptoPro-C-ParamSet", "D": b"id-Gost28147-89-CryptoPro-D-ParamSet",
         "T": b"id-Gost28147-89-TestParamSet", "Z": b"id-tc26-gost-28147-param-Z"}
IVLEN = {"g28cfb": 8, "g28cbc": 8, "g28cnt": 8, "g28cn12": 8, "mecb": 0, "mcbc": 8, "mctr": 4, "mctra": 4, "kecb": 0, "kcbc": 16,
         "kcfb": 16, "kofb": 16, "kctr": 8, "kctra": 8}


def xor(a, b):
    n = min(len(a), len(b))
    return (int.from_bytes(a[:n], "big") ^ int.from_bytes(b[:n], "big")).to_bytes(n, "big")


def mesh(R, algid, key):
    return R.acpkm(algid, key) if algid >= 8 else R.meshkey(algid, key)


def process(R, mode, algid, key, iv, sec, data, enc):
    """Mode(key, iv, sec)(data) for whole-block or arbitrary length data (stream modes)."""
    B = R.bs(algid)
    if mode == "ecb":
        return R.ecb(algid, key, data, enc)
    if mode == "cbc":
        return R.cbc(algid, key, iv, data, enc)[0]
    reg = iv + bytes(B - len(iv))
    if mode == "cnt":
        reg = R.E(algid, key, reg)
    out = []
    p = 0
    step = sec or len(data) or 1
    while p < len(data):
        if p:
            key = mesh(R, algid, key)
            if mode != "ctr":
                reg = R.E(algid, key, reg)
        seg = data[p:p + step]
        nb = -(-len(seg) // B)
        if mode == "ctr":
            out.append(xor(seg, R.ctr_ks(algid, key, reg, nb)))
            reg = ((int.from_bytes(reg, "big") + nb) % (1 << (8 * B))).to_bytes(B, "big")
        elif mode == "cnt":
            ks, reg = R.cnt_ks(algid, key, reg, nb)
            out.append(xor(seg, ks))
        elif mode == "ofb":
            ks, reg = R.ofb_ks(algid, key, reg, nb)
            out.append(xor(seg, ks))
        elif mode == "cfb":
            o, reg = R.cfb(algid, key, reg, seg, enc)
            out.append(o)
        p += step
    return b"".join(out)


def term(R, algid, kv, ivv, cblock, t):
    """Naive evaluation of a symbolic term of Modes.tla.  kv: key id -> bytes, ivv: iv id -> bytes."""
    B = R.bs(algid)
    h = t[0]
    if h == "iv":
        return ivv[t[1]] + bytes(B - len(ivv[t[1]]))
    if h == "ctr":
        v = ivv[t[1]] + bytes(B - len(ivv[t[1]]))
        return ((int.from_bytes(v, "big") + t[2]) % (1 << (8 * B))).to_bytes(B, "big")
    if h == "cb":
        return cblock(t[1])
    if h == "step":
        x = term(R, algid, kv, ivv, cblock, t[1])
        a = (int.from_bytes(x[:4], "little") + 0x01010101) % (1 << 32)
        b = int.from_bytes(x[4:], "little") + 0x01010104
        if b >= 1 << 32:
            b -= (1 << 32) - 1
        return a.to_bytes(4, "little") + b.to_bytes(4, "little")
    if h == "E":
        k = kv[t[1]]
        for _ in range(t[2]):
            k = mesh(R, algid, k)
        return R.E(algid, k, term(R, algid, kv, ivv, cblock, t[3]))
    raise ValueError(t)
