"""GOST R 34.10 elliptic curves on Python integers: the oracle for signatures, key agreement and
point multiplication.  The constants are those of RFC 4357, RFC 7836 and GOST R 34.10-2012; selftest()
proves them consistent (p, q prime; G on the curve; q*G = O; h*q inside Hasse's interval)."""


class Curve:
    def __init__(self, name, p, a, b, q, h, x, y, size):
        self.name, self.p, self.a, self.b, self.q, self.h, self.g, self.size = name, p, a, b, q, h, (x, y), size

    # Jacobian coordinates; None is the point at infinity
    def _dbl(self, P):
        X, Y, Z = P
        p = self.p
        if Y == 0 or Z == 0:
            return (1, 1, 0)
        YY = Y * Y % p
        S = 4 * X * YY % p
        ZZ = Z * Z % p
        M = (3 * X * X + self.a * ZZ * ZZ) % p
        X3 = (M * M - 2 * S) % p
        return (X3, (M * (S - X3) - 8 * YY * YY) % p, 2 * Y * Z % p)

    def _add(self, P, Q):
        if P[2] == 0:
            return Q
        if Q[2] == 0:
            return P
        p = self.p
        X1, Y1, Z1 = P
        X2, Y2, Z2 = Q
        Z1Z1, Z2Z2 = Z1 * Z1 % p, Z2 * Z2 % p
        U1, U2 = X1 * Z2Z2 % p, X2 * Z1Z1 % p
        S1, S2 = Y1 * Z2 * Z2Z2 % p, Y2 * Z1 * Z1Z1 % p
        H, R = (U2 - U1) % p, (S2 - S1) % p
        if H == 0:
            return self._dbl(P) if R == 0 else (1, 1, 0)
        HH = H * H % p
        HHH = H * HH % p
        V = U1 * HH % p
        X3 = (R * R - HHH - 2 * V) % p
        return (X3, (R * (V - X3) - S1 * HHH) % p, Z1 * Z2 * H % p)

    def _aff(self, P):
        if P[2] == 0:
            return None
        zi = pow(P[2], -1, self.p)
        z2 = zi * zi % self.p
        return (P[0] * z2 % self.p, P[1] * z2 * zi % self.p)

    def _jac(self, P):
        return (1, 1, 0) if P is None else (P[0], P[1], 1)

    def add(self, P, Q):
        return self._aff(self._add(self._jac(P), self._jac(Q)))

    def neg(self, P):
        return None if P is None else (P[0], -P[1] % self.p)

    def mul(self, k, P=0):
        """k*P for any integer k >= 0, no reduction of k; P defaults to the generator"""
        P = self.g if P == 0 else P
        R, B = (1, 1, 0), self._jac(P)
        for bit in bin(k)[2:] if k else "":
            R = self._dbl(R)
            if bit == "1":
                R = self._add(R, B)
        return self._aff(R)

    def mul2(self, n, m, Q):
        return self.add(self.mul(n), self.mul(m, Q))

    def on(self, P):
        return P is None or (P[1] * P[1] - P[0] ** 3 - self.a * P[0] - self.b) % self.p == 0

    # ------------------------------------------------------------ GOST R 34.10
    def e_of(self, dgst):
        return int.from_bytes(dgst, "little") % self.q or 1

    def sign(self, d, dgst, k):
        """None where the standard says: take another k"""
        C = self.mul(k)
        if C is None:
            return None
        r = C[0] % self.q
        s = (r * d + k * self.e_of(dgst)) % self.q
        if r == 0 or s == 0:
            return None
        return r, s

    def verify(self, Q, dgst, r, s):
        q = self.q
        if not (0 < r < q and 0 < s < q) or Q is None:
            return False
        v = pow(self.e_of(dgst), -1, q)
        C = self.mul2(s * v % q, -r * v % q, Q)
        return C is not None and C[0] % q == r

    def pack(self, r, s):
        n = self.size
        return s.to_bytes(n, "big") + r.to_bytes(n, "big")

    def xy(self, P):
        return P[0].to_bytes(self.size, "little") + P[1].to_bytes(self.size, "little")

    def sqrt(self, v):
        """a square root mod p, or None"""
        p, v = self.p, v % self.p
        if v == 0 or pow(v, (p - 1) // 2, p) != 1:
            return 0 if v == 0 else None
        if p % 4 == 3:
            return pow(v, (p + 1) // 4, p)
        a = 1                                   # Cipolla
        while pow((a * a - v) % p, (p - 1) // 2, p) != p - 1:
            a += 1
        w, e, x, y = (a * a - v) % p, (p + 1) // 2, (1, 0), (a, 1)
        while e:
            if e & 1:
                x = ((x[0] * y[0] + x[1] * y[1] * w) % p, (x[0] * y[1] + x[1] * y[0]) % p)
            y, e = ((y[0] * y[0] + y[1] * y[1] * w) % p, 2 * y[0] * y[1] % p), e >> 1
        return x[0]

    def shaped(self, shape, n):
        """a point of the prime-order subgroup with a short x, a short y, both, or the smallest x there is; n picks one"""
        lim = 1 << (8 * self.size - 8)
        if self.h > 1:
            P = self.mul(n % (self.q - 2 ** 32) + 1)
            while (P[0] if shape == "x" else P[1]) >= lim or P[0] == self.g[0]:
                P = self.add(P, self.g)
            return P
        x = 0 if shape == "tiny" else n % (lim - 2 ** 32) + 1
        if shape == "y":
            x = n % (self.p - 2 ** 32)
        while True:
            y = self.sqrt(x ** 3 + self.a * x + self.b)
            if y:
                for v in (y, self.p - y):
                    if shape in ("x", "tiny") or v < lim:
                        return (x, v)
            x += 1

    def twotorsion(self):
        """points of order 2 (and 4) on the cofactor-4 curves, by root finding on x^3+ax+b"""
        return [(x, 0) for x in cubic_roots(self.a, self.b, self.p)]


def _I(*s):
    return int("".join(s).replace(" ", ""), 16)


_F = "F"
_2001 = "2001"
CURVES = {}


def _c(name, *a, alias=()):
    CURVES[name] = Curve(name, *a)
    for x in alias:
        CURVES[x] = Curve(x, *a)


_c("test", _I("8" + "0" * 60 + "431"), 7, _I("5FBFF498AA938CE739B8E022FBAFEF40563F6E6A3472FC2A514C0CE9DAE23B7E"),
   _I("8000000000000000000000000000000150FE8A1892976154C59CFC193ACCF5B3"), 1, 2,
   _I("08E2A8A0E65147D4BD6316030E16D19C85C97F0A9CA267122B96ABBCEA7E8FC8"), 32)
_c("A", 2**256 - 617, 2**256 - 620, 0xA6, _I("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF6C611070995AD10045841B09B761B893"), 1, 1,
   _I("8D91E471E0989CDA27DF505A453F2B7635294F2DDF23E3B122ACC99C9E9F1E14"), 32, alias=("XA", "TCB"))
_c("B", 2**255 + 3225, 2**255 + 3222, _I("3E1AF419A269A5F866A7D3C25C3DF80AE979259373FF2B182F49D4CE7E1BBC8B"),
   _I("800000000000000000000000000000015F700CFFF1A624E5E497161BCC8A198F"), 1, 1,
   _I("3FA8124359F96680B83D1C3EB2C070E5C545C9858D03ECFB744BF8D717717EFC"), 32, alias=("TCC",))
_c("C", _I("9B9F605F5A858107AB1EC85E6B41C8AACF846E86789051D37998F7B9022D759B"),
   _I("9B9F605F5A858107AB1EC85E6B41C8AACF846E86789051D37998F7B9022D7598"), 32858,
   _I("9B9F605F5A858107AB1EC85E6B41C8AA582CA3511EDDFB74F02F3A6598980BB9"), 1, 0,
   _I("41ECE55743711A8C3CBF3783CD08C0EE4D4DC440D4641A8F366E550DFDB3BB67"), 32, alias=("XB", "TCD"))
_c("TCA", 2**256 - 617, _I("C2173F1513981673AF4892C23035A27CE25E2013BF95AA33B22C656F277E7335"),
   _I("295F9BAE7428ED9CCC20E7C359A9D41A22FCCD9108E17BF7BA9337A6F8AE9513"),
   _I("400000000000000000000000000000000FD8CDDFC87B6635C115AF556C360C67"), 4,
   _I("91E38443A5E82C0D880923425712B2BB658B9196932E02C78B2582FE742DAA28"),
   _I("32879423AB1A0375895786C4BB46E9565FDE0B5344766740AF268ADB32322E5C"), 32)
_c("512test", _I("4531ACD1FE0023C7550D267B6B2FEE80922B14B2FFB90F04D4EB7C09B5D2D15D",
                 "F1D852741AF4704A0458047E80E4546D35B8336FAC224DD81664BBF528BE6373"), 7,
   _I("1CFF0806A31116DA29D8CFA54E57EB748BC5F377E49400FDD788B649ECA1AC43",
      "61834013B2AD7322480A89CA58E0CF74BC9E540C2ADD6897FAD0A3084F302ADC"),
   _I("4531ACD1FE0023C7550D267B6B2FEE80922B14B2FFB90F04D4EB7C09B5D2D15D",
      "A82F2D7ECB1DBAC719905C5EECC423F1D86E25EDBE23C595D644AAF187E6E6DF"), 1,
   _I("24D19CC64572EE30F396BF6EBBFD7A6C5213B3B3D7057CC825F91093A68CD762",
      "FD60611262CD838DC6B60AA7EEE804E28BC849977FAC33B4B530F1B120248A9A"),
   _I("2BB312A43BD2CE6E0D020613C857ACDDCFBF061E91E5F2C3F32447C259F39B2C",
      "83AB156D77F1496BF7EB3351E1EE4E43DC1A18B91B24640B6DBB92CB1ADD371E"), 64)
_c("512A", 2**512 - 569, 2**512 - 572,
   _I("E8C2505DEDFC86DDC1BD0B2B6667F1DA34B82574761CB0E879BD081CFD0B6265",
      "EE3CB090F30D27614CB4574010DA90DD862EF9D4EBEE4761503190785A71C760"),
   _I("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF",
      "27E69532F48D89116FF22B8D4E0560609B4B38ABFAD2B85DCACDB1411F10B275"), 1, 3,
   _I("7503CFE87A836AE3A61B8816E25450E6CE5E1C93ACF1ABC1778064FDCBEFA921",
      "DF1626BE4FD036E93D75E6A50E3A41E98028FE5FC235F5B889A589CB5215F2A4"), 64)
_c("512B", 2**511 + 111, 2**511 + 108,
   _I("687D1B459DC841457E3E06CF6F5E2517B97C7D614AF138BCBF85DC806C4B289F",
      "3E965D2DB1416D217F8B276FAD1AB69C50F78BEE1FA3106EFB8CCBC7C5140116"),
   _I("8000000000000000000000000000000000000000000000000000000000000001",
      "49A1EC142565A545ACFDB77BD9D40CFA8B996712101BEA0EC6346C54374F25BD"), 1, 2,
   _I("1A8F7EDA389B094C2C071E3647A8940F3C123B697578C213BE6DD9E6C8EC7335",
      "DCB228FD1EDF4A39152CBCAAF8C0398828041055F94CEEEC7E21340780FE41BD"), 64)
_c("512C", 2**512 - 569,
   _I("DC9203E514A721875485A529D2C722FB187BC8980EB866644DE41C68E1430645",
      "46E861C0E2C9EDD92ADE71F46FCF50FF2AD97F951FDA9F2A2EB6546F39689BD3"),
   _I("B4C4EE28CEBC6C2C8AC12952CF37F16AC7EFB6A9F69F4B57FFDA2E4F0DE5ADE0",
      "38CBC2FFF719D2C18DE0284B8BFEF3B52B8CC7A5F5BF0A3C8D2319A5312557E1"),
   _I("3FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF",
      "C98CDBA46506AB004C33A9FF5147502CC8EDA9E7A769A12694623CEF47F023ED"), 4,
   _I("E2E31EDFC23DE7BDEBE241CE593EF5DE2295B7A9CBAEF021D385F7074CEA043A",
      "A27272A7AE602BF2A7B9033DB9ED3610C6FB85487EAE97AAC5BC7928C1950148"),
   _I("F5CE40D95B5EB899ABBCCFF5911CB8577939804D6527378B8C108C3D2090FF9B",
      "E18E2D33E3021ED2EF32D85822423B6304F726AA854BAE07D0396E9A9ADDC40F"), 64)

# parameter set -> OID, and the names the engine knows it by
OID = dict(test="1.2.643.2.2.35.0", A="1.2.643.2.2.35.1", B="1.2.643.2.2.35.2", C="1.2.643.2.2.35.3",
           XA="1.2.643.2.2.36.0", XB="1.2.643.2.2.36.1",
           TCA="1.2.643.7.1.2.1.1.1", TCB="1.2.643.7.1.2.1.1.2", TCC="1.2.643.7.1.2.1.1.3", TCD="1.2.643.7.1.2.1.1.4")
OID.update({"512test": "1.2.643.7.1.2.1.2.0", "512A": "1.2.643.7.1.2.1.2.1", "512B": "1.2.643.7.1.2.1.2.2", "512C": "1.2.643.7.1.2.1.2.3"})
C256 = ["test", "A", "B", "C", "XA", "XB", "TCA", "TCB", "TCC", "TCD"]
C512 = ["512test", "512A", "512B", "512C"]
ALG = dict(g01="1.2.643.2.2.19", g01dh="1.2.643.2.2.98", g256="1.2.643.7.1.1.1.1", g512="1.2.643.7.1.1.1.2")
HASH = dict(g01="1.2.643.2.2.30.1", g01dh="1.2.643.2.2.30.1", g256="1.2.643.7.1.1.2.2", g512="1.2.643.7.1.1.2.3")


def is_prime(n):
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def selftest():
    for n, c in CURVES.items():
        assert is_prime(c.p) and is_prime(c.q), n
        assert c.on(c.g) and c.mul(c.q) is None and c.mul(c.q + 1) == c.g, n
        t = c.p + 1 - c.h * c.q
        assert t * t <= 4 * c.p, n
        assert (4 * c.a ** 3 + 27 * c.b ** 2) % c.p


def _pmulmod(f, g, m, p):
    r = [0] * (len(f) + len(g) - 1)
    for i, x in enumerate(f):
        for j, y in enumerate(g):
            r[i + j] = (r[i + j] + x * y) % p
    return _pmod(r, m, p)


def _pmod(r, m, p):
    r = r[:]
    inv = pow(m[-1], -1, p)
    while len(r) >= len(m):
        c = r[-1] * inv % p
        for i in range(len(m)):
            r[len(r) - len(m) + i] = (r[len(r) - len(m) + i] - c * m[i]) % p
        r.pop()
        while r and r[-1] == 0:
            r.pop()
    while r and r[-1] == 0:
        r.pop()
    return r


def _ppow(f, e, m, p):
    r = [1]
    for bit in bin(e)[2:]:
        r = _pmulmod(r, r, m, p) if r else r
        if bit == "1":
            r = _pmulmod(r, f, m, p) if r else r
    return r


def _pgcd(f, g, p):
    while g:
        f, g = g, _pmod(f, g, p)
    return f


def cubic_roots(a, b, p):
    f = [b % p, a % p, 0, 1]
    x = _ppow([0, 1], p, f, p)
    while len(x) < 2:
        x.append(0)
    x[1] = (x[1] - 1) % p
    while x and x[-1] == 0:
        x.pop()
    g = _pgcd(f, x, p)
    out, st, k = [], [g], 1
    while st:
        h = st.pop()
        if len(h) <= 1:
            continue
        if len(h) == 2:
            out.append(-h[0] * pow(h[1], -1, p) % p)
            continue
        while True:
            k += 1
            t = _ppow([k, 1], (p - 1) // 2, h, p)
            t = t or [0]
            t[0] = (t[0] - 1) % p
            while t and t[-1] == 0:
                t.pop()
            u = _pgcd(h, t, p)
            if 1 < len(u) < len(h):
                st.append(u)
                # h / u
                q, r = [], h[:]
                inv = pow(u[-1], -1, p)
                while len(r) >= len(u):
                    c = r[-1] * inv % p
                    q.append(c)
                    for i in range(len(u)):
                        r[len(r) - len(u) + i] = (r[len(r) - len(u) + i] - c * u[i]) % p
                    r.pop()
                st.append(q[::-1])
                break
    return sorted(out)


# ---------------------------------------------------------------------- DER
def tlv(t, *c):
    b = b"".join(c)
    n = len(b)
    if n < 128:
        return bytes([t, n]) + b
    k = (n.bit_length() + 7) // 8
    return bytes([t, 0x80 | k]) + n.to_bytes(k, "big") + b


def seq(*c):
    return tlv(0x30, *c)


def oid(s):
    a = [int(x) for x in s.split(".")]
    out = bytearray([a[0] * 40 + a[1]])
    for v in a[2:]:
        e = [v & 0x7F]
        v >>= 7
        while v:
            e.append(0x80 | (v & 0x7F))
            v >>= 7
        out += bytes(e[::-1])
    return tlv(6, bytes(out))


def octets(b):
    return tlv(4, b)


def integer(v):
    n = max(1, (v.bit_length() + 8) // 8)
    return tlv(2, v.to_bytes(n, "big"))


def alg_params(alg, pset, hash_oid=True):
    """AlgorithmIdentifier of a GOST key; hash_oid: True = the usual one, False = absent, or an OID"""
    c = [oid(OID[pset] if pset in OID else pset)]
    if hash_oid is True:
        c.append(oid(HASH[alg]))
    elif hash_oid:
        c.append(oid(hash_oid))
    return seq(oid(ALG[alg]), seq(*c))


def spki(alg, pset, xy, **kw):
    return seq(alg_params(alg, pset, **kw), tlv(3, b"\0", octets(xy)))


def pkcs8(alg, pset, inner, **kw):
    return seq(integer(0), alg_params(alg, pset, **kw), octets(inner))


def priv_inner(curve, d):
    return octets(d.to_bytes(curve.size, "little"))


if __name__ == "__main__":
    selftest()
    for n in ("TCA", "512C", "A", "512A"):
        print(n, len(CURVES[n].twotorsion()))
    print("ok")
