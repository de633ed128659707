"""Replay of ScalarCases.tla: the engine's point multiplication and public keys against independent curve arithmetic."""
import ctypes
from ctypes import byref, c_void_p, c_int
from lib.evp import data, buf
from lib import ec
from lib.ec import CURVES
from . import pk

ALGOF = lambda cv: "g512" if cv.startswith("512") else ("g01" if cv in ("A", "B", "C", "XA", "XB", "test") else "g256")


def setup(paths, seed):
    e = pk.base(paths, seed)
    e.inf = e.refused = e.generic = 0
    e.lib = ctypes.CDLL(paths["engine"])
    try:
        e.f = e.lib.gost_ec_point_mul
        e.f.restype = c_int; e.f.argtypes = [c_void_p] * 6
    except AttributeError:
        e.f = None
    e.bnctx = e.C.BN_CTX_new()
    e.spec, e.pts = {}, {}
    return e


def stats(e):
    return dict(calls=e.calls, infinities=e.inf, by_generic=e.generic, refused_too_long=e.refused)


def scalar(e, job, t, E):
    k, i, j = t
    full = 8 * E.size
    if k == "c":
        v = i
    elif k == "q":
        v = i * E.q + j
    elif k == "half":
        v = (E.q + j) // 2
    elif k == "pow":
        v = (1 << i) + j
    elif k == "dig":
        v = j << (5 * i)
    elif k == "rep":
        v = sum(i << (5 * x) for x in range(full // 5)) + j
    elif k == "top":
        v = (1 << full) - 1 - j
    elif k == "sparse":
        r = data(e.seed, "sp", i, 8)
        v = sum(1 << (int.from_bytes(r[x:x + 2], "big") % full) for x in range(0, 8, 2))
    elif k == "dense":
        r = data(e.seed, "de", i, 8)
        v = (1 << full) - 1 - sum({1 << (int.from_bytes(r[x:x + 2], "big") % full) for x in range(0, 8, 2)})
    else:
        v = pk.num(e.seed, "sc", job["id"], i) % (1 << full if i % 2 else E.q)
    return max(v, 0)


def special(e, cv):
    """points with small and large x"""
    if cv not in e.spec:
        E = CURVES[cv]; p = E.p

        def find(rng):
            out = []
            for x in rng:
                z = (x ** 3 + E.a * x + E.b) % p
                if z == 0:
                    out.append((x, 0))
                elif pow(z, (p - 1) // 2, p) == 1:
                    out.append((x, sqrt(z, p)))
                if len(out) >= 8:
                    return out
        e.spec[cv] = find(range(0, 1000)), find(range(p - 1, p - 1000, -1)), [(x, 0) for x in ec.cubic_roots(E.a, E.b, p)]
    return e.spec[cv]


def sqrt(z, p):
    if p % 4 == 3:
        return pow(z, (p + 1) // 4, p)
    s, t = 0, p - 1
    while t % 2 == 0:
        s, t = s + 1, t // 2
    n = 2
    while pow(n, (p - 1) // 2, p) != p - 1:
        n += 1
    c, r, b, m = pow(n, t, p), pow(z, (t + 1) // 2, p), pow(z, t, p), s
    while b != 1:
        i, x = 0, b
        while x != 1:
            x = x * x % p; i += 1
        g = pow(c, 1 << (m - i - 1), p)
        m, c, r, b = i, g * g % p, r * g % p, b * g * g % p
    return r


def point(e, job, t, cv, n, m):
    k, i, j = t
    if k == "rel" and n is not None and m % CURVES[cv].q and n % CURVES[cv].q:
        return CURVES[cv].mul(i * n * pow(m, -1, CURVES[cv].q) % CURVES[cv].q)
    c = (cv, k, i, j)
    if c not in e.pts:
        e.pts[c] = _point(e, t, cv)
    return e.pts[c]


def _point(e, t, cv):
    E = CURVES[cv]; q = E.q
    k, i, j = t
    if k == "mul":
        return E.mul(i)
    if k == "neg":
        return E.neg(E.mul(i))
    if k == "half":
        return E.mul((q + 1) // 2)
    if k in ("low", "mix"):
        lows = special(e, cv)[2]
        if E.h == 1 or not lows:      # no points of small order that belong to the promise
            return E.mul(pk.num(e.seed, "pt", i) % q or 1)
        L = lows[i % len(lows)]
        return L if k == "low" else E.add(L, E.mul(pk.num(e.seed, "pt", i) % q or 1))
    if k in ("small", "large"):
        P = special(e, cv)[k == "large"][i]
        return P
    return E.mul(pk.num(e.seed, "ptr", cv, i) % q or 1)


def tobn(C, v):
    b = v.to_bytes(max(1, (v.bit_length() + 7) // 8), "big")
    return C.BN_bin2bn(b, len(b), None)


def frombn(C, p):
    n = (C.BN_num_bits(p) + 7) // 8
    b = buf(b"", max(n, 1))
    C.BN_bn2bin(p, ctypes.addressof(b))
    return int.from_bytes(b.raw[:n], "big")


def getpt(C, g, P):
    if C.EC_POINT_is_at_infinity(g, P):
        return None
    x, y = C.BN_new(), C.BN_new()
    try:
        if C.EC_POINT_get_affine_coordinates(g, P, x, y, None) != 1:
            return "unreadable"
        return frombn(C, x), frombn(C, y)
    finally:
        C.BN_free(x); C.BN_free(y)


def run_job(e, job):
    C = e.C
    cv = job["curve"]; E = CURVES[cv]; alg = ALGOF(cv)
    if job.get("alg"):
        alg = job["alg"]
    K = pk.key(e, (alg, cv, "r1"), True)
    g = C.EC_KEY_get0_group(C.EVP_PKEY_get0(K))
    full = 8 * E.size
    for i, o in enumerate(job["hist"]):
        op = o["op"]
        e.calls += 1

        def bad(w, **kw):
            C.ERR_clear_error()
            return dict(step=i, curve=cv, op=o, why=w, **{k: (hex(v) if isinstance(v, int) else str(v)) for k, v in kw.items()})
        n = scalar(e, job, o["n"], E) if o["n"][0] else None
        m = scalar(e, job, o["m"], E) if o["m"][0] else None
        if op == "pub":
            if not 0 < n < E.q:
                continue
            r = pk.d2i(C, C.d2i_AutoPrivateKey, ec.pkcs8(alg, cv, ec.priv_inner(E, n)))
            if not r:
                return bad("private key refused", n=n)
            k = C.EVP_PKEY_get0(r)
            got = getpt(C, C.EC_KEY_get0_group(k), C.EC_KEY_get0_public_key(k))
            C.EVP_PKEY_free(r)
            if i % 4 and e.f and cv != "512test":
                Q, b = C.EC_POINT_new(g), tobn(C, n)
                ok = C.EC_POINT_mul(g, Q, b, None, None, e.bnctx) == 1 and getpt(C, g, Q) == got
                C.EC_POINT_free(Q); C.BN_free(b)
                if ok:
                    continue
            want = E.mul(n)
            if got != want:
                return bad("public key is not the multiple of the generator", n=n, got=got, want=want)
            continue
        if e.f is None:
            continue
        P = None
        if op != "g":
            P = point(e, job, o["p"], cv, n, m)
            if P is None:
                continue
        exact = lambda: E.mul(n) if op == "g" else E.mul(m, P) if op == "var" else E.mul2(n, m, P)
        # a single variable multiplication includes the cofactor, which makes no difference for points of the group
        Q = C.EC_POINT_new(g)
        qp = C.EC_POINT_new(g) if P else None
        bx = []
        if P:
            x, y = tobn(C, P[0]), tobn(C, P[1]); bx += [x, y]
            assert C.EC_POINT_set_affine_coordinates(g, qp, x, y, None) == 1
        bn_n = tobn(C, n) if n is not None else None
        bn_m = tobn(C, m) if m is not None else None
        bx += [v for v in (bn_n, bn_m) if v]
        R_ = C.EC_POINT_new(g)
        out = qp if (o["alias"] and qp) else R_
        r = e.f(g, out, bn_n, qp, bn_m, e.bnctx)
        got = getpt(C, g, out) if r == 1 else "refused"
        # most results against libcrypto's generic arithmetic on the same group, every sixth and every difference against the independent one
        generic = "unknown"
        if r == 1 and e.calls % 6 and cv != "512test":
            if P and o["alias"]:
                C.EC_POINT_set_affine_coordinates(g, qp, x, y, None)
            bn_h = bn_m
            if op == "var" and E.h > 1:
                bn_h = tobn(C, m * E.h); bx.append(bn_h)
            if C.EC_POINT_mul(g, Q, bn_n, qp, bn_h, e.bnctx) == 1:
                generic = getpt(C, g, Q)
        for v in bx:
            C.BN_free(v)
        C.EC_POINT_free(Q); C.EC_POINT_free(R_)
        if qp:
            C.EC_POINT_free(qp)
        C.ERR_clear_error()
        long_ = max(x or 0 for x in (n, m)) >> full
        if r != 1:
            if long_:
                e.refused += 1
                continue
            return bad("multiplication failed", n=n or 0, m=m or 0, P=P)
        if got is None:
            e.inf += 1
        if got == generic:
            e.generic += 1
            continue
        want = exact()
        if P and o["p"][0] == "low":    # outside the promise: only an answer is asked for
            continue
        if got == want:
            continue
        if op == "var" and E.h > 1 and got in (E.mul(m * E.h, P), E.mul(m % E.q * E.h, P)):
            continue
        if long_ and got == "refused":
            continue
        return bad("not the group law's result", n=n or 0, m=m or 0, P=P, got=got, want=want)
    return None
