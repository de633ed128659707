"""Replay of Signed.tla: certificates, requests, CRLs, chains and signed messages, made by the code or by the oracle, altered, checked through libcrypto."""
import ctypes
from ctypes import byref, c_void_p, c_long, c_char_p
from lib import ec
from lib.evp import data, buf
from lib.ec import CURVES, tlv, seq, octets, oid, integer
from . import pk, kexp
from .trans import items

DATA, SIGNED = oid("1.2.840.113549.1.7.1"), oid("1.2.840.113549.1.7.2")
CTYPE, MDIG, STIME = (oid("1.2.840.113549.1.9.%d" % i) for i in (3, 4, 5))
SIGALG = dict(g01=oid("1.2.643.2.2.3"), g256=oid("1.2.643.7.1.1.3.2"), g512=oid("1.2.643.7.1.1.3.3"))
MDOID = {"94": oid("1.2.643.2.2.9"), "256": oid("1.2.643.7.1.1.2.2"), "512": oid("1.2.643.7.1.1.2.3")}
MDBITS = {"94": 94, "256": 256, "512": 512}
MDNAME = {"94": b"md_gost94", "256": b"md_gost12_256", "512": b"md_gost12_512", "other": b"SHA256"}
NULL = tlv(5)
BINARY, PARTIAL, DETACHED, NOATTR, NOCAP, REUSE, NOCHAIN = 0x80, 0x4000, 0x40, 0x100, 0x200, 0x8000, 0x20
NOW = 1600000000


def md_of(k):
    return {"g01": "94", "g01dh": "94", "g256": "256", "g512": "512"}[k[0]]


def setup(paths, seed):
    e = pk.base(paths, seed)
    e.issued = e.valid = e.refused = e.chains = e.signed = e.verified = 0
    L = e.L = e.C.L
    for f in ("d2i_X509 d2i_X509_REQ d2i_X509_CRL BIO_new_mem_buf BIO_new BIO_s_mem CMS_sign CMS_add1_signer d2i_CMS_ContentInfo PKCS7_sign PKCS7_sign_add_signer "
              "d2i_PKCS7 EVP_get_digestbyname OPENSSL_sk_new_null SMIME_read_CMS X509_STORE_new X509_STORE_CTX_new").split():
        getattr(L, f).restype = c_void_p
    e.md = {m: c_void_p(L.EVP_get_digestbyname(n)) for m, n in MDNAME.items()}
    assert all(x.value for x in e.md.values())
    e.md[""] = None
    e.no = {}
    return e


def stats(e):
    return dict(calls=e.calls, issued=e.issued, valid=e.valid, refused=e.refused, chains=e.chains, signed=e.signed, verified=e.verified)


def no(e, k):
    return e.no.setdefault(tuple(k[:3]), len(e.no))


def name(e, k):
    return seq(tlv(0x31, seq(oid("2.5.4.3"), tlv(12, b"K%d" % no(e, k)))))


def spki(e, k):
    return ec.spki(k[0], k[1], CURVES[k[1]].xy(pk.pub_of(e.seed, k)))


def digest(e, md, b):
    return pk.digest(e.R, MDBITS[md], b)


def sign(e, k, b, *lab):
    E = CURVES[k[1]]
    r, s = E.sign(pk.priv_of(e.seed, k), digest(e, md_of(k), b), int.from_bytes(data(e.seed, "nonce", *lab, 80), "big") % (E.q - 1) + 1)
    return E.pack(r, s)


def verify(e, k, b, sig):
    E = CURVES[k[1]]
    n = E.size
    return len(sig) == 2 * n and E.verify(pk.pub_of(e.seed, k), digest(e, md_of(k), b), int.from_bytes(sig[n:], "big"), int.from_bytes(sig[:n], "big"))


def d2i(f, der):
    b = buf(der, len(der)); p = c_void_p(ctypes.addressof(b))
    return c_void_p(f(None, byref(p), c_long(len(der))))


def i2d(e, f, x):
    p = c_void_p(None)
    n = f(x, byref(p))
    if n <= 0:
        return None
    d = ctypes.string_at(p.value, n)
    e.C.free(p)
    return d


# ------------------------------------------------------- certificates and the like
def tbs(e, o):
    t = lambda s: tlv(0x17, s)
    own = seq(oid("1.2.3.4"), octets(o["ext"]))
    if o["k"] == "req":
        return seq(integer(0), name(e, o["subj"]), spki(e, o["subj"]), tlv(0xA0, seq(oid("1.2.3.4"), tlv(0x31, octets(o["ext"])))))
    if o["k"] == "crl":
        rev = seq(*[seq(integer(n), t(b"200201000000Z")) for n in o["lst"]]) if o["lst"] else b""
        return seq(integer(1), o["inner"], name(e, o["iss"]), t(b"200101000000Z"), t(b"490101000000Z"), rev, tlv(0xA0, seq(own)))
    bc = seq(oid("2.5.29.19"), tlv(1, b"\xff"), octets(seq(tlv(1, b"\xff"))))
    return seq(tlv(0xA0, integer(2)), integer(o["serial"]), o["inner"], name(e, o["iss"]), seq(t(b"200101000000Z"), t(b"490101000000Z")), name(e, o["subj"]), spki(e, o["subj"]),
               tlv(0xA3, seq(bc, own)))


def whole(e, o):
    return seq(tbs(e, o), o["alg"], tlv(3, b"\0" + o["sig"]))


FREE = dict(cert="X509_free", req="X509_REQ_free", crl="X509_CRL_free")
D2I = dict(cert="d2i_X509", req="d2i_X509_REQ", crl="d2i_X509_CRL")
I2D = dict(cert="i2d_X509", req="i2d_X509_REQ", crl="i2d_X509_CRL")
SGN = dict(cert="X509_sign", req="X509_REQ_sign", crl="X509_CRL_sign")
VFY = dict(cert="X509_verify", req="X509_REQ_verify", crl="X509_CRL_verify")


def run_job(e, job):
    O, M = [], []
    try:
        for i, o in enumerate(job["hist"]):
            e.calls += 1

            def bad(w, **kw):
                return dict(step=i, op=o, why=w, errs=e.C.errs()[:4], **{k: (v.hex()[:3000] if isinstance(v, bytes) else v) for k, v in kw.items()})
            r = globals()["do_" + o["op"]](e, job, i, o, O, M, bad)
            if r:
                return r
            e.C.ERR_clear_error()
    finally:
        e.C.ERR_clear_error()


def do_issue(e, job, i, o, O, M, bad):
    L, k, by = e.L, o["k"], o["by"]
    alg = seq(SIGALG.get(by[0], SIGALG["g01"]))
    x = dict(k=k, by=by, iss=by, subj=o["subj"], serial=1000 + o["id"], ext=data(e.seed, "ext", job["id"], o["id"], 64), inner=alg, alg=alg, sig=bytes(64),
             lst=[O[j]["serial"] for j, v in enumerate(o["lst"]) if v])
    if o["oracle"]:
        if data(e.seed, "null", job["id"], i, 1)[0] & 1:
            x["inner"] = x["alg"] = seq(SIGALG[by[0]], NULL)
        x["sig"] = sign(e, by, tbs(e, x), "t", job["id"], i)
        O.append(x)
        return
    d = whole(e, x)
    p = d2i(getattr(L, D2I[k]), d)
    assert p.value, e.C.errs()
    r = getattr(L, SGN[k])(p, c_void_p(pk.key(e, by, 1)), e.md[o["md"]])
    der = i2d(e, getattr(L, I2D[k]), p) if r > 0 else None
    getattr(L, FREE[k])(p)
    if (der is not None) != bool(o["ok"]):
        return bad("signing %s" % ("failed" if o["ok"] else "succeeded"))
    if der is None:
        return
    try:
        t, a, s = items(items(der)[0][1])
        x["alg"], x["sig"] = a[2], s[1][1:]
        x["inner"] = a[2]
        assert s[0] == 3 and s[1][:1] == b"\0"
        assert a[2] in (seq(SIGALG[by[0]]), seq(SIGALG[by[0]], NULL)), "algorithm"
        assert der == whole(e, x), "encoding"
    except (AssertionError, ValueError, IndexError) as ex:
        return bad("not what was to be signed: %r" % ex, got=der, expected=whole(e, x))
    if not verify(e, by, t[2], x["sig"]):
        return bad("the signature is wrong", got=der)
    e.issued += 1
    O.append(x)


def do_change(e, job, i, o, O, M, bad):
    x = dict(O[o["j"] - 1]); O.append(x)
    k, n, w = o["k"], o["n"], o["w"]
    if k == "tbs":
        x["ext"] = kexp.flip(x["ext"], n % 512)
    elif k == "key":
        x["subj"] = w
        x["ext"] = kexp.flip(x["ext"], n % 512)
    elif k == "sig":
        x["sig"] = kexp.flip(x["sig"], o["x"] % 512)
    elif k == "siglen":
        s = x["sig"]
        x["sig"] = [s[:-1], s + b"\0", b"", s + s, b"\0" + s, s[:len(s) // 2], s[1:]][o["x"] % 7]
    elif k == "alg":
        x["alg"] = [v for v in (seq(SIGALG["g01"]), seq(SIGALG["g256"]), seq(SIGALG["g512"]), seq(oid("1.2.840.113549.1.1.11"), NULL)) if v[:12] != x["alg"][:12]][o["x"] % 3]
        if items(items(x["alg"])[0][1])[0][2] == items(items(O[o["j"] - 1]["alg"])[0][1])[0][2]:
            x["alg"] = seq(oid("1.2.840.113549.1.1.11"), NULL)
    elif k == "inner":
        x["inner"] = seq([v for v in SIGALG.values() if v != SIGALG[x["by"][0]]][o["x"] % 2])
        x["ext"] = kexp.flip(x["ext"], n % 512)
    elif k == "resign":
        x["by"] = w
        x["alg"] = x["inner"] if x["inner"] != x["alg"] and x["k"] == "cert" and items(items(x["inner"])[0][1])[0][2] == SIGALG[w[0]] else seq(SIGALG[w[0]]) if x["k"] != "cert" else x["inner"]
        x["sig"] = sign(e, w, tbs(e, x), "r", job["id"], i)
    elif k == "graft":
        x["sig"], x["alg"] = O[o["i"] - 1]["sig"], O[o["i"] - 1]["alg"]
    else:
        raise ValueError(k)


def do_check(e, job, i, o, O, M, bad):
    x = O[o["j"] - 1]
    d = whole(e, x)
    p = d2i(getattr(e.L, D2I[x["k"]]), d)
    if not p.value:
        r = 0
    else:
        r = getattr(e.L, VFY[x["k"]])(p, c_void_p(pk.key(e, o["key"], 0)))
        getattr(e.L, FREE[x["k"]])(p)
    if (r == 1) != bool(o["v"]):
        return bad("%s: %d" % ("valid, but refused" if o["v"] else "accepted", r), der=d)
    if o["v"]:
        e.valid += 1
    else:
        e.refused += 1


def do_chain(e, job, i, o, O, M, bad):
    L = e.L
    x = {}
    for f in ("l", "r", "i", "c"):
        if o[f]:
            y = O[o[f] - 1]
            x[f] = (y["k"], d2i(getattr(L, D2I[y["k"]]), whole(e, y)))
    try:
        if all(p.value for _, p in x.values()):
            st = c_void_p(L.X509_STORE_new())
            ctx = c_void_p(L.X509_STORE_CTX_new())
            sk = c_void_p(L.OPENSSL_sk_new_null())
            assert L.X509_STORE_add_cert(st, x["r"][1]) == 1
            if "c" in x:
                assert L.X509_STORE_add_crl(st, x["c"][1]) == 1
            if "i" in x:
                L.OPENSSL_sk_push(sk, x["i"][1])
            assert L.X509_STORE_CTX_init(ctx, st, x["l"][1], sk) == 1
            L.X509_STORE_CTX_set_time(ctx, c_long(0), c_long(NOW))
            if o["crl"]:
                L.X509_STORE_CTX_set_flags(ctx, c_long(4))
            r = L.X509_verify_cert(ctx)
            err = L.X509_STORE_CTX_get_error(ctx)
            L.X509_STORE_CTX_free(ctx)
            L.X509_STORE_free(st)
            L.OPENSSL_sk_free(sk)
        else:
            r, err = 0, -1
    finally:
        for k, p in x.values():
            if p.value:
                getattr(L, FREE[k])(p)
    if (r == 1) != bool(o["v"]):
        return bad("chain: %d, error %d" % (r, err), leaf=whole(e, O[o["l"] - 1]), root=whole(e, O[o["r"] - 1]))
    e.chains += 1


# ------------------------------------------------------------------ messages
def cert_der(e, k):
    n = 5000 + no(e, k)
    a = seq(SIGALG["g256"])
    t = seq(tlv(0xA0, integer(2)), integer(n), a, seq(tlv(0x31, seq(oid("2.5.4.3"), tlv(12, b"CA")))), seq(tlv(0x17, b"200101000000Z"), tlv(0x17, b"490101000000Z")), name(e, k), spki(e, k))
    return seq(t, a, tlv(3, b"\0" + bytes(64)))


def cert(e, k):
    x = d2i(e.L.d2i_X509, cert_der(e, k))
    assert x.value, e.C.errs()
    return x


def sid(e, k):
    return seq(seq(tlv(0x31, seq(oid("2.5.4.3"), tlv(12, b"CA")))), integer(5000 + no(e, k)))


def attr(o, v):
    return seq(o, tlv(0x31, v))


def ordered(a):
    return sorted(a)        # the DER order of a set: here no element is the beginning of another


def si_der(e, s):
    at = tlv(0xA0, *s["attrs"]) if s["has"] else b""
    ua = tlv(0xA1, *ordered(s["ua"])) if s["ua"] else b""
    return seq(integer(1), sid(e, s["names"]), seq(MDOID[s["md"]], *([NULL] if s["null"] else [])), at, s["alg"], octets(s["sig"]), ua)


def build(e, m, sis=None):
    need = list(m["dig"])
    for s in m["si"]:
        if s["md"] not in need:
            need.append(s["md"])
    eci = seq(DATA) if m["det"] else seq(DATA, tlv(0xA0, octets(m["content"])))
    cs = tlv(0xA0, *(m["cder"])) if m["cder"] else b""
    return seq(SIGNED, tlv(0xA0, seq(integer(1), tlv(0x31, *[seq(MDOID[d], *([NULL] if m["dnull"] else [])) for d in need]), eci, cs, tlv(0x31, *(sis or [si_der(e, s) for s in m["si"]])))))


def parse(e, der):
    ct, c0 = items(items(der)[0][1])
    assert ct[2] == SIGNED and c0[0] == 0xA0
    sd = items(items(c0[1])[0][1])
    assert sd[0][2] == integer(1), "version"
    m = dict(dig=[], dnull=True)
    back = {v: k for k, v in MDOID.items()}
    for t, c, w in items(sd[1][1]):
        o = items(c)
        m["dig"].append(back[o[0][2]])
        assert w == seq(o[0][2], NULL), "digest parameters"
    eci = items(sd[2][1])
    assert eci[0][2] == DATA
    m["det"] = len(eci) == 1
    m["content"] = None if m["det"] else items(eci[1][1])[0][1]
    r = sd[3:]
    m["cder"] = []
    if r[0][0] == 0xA0:
        m["cder"] = [w for _, _, w in items(r[0][1])]
        r = r[1:]
    assert len(r) == 1 and r[0][0] == 0x31
    m["si"] = []
    for t, c, w in items(r[0][1]):
        x = items(c)
        s = dict(sid=x[1][2], md=back[items(x[2][1])[0][2]], null=True, attrs=None, has=False, ua=[])
        assert x[0][2] == integer(1)
        y = x[3:]
        if y[0][0] == 0xA0:
            s["attrs"], s["has"] = [z[2] for z in items(y[0][1])], True
            y = y[1:]
        s["alg"], s["sig"] = y[0][2], y[1][1]
        if len(y) > 2:
            s["ua"] = [z[2] for z in items(y[2][1])]
        m["si"].append(s)
    return m


def attr_val(s, o):
    v = [items(items(a)[0][1]) for a in s["attrs"]]
    v = [x[1][1] for x in v if x[0][2] == o]
    return v[0] if len(v) == 1 else None


def check_si(e, k, s, content):
    """why a signature of the code is not as it should be, or None"""
    if s["alg"] not in (seq(oid(ec.ALG[k[0]])), seq(oid(ec.ALG[k[0]]), NULL)):
        return "wrong signature algorithm"
    if s["md"] != md_of(k):
        return "wrong digest algorithm"
    b = content
    if s["has"]:
        if s["attrs"] != ordered(s["attrs"]):
            return "the attributes are not in order"
        if attr_val(s, CTYPE) != DATA:
            return "wrong content type"
        if attr_val(s, MDIG) != octets(digest(e, s["md"], content)):
            return "wrong message digest"
        b = tlv(0x31, *s["attrs"])
    if not verify(e, k, b, s["sig"]):
        return "the signature is wrong"


def mem(e, b):
    x = buf(b, max(1, len(b)))
    return c_void_p(e.L.BIO_new_mem_buf(x, len(b))), x


def do_sign(e, job, i, o, O, M, bad):
    L, how = e.L, o["how"]
    content = data(e.seed, "content", job["id"], o["id"], o["size"])
    who = [(s["by"], s["attr"]) for s in o["si"]]
    if how == "oracle":
        rnd = data(e.seed, "or", job["id"], i, 4)
        m = dict(content=content, det=bool(o["det"]), dig=[], dnull=bool(rnd[0] & 1), si=[], cder=[])
        for j, (k, at) in enumerate(who):
            s = dict(names=k, md=md_of(k), null=bool(rnd[1] & 1), attrs=None, has=bool(at), ua=[], alg=seq(oid(ec.ALG[k[0]]), *([NULL] if rnd[2] & 1 else [])))
            b = content
            if at:
                a = [attr(CTYPE, DATA), attr(MDIG, octets(digest(e, s["md"], content)))]
                if (rnd[3] + j) & 1:
                    a.append(attr(STIME, tlv(0x17, b"210101000000Z")))
                # other attributes
                if (rnd[3] >> 1) & 1:
                    a.append(attr(oid("1.2.3.4.%d" % (o["id"] + j)), octets(bytes([j] * 5))))
                else:
                    a.append(attr(oid("1.2.3.4.7"), octets(b"%d/%d" % (o["id"], j))))
                s["attrs"] = ordered(a)
                b = tlv(0x31, *s["attrs"])
            s["sig"] = sign(e, k, b, "m", job["id"], i, j)
            m["si"].append(s)
        m["certs"] = []
        for k, _ in who:
            if k not in m["certs"]:
                m["certs"].append(k)
        m["cder"] = [cert_der(e, k) for k in m["certs"]]
        M.append(m)
        return
    bio, keep = mem(e, content)
    fl = BINARY | (DETACHED if o["det"] else 0)
    der, xs = None, []
    if how == "cms":
        x = c_void_p(L.CMS_sign(None, None, None, bio, fl | PARTIAL))
        ok = bool(x.value)
        for k, at in who:
            xs.append(cert(e, k))
            ok = ok and bool(L.CMS_add1_signer(x, xs[-1], c_void_p(pk.key(e, k, 1)), e.md[o["md"]], BINARY | (0 if at else NOATTR) | (NOCAP if o["id"] % 3 else 0)))
        ok = ok and L.CMS_final(x, bio, None, fl) > 0
        der = i2d(e, L.i2d_CMS_ContentInfo, x) if ok else None
        L.CMS_ContentInfo_free(x)
    else:
        x = c_void_p(L.PKCS7_sign(None, None, None, bio, fl | PARTIAL))
        ok = bool(x.value)
        for k, at in who:
            xs.append(cert(e, k))
            ok = ok and bool(L.PKCS7_sign_add_signer(x, xs[-1], c_void_p(pk.key(e, k, 1)), None, BINARY | (0 if at else NOATTR) | (NOCAP if o["id"] % 3 else 0)))
        ok = ok and L.PKCS7_final(x, bio, fl) > 0
        der = i2d(e, L.i2d_PKCS7, x) if ok else None
        L.PKCS7_free(x)
    L.BIO_free(bio)
    for c in xs:
        L.X509_free(c)
    if (der is not None) != bool(o["ok"]):
        return bad("signing %s" % ("failed" if o["ok"] else "succeeded"))
    if der is None:
        return
    try:
        m = parse(e, der)
    except (AssertionError, ValueError, IndexError, KeyError) as ex:
        return bad("not a signed message: %r" % ex, message=der)
    r = take(e, m, who, content, der)
    if r:
        return bad(r, message=der)
    if m["det"] != bool(o["det"]) or (not m["det"] and m["content"] != content):
        return bad("not the content", message=der)
    m["content"] = content
    if how == "cms":
        r = mime(e, der, content, m)
        if r:
            return bad("S/MIME: " + r, message=der)
    e.signed += 1
    M.append(m)


MICALG = {"94": b"gostr3411-94", "256": b"gostr3411-2012-256", "512": b"gostr3411-2012-512"}


def mime(e, der, content, m):
    """write the message as S/MIME and read it back"""
    L = e.L
    x = d2i(L.d2i_CMS_ContentInfo, der)
    out = c_void_p(L.BIO_new(c_void_p(L.BIO_s_mem())))
    din, keep = mem(e, content)
    try:
        if L.SMIME_write_CMS(out, x, din, BINARY | (DETACHED | REUSE if m["det"] else 0)) != 1:
            return "not written"
        tmp = buf(1 << 20)
        n = L.BIO_read(out, tmp, 1 << 20)
        t = ctypes.string_at(tmp, n)
        if m["det"]:
            want = b",".join(MICALG[d] for d in m["dig"])
            if b'micalg="' + want + b'"' not in t.split(b"\n\n")[0]:
                return "micalg is not " + want.decode()
        b2, keep2 = mem(e, t)
        cont = c_void_p(None)
        y = c_void_p(L.SMIME_read_CMS(b2, byref(cont)))
        L.BIO_free(b2)
        if not y.value:
            return "not read"
        d2 = i2d(e, L.i2d_CMS_ContentInfo, y)
        if cont.value:
            L.BIO_free(cont)
        L.CMS_ContentInfo_free(y)
        if d2 != der:
            return "another message came back"
    finally:
        L.BIO_free(out); L.BIO_free(din); L.CMS_ContentInfo_free(x)


def take(e, m, who, content, der):
    """bring the signers of the code's message into the order they were asked for in, and check each"""
    left, si = list(m["si"]), []
    for k, at in who:
        c = [s for s in left if s["sid"] == sid(e, k) and s["has"] == bool(at)]
        if not c:
            return "a signer is missing"
        left.remove(c[0])
        si.append(c[0])
        c[0]["names"] = k
        w = check_si(e, k, c[0], content)
        if w:
            return w
    if left:
        return "a signature nobody asked for"
    m["certs"] = []
    for k, _ in who:
        if k not in m["certs"]:
            m["certs"].append(k)
    if sorted(m["cder"]) != sorted(cert_der(e, k) for k in m["certs"]):
        return "not the signers' certificates"
    if sorted(m["dig"]) != sorted({md_of(k) for k, _ in who}):
        return "not the digest algorithms"
    if build(e, m) != der:
        return "not the encoding of the standard"
    m["si"] = si
    m["cder"] = [cert_der(e, k) for k in m["certs"]]


def copy(m):
    m = dict(m)
    m["si"] = [dict(s) for s in m["si"]]
    m["certs"] = list(m["certs"])
    m["cder"] = list(m["cder"])
    return m


def do_cosign(e, job, i, o, O, M, bad):
    L = e.L
    m, k = M[o["j"] - 1], o["by"]
    x = d2i(L.d2i_CMS_ContentInfo, build(e, m))
    if not x.value:
        return bad("not read", message=build(e, m))
    c = cert(e, k)
    ok = bool(L.CMS_add1_signer(x, c, c_void_p(pk.key(e, k, 1)), None, BINARY | REUSE | NOCAP))
    der = i2d(e, L.i2d_CMS_ContentInfo, x) if ok else None
    L.X509_free(c)
    L.CMS_ContentInfo_free(x)
    if ok != bool(o["ok"]):
        return bad("signing %s" % ("failed" if o["ok"] else "succeeded"), message=build(e, m))
    if not ok:
        return
    try:
        n = parse_any(e, der)
    except (AssertionError, ValueError, IndexError, KeyError) as ex:
        return bad("not a signed message: %r" % ex, message=der)
    old = [si_der(e, s) for s in m["si"]]
    new = [s for s in n if s[1] not in old]
    if len(new) != 1 or len(n) != len(old) + 1:
        return bad("not one signature more", message=der)
    s = new[0][0]
    s["names"] = k
    src = [y for y in m["si"] if y["has"] and y["md"] == md_of(k)][0]
    if s["sid"] != sid(e, k) or s["md"] != md_of(k) or not s["has"] or attr_val(s, MDIG) != attr_val(src, MDIG) or attr_val(s, CTYPE) != DATA or s["attrs"] != ordered(s["attrs"]) \
            or s["alg"] not in (seq(oid(ec.ALG[k[0]])), seq(oid(ec.ALG[k[0]]), NULL)):
        return bad("not a signature of that digest", message=der)
    if not verify(e, k, tlv(0x31, *s["attrs"]), s["sig"]):
        return bad("the signature is wrong", message=der)
    m = copy(m)
    m["si"].append(s)
    if k not in m["certs"]:
        m["certs"].append(k); m["cder"].append(cert_der(e, k))
    e.signed += 1
    M.append(m)


def parse_any(e, der):
    """[(signer, its DER)] of a message whose other parts may be the oracle's"""
    sd = items(items(items(items(der)[0][1])[1][1])[0][1])
    back = {v: k for k, v in MDOID.items()}
    r = []
    for t, c, w in items(sd[-1][1]):
        x = items(c)
        s = dict(sid=x[1][2], md=back[items(x[2][1])[0][2]], null=len(items(x[2][1])) > 1, attrs=None, has=False, ua=[])
        y = x[3:]
        if y[0][0] == 0xA0:
            s["attrs"], s["has"] = [z[2] for z in items(y[0][1])], True
            y = y[1:]
        s["alg"], s["sig"] = y[0][2], y[1][1]
        r.append((s, w))
    return r


def do_alter(e, job, i, o, O, M, bad):
    m = copy(M[o["j"] - 1]); M.append(m)
    src = M[o["i"] - 1]
    k, x, n, w = o["k"], o["x"], o["n"], o["w"]
    s = m["si"][o["s"] - 1]
    if k == "content":
        c = m["content"]
        m["content"] = kexp.flip(c, n % 512) if len(c) >= 64 else c + bytes([n % 256])
    elif k in ("digest", "time", "ctype"):
        o1 = dict(digest=MDIG, time=STIME, ctype=CTYPE)[k]
        a = []
        for y in s["attrs"]:
            z = items(items(y)[0][1])
            if z[0][2] == o1:
                v = z[1][1]
                y = attr(o1, v[:2] + kexp.flip(v[2:], n % 256) if k == "digest" else tlv(0x17, b"220101000000Z") if k == "time" else oid("1.2.840.113549.1.7.%d" % (2 + n % 5)))
            a.append(y)
        if k == "time" and not any(items(items(y)[0][1])[0][2] == STIME for y in a):
            a.append(attr(STIME, tlv(0x17, b"220101000000Z")))
        s["attrs"] = ordered(a)
    elif k == "sig":
        s["sig"] = kexp.flip(s["sig"], x % 512)
    elif k == "siglen":
        v = s["sig"]
        s["sig"] = [v[:-1], v + b"\0", b"", v + v, b"\0" + v, v[:len(v) // 2], v[1:]][x % 7]
    elif k == "names":
        s["names"] = w
    elif k == "noattrs":
        s["has"] = False
    elif k == "gsig":
        s["sig"] = src["si"][o["t"] - 1]["sig"]
    elif k == "gsi":
        t = dict(src["si"][o["t"] - 1])
        m["si"][o["s"] - 1] = t
        if t["names"] not in m["certs"]:
            m["certs"].append(t["names"]); m["cder"].append(cert_der(e, t["names"]))
    elif k == "gcontent":
        m["content"] = src["content"]
    elif k == "md":
        s["md"] = w[0]
    elif k == "uattr":
        s["ua"] = s["ua"] + [attr(oid("1.2.3.5"), octets(b"%d" % n))]
    elif k == "drop":
        del m["si"][o["s"] - 1]
    elif k == "swap":
        a, b = o["s"] - 1, x % len(m["si"])
        m["si"][a], m["si"][b] = m["si"][b], m["si"][a]
    elif k == "nocert":
        j = m["certs"].index(w)
        del m["certs"][j]
        del m["cder"][j]
    elif k == "det":
        m["det"] = not m["det"]
    else:
        raise ValueError(k)


def do_verify(e, job, i, o, O, M, bad):
    L = e.L
    m = M[o["j"] - 1]
    der = build(e, m)
    cms = o["api"] == "cms"
    x = d2i(L.d2i_CMS_ContentInfo if cms else L.d2i_PKCS7, der)
    if not x.value:
        return bad("not read", message=der) if o["v"] else None
    out = c_void_p(L.BIO_new(c_void_p(L.BIO_s_mem())))
    din, keep = mem(e, m["content"]) if m["det"] else (None, None)
    sk, c = None, None
    if o["given"][0]:
        c = cert(e, o["given"])
        sk = c_void_p(L.OPENSSL_sk_new_null())
        L.OPENSSL_sk_push(sk, c)
    if cms:
        r = L.CMS_verify(x, sk, None, din, out, BINARY | NOCHAIN)
    else:
        r = L.PKCS7_verify(x, sk, None, din, out, BINARY | NOCHAIN)
    got, tmp = b"", buf(65536)
    while True:
        n = L.BIO_read(out, tmp, 65536)
        if n <= 0:
            break
        got += ctypes.string_at(tmp, n)
    L.BIO_free(out)
    if din is not None:
        L.BIO_free(din)
    if sk is not None:
        L.OPENSSL_sk_free(sk)
        L.X509_free(c)
    (L.CMS_ContentInfo_free if cms else L.PKCS7_free)(x)
    if (r == 1) != bool(o["v"]):
        return bad("%s: %d" % ("valid, but refused" if o["v"] else "accepted", r), message=der)
    if o["v"] and got != m["content"]:
        return bad("another content came out", message=der, got=got)
    if o["v"]:
        e.verified += 1
    else:
        e.refused += 1
