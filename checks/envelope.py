"""Replay of Envelope.tla: encrypted messages made by the code or by the oracle, altered, opened through libcrypto's CMS and PKCS#7."""
import ctypes
from ctypes import byref, c_void_p, c_char_p, c_long, c_size_t
from lib import ec, modes
from lib.evp import data, buf
from lib.ec import CURVES, tlv, seq, octets, oid, integer
from . import pk, kexp, trans
from .trans import items, rd, split_xy
from .omac import kdf_tree

BINARY, DEBUG, PARTIAL, STREAM, KEY_PARAM = 0x80, 0x20000, 0x4000, 0x1000, 0x40000
DATA, ENV, ENCD = (oid("1.2.840.113549.1.7.%d" % i) for i in (1, 3, 6))
CIPH = dict(g89=("gost89", "1.2.643.2.2.21", 7, 8), macp=("magma-ctr-acpkm", "1.2.643.7.1.1.5.1.1", 8, 4), maco=("magma-ctr-acpkm-omac", "1.2.643.7.1.1.5.1.2", 8, 4),
            kacp=("kuznyechik-ctr-acpkm", "1.2.643.7.1.1.5.2.1", 9, 8), kaco=("kuznyechik-ctr-acpkm-omac", "1.2.643.7.1.1.5.2.2", 9, 8))
COID = {k: oid(v[1]) for k, v in CIPH.items()}
SEC = dict(g89=1024, macp=8192, maco=8192, kacp=262144, kaco=262144)
SBOX = {oid(trans.OIDS.get(k) or "1.2.643.2.2.31." + {"D": "4", "T": "0"}[k]): v for k, v in modes.SBOX.items()}
KEXP = {"m": oid("1.2.643.7.1.1.7.1.1"), "k": oid("1.2.643.7.1.1.7.2.1")}
AGREE = {"g256": oid("1.2.643.7.1.1.6.1"), "g512": oid("1.2.643.7.1.1.6.2")}
MACOID = oid("1.2.643.7.1.0.6.1.1")
FORM = {"am": "m", "ak": "k"}
NOHASH = ("TCA", "TCB", "TCC", "TCD", "512C")      # RFC 9215: digestParamSet is left out with these


class J:
    pass


def setup(paths, seed):
    e = pk.base(paths, seed)
    e.certs, e.serials = {}, {}
    e.sealed = e.made = e.texts = e.refused = e.noise = 0
    e.rand = pk.Rand(e.C); e.rand.__enter__()
    L = e.L = e.C.L
    for f in "d2i_X509 BIO_new_mem_buf CMS_encrypt d2i_CMS_ContentInfo PKCS7_encrypt d2i_PKCS7 BIO_new BIO_s_mem CMS_add1_recipient_cert CMS_RecipientInfo_get0_pkey_ctx CMS_EncryptedData_encrypt OPENSSL_sk_new_null BIO_s_null".split():
        getattr(L, f).restype = c_void_p
    return e


def stats(e):
    return dict(calls=e.calls, sealed=e.sealed, made=e.made, texts=e.texts, refused=e.refused, noise=e.noise)


# --------------------------------------------------------------------- DER
def dn(cn):
    return seq(tlv(0x31, seq(oid("2.5.4.3"), tlv(12, cn))))


def serial(e, k):
    return e.serials.setdefault(tuple(k[:3]), 1000 + len(e.serials))


def ias(e, k):
    return seq(dn(b"CA"), integer(serial(e, k)))


def spki(e, k):
    return ec.spki(k[0], k[1], CURVES[k[1]].xy(pk.pub_of(e.seed, k)))


def cert(e, k):
    k = tuple(k[:3])
    if k not in e.certs:
        a = seq(oid("1.2.643.7.1.1.3.2"))
        tbs = seq(tlv(0xA0, integer(2)), integer(serial(e, k)), a, dn(b"CA"), seq(tlv(0x17, b"200101000000Z"), tlv(0x17, b"490101000000Z")), dn(b"U%d" % serial(e, k)), spki(e, k))
        d = seq(tbs, a, tlv(3, b"\0" + bytes(64)))
        b = buf(d, len(d)); p = c_void_p(ctypes.addressof(b))
        e.certs[k] = e.L.d2i_X509(None, byref(p), c_long(len(d)))
        assert e.certs[k], e.C.errs()
    return e.certs[k]


def enc_par(m):
    if m["par"][0] == "der":
        return m["par"][1]
    if m["par"][0] == "g89":
        return seq(octets(m["par"][1]), m["par"][2])
    return seq(octets(m["par"][1]))


def attrs(m):
    if m["mac"] is None:
        return b""
    return tlv(0xA1, seq(MACOID, tlv(0x31, m["mac"])))


def rec_der(e, r):
    if r["form"] in FORM:
        orig = tlv(0xA0, r.get("orig") or tlv(0xA1, r["eph"]))
        ukm = b"" if r["ukm"] is None else tlv(0xA1, octets(r["ukm"]))
        alg = seq(KEXP[r["alg"]] if r["alg"] in KEXP else ec.oid("1.2.643.2.2.13.0"), r["param"])
        return tlv(0xA1, integer(3), orig, ukm, alg, seq(*[seq(ias(e, q["names"]), octets(q["body"])) for q in r["reks"]]))
    q = r["reks"][0]
    return seq(integer(0), ias(e, q["names"]), r["ktalg"], octets(trans.build(r["kt"], "cp" if r["form"] == "cp" else r["form"])))


def build(e, m, order=None):
    eci = seq(DATA, seq(m["oid"], enc_par(m)), tlv(0x80, m["body"]))
    if m["kind"] == "raw":
        return seq(ENCD, tlv(0xA0, seq(integer(2 if m["mac"] is not None else 0), eci, attrs(m))))
    rs = m["recs"] if order is None else [m["recs"][i] for i in order]
    kari = any(r["form"] in FORM for r in rs)
    v = 2 if kari or m["mac"] is not None else 0
    return seq(ENV, tlv(0xA0, seq(integer(v), tlv(0x31, *[rec_der(e, r) for r in rs]), eci, attrs(m))))


def ktalg(k, form):
    if form == "cp":
        return ec.alg_params(k[0], k[1], hash_oid=k[1] not in NOHASH)
    return seq(KEXP[form], seq(AGREE[k[0]]))


def parse(e, der):
    """the parts of a message as the code seals it"""
    (t, c, _), = items(der)
    ct, c0 = items(c)
    env = items(items(c0[1])[0][1])
    m = dict(kind="env" if ct[2] == ENV else "raw", mac=None, recs=[])
    i = 1
    if m["kind"] == "env":
        for t, c, whole in items(env[1][1]):
            assert t == 0x30, "recipient type %02x" % t
            v, sid, alg, ek = items(c)
            form = {KEXP["m"]: "m", KEXP["k"]: "k"}.get(items(alg[1])[0][2], "cp")
            kt = trans.parse(ek[1], form)
            assert kt is not None, "not a key transport structure"
            m["recs"].append(dict(form=form, ktalg=alg[2], kt=kt, reks=[dict(sid=sid[2])]))
        i = 2
    eci = items(env[i][1])
    assert [x[0] for x in eci] == [6, 0x30, 0x80] and eci[0][2] == DATA
    a, p = items(eci[1][1])
    m["oid"], m["body"] = a[2], eci[2][1]
    m["par"] = ("der", p[2])
    pi = items(p[1])
    if [x[0] for x in pi] == [4, 6]:
        m["par"] = ("g89", pi[0][1], pi[1][2])
    elif [x[0] for x in pi] == [4]:
        m["par"] = ("ukm", pi[0][1])
    if len(env) > i + 1:
        (t, at, _), = items(env[i + 1][1])
        o, s = items(at)
        assert env[i + 1][0] == 0xA1 and o[2] == MACOID
        m["mac"] = s[1]
    return m


# ------------------------------------------------------------------ oracle
def process(e, m, cek, d, enc=0):
    """the content cipher of message m under cek, or None where the parameters do not fit; m['cipher'] names it"""
    c = m["cipher"]
    nm, _, a, ivl = CIPH[c]
    p = m["par"]
    if c == "g89":
        if p[0] != "g89" or len(p[1]) != 8 or p[2] not in SBOX:
            return None
        return modes.process(e.R, "cfb", SBOX[p[2]], cek, p[1], 1024, d, enc)
    if p[0] != "ukm" or len(p[1]) != ivl + 8:
        return None
    return modes.process(e.R, "ctr", a, okeys(e, m, cek)[0], p[1][:ivl], SEC[c], d, 1)


def okeys(e, m, cek):
    if m["cipher"] not in ("maco", "kaco"):
        return cek, None
    k = kdf_tree(e.R, cek, b"kdf tree", m["par"][1][-8:], 64)
    return k[:32], k[32:]


def seal_ref(e, m, cek, text):
    """(body, mac) of the content"""
    nm, _, a, ivl = CIPH[m["cipher"]]
    if m["cipher"] in ("maco", "kaco"):
        mac = e.R.cmac(a, okeys(e, m, cek)[1], text)
        full = process(e, m, cek, text + mac, 1)
        return full[:len(text)], octets(full[len(text):])
    return process(e, m, cek, text, 1), None


def kt_secret(e, form, k, kt):
    """what the recipient derives from a key transport message, and the message as the oracle would have made it for key `cek`"""
    E = CURVES[k[1]]
    _, xy = split_xy(kt["eph"])
    Q = (int.from_bytes(xy[:E.size], "little"), int.from_bytes(xy[E.size:], "little"))
    assert E.on(Q) and len(xy) == 2 * E.size
    return trans.secret(e, form, k, pk.priv_of(e.seed, k), Q, kt["ukm"])


def cp_unwrap(e, alg, kek, ukm, body):
    div = kexp.diversify(e.R, trans.SB[trans.cp_sbox(alg)], kek, ukm)
    return e.R.ecb(trans.SB[trans.cp_sbox(alg)], div, body, 0)


# ------------------------------------------------------------------ replay
def run_job(e, job):
    try:
        return _run(e, job)
    finally:
        e.C.ERR_clear_error()


def text_of(e, job, i, n):
    return data(e.seed, "env", job["id"], i, n)


def _run(e, job):
    M = []
    for i, o in enumerate(job["hist"]):
        e.calls += 1

        def bad(w, **kw):
            return dict(step=i, op=o, why=w, errs=e.C.errs()[:4], **{k: (v.hex()[:3000] if isinstance(v, bytes) else v) for k, v in kw.items()})
        r = globals()["do_" + o["op"]](e, job, i, o, M, bad)
        if r:
            return r
        e.C.ERR_clear_error()


def mem(e, b):
    x = buf(b, max(1, len(b)))
    return c_void_p(e.L.BIO_new_mem_buf(x, len(b))), x


def der_of(e, f, x):
    p = c_void_p(None)
    n = f(x, byref(p))
    assert n > 0
    d = ctypes.string_at(p.value, n)
    e.C.free(p)
    return d


def cms_free(e, x):
    if x and x.value:
        e.L.CMS_ContentInfo_free(x)


def do_seal(e, job, i, o, M, bad):
    L, C = e.L, e.C
    text = text_of(e, job, o["id"], o["size"])
    ci = c_void_p(e.eng.cipher(CIPH[o["cipher"]][0]))
    bio, keep = mem(e, text)
    how, der, why = o["how"], None, "sealing failed"
    key = data(e.seed, "rawcek", job["id"], i, 32)
    x = c_void_p(None)
    try:
        if how == "app":
            x = c_void_p(L.CMS_encrypt(None, bio, ci, BINARY | PARTIAL | STREAM))
            ok = bool(x.value)
            for k in o["rcpts"]:
                ri = c_void_p(L.CMS_add1_recipient_cert(x, c_void_p(cert(e, k)), BINARY | KEY_PARAM)) if ok else None
                ok = ok and bool(ri.value)
                if ok:
                    r = L.EVP_PKEY_CTX_ctrl(c_void_p(L.CMS_RecipientInfo_get0_pkey_ctx(ri)), -1, -1, trans.CIPHER, C.EVP_CIPHER_get_nid(ci), None)
                    ok = r > 0 or r == -2
            ok = ok and L.CMS_final(x, bio, None, BINARY) > 0
            der = der_of(e, L.i2d_CMS_ContentInfo, x) if ok else None
        elif how == "raw":
            kb = buf(key, 32)
            x = c_void_p(L.CMS_EncryptedData_encrypt(bio, ci, kb, c_size_t(32), BINARY))
            der = der_of(e, L.i2d_CMS_ContentInfo, x) if x.value else None
        else:
            sk = c_void_p(L.OPENSSL_sk_new_null())
            for k in o["rcpts"]:
                L.OPENSSL_sk_push(sk, c_void_p(cert(e, k)))
            x = c_void_p((L.CMS_encrypt if how == "plain" else L.PKCS7_encrypt)(sk, bio, ci, BINARY))
            L.OPENSSL_sk_free(sk)
            der = der_of(e, L.i2d_CMS_ContentInfo if how == "plain" else L.i2d_PKCS7, x) if x.value else None
    finally:
        L.BIO_free(bio)
        if how == "p7" and x.value:
            L.PKCS7_free(x)
        elif how != "p7":
            cms_free(e, x)
    if (der is not None) != bool(o["ok"]):
        return bad("sealing %s" % ("failed" if o["ok"] else "succeeded"))
    if der is None:
        return
    e.sealed += 1
    try:
        m = parse(e, der)
    except (AssertionError, ValueError, IndexError) as ex:
        return bad("not an encrypted message: %r" % ex, message=der)
    m["cipher"] = o["cipher"]
    if m["oid"] != COID[o["cipher"]]:
        return bad("another content cipher named", message=der)
    # the entries in the order they were asked for
    left, order = list(range(len(m["recs"]))), []
    for k in o["rcpts"]:
        c = [r for r in left if m["recs"][r]["reks"][0]["sid"] == ias(e, k)]
        if not c:
            return bad("a recipient is missing", message=der)
        order.append(c[0]); left.remove(c[0])
        R = m["recs"][c[0]]
        R["reks"] = [dict(names=k)]
        if R["ktalg"] != ktalg(k, o["form"]):
            return bad("wrong key encryption algorithm identifier", got=R["ktalg"], expected=ktalg(k, o["form"]), recipient=k)
    if left:
        return bad("nobody asked for one of the recipients", message=der)
    ceks = [key] if how == "raw" else []
    for k, r in zip(o["rcpts"], order):
        R = m["recs"][r]
        f, kt = R["form"], R["kt"]
        kek = kt_secret(e, f, k, kt)
        if f == "cp":
            if kt["oid"] != oid(trans.OIDS[trans.cp_sbox(k[0])]) or len(kt["ukm"]) != 8:
                return bad("wrong transport parameters", message=der)
            cek = cp_unwrap(e, k[0], kek, kt["ukm"], kt["body"])
            want = kexp.cpwrap_def(e.R, trans.SB[trans.cp_sbox(k[0])], kek, kt["ukm"], cek)
        else:
            a, iv = CIPH[f + "acp"][2], kt["ukm"][24:24 + (4 if f == "m" else 8)]
            cek = modes.process(e.R, "ctr", a, kek[32:], iv, 0, kt["body"], 1)[:32]
            want = kexp.kexp_def(e.R, f, cek, iv, kek[32:], kek[:32]), b""
        if (kt["body"], kt["chk"]) != want:
            return bad("the content key does not come out", message=der, recipient=k)
        ceks.append(cek)
    if any(c != ceks[0] for c in ceks):
        return bad("recipients find different keys", message=der)
    m["cek"] = ceks[0]
    if how != "raw" and (ceks[0] == bytes(32) or any(ceks[0] == x["cek"] for x in M)):
        return bad("a content key came twice", message=der)
    if o["cipher"] == "g89" and (m["par"][0] != "g89" or m["par"][2] != oid(trans.OIDS["Z"])):
        return bad("wrong content parameters", message=der)
    if process(e, m, m["cek"], b"") is None:
        return bad("wrong content parameters", message=der)
    if any(x["par"][1] == m["par"][1] for x in M):
        return bad("a nonce came twice", message=der)
    if (m["body"], m["mac"]) != seal_ref(e, m, m["cek"], text):
        return bad("the content is not encrypted as defined", message=der)
    if build(e, m) != der:
        return bad("not the encoding of the standard", message=der, expected=build(e, m))
    m["recs"] = [m["recs"][r] for r in order]
    m["text"] = text
    M.append(m)


def do_make(e, job, i, o, M, bad):
    e.made += 1
    c = o["cipher"]
    D = lambda *a: data(e.seed, "mk", job["id"], i, *a)
    cek, text = D("cek", 32), text_of(e, job, o["id"], o["size"])
    ivl = CIPH[c][3]
    m = dict(kind="env", cipher=c, oid=COID[c], recs=[], cek=cek, text=text)
    m["par"] = ("g89", D("iv", 8), oid(trans.OIDS["ZABC"[D("sb", 1)[0] % 4]])) if c == "g89" else ("ukm", D("iv", ivl + 8))
    m["body"], m["mac"] = seal_ref(e, m, cek, text)
    for j, r in enumerate(o["recs"]):
        k = r["to"][0]
        E = CURVES[k[1]]
        d = int.from_bytes(D("d", j, 64), "big") % (E.q - 1) + 1
        f = r["form"]
        eph = trans.spki_content(k[0], k[1], E.xy(E.mul(d)))
        ukm = D("ukm", j, 8 if f == "cp" else 32)
        if f in FORM:
            w = FORM[f]
            R = dict(form=f, alg=w, eph=eph, ukm=ukm, param=seq(AGREE[k[0]]), reks=[])
            for k in r["to"]:
                kek = trans.secret(e, w, k, d, pk.pub_of(e.seed, k), ukm)
                R["reks"].append(dict(names=k, body=trans.wrap(e, w, k[0], kek, ukm, cek)[0]))
        else:
            kek = trans.secret(e, f, k, d, pk.pub_of(e.seed, k), ukm)
            b, chk = trans.wrap(e, f, k[0], kek, ukm, cek)
            R = dict(form=f, ktalg=ktalg(k, f), reks=[dict(names=k)], kt=dict(body=b, chk=chk, oid=oid(trans.OIDS[trans.cp_sbox(k[0])]), eph=eph, ukm=ukm))
        m["recs"].append(R)
    M.append(m)


def lens(b, x):
    return [b[:-1], b + b"\0", b"", b + bytes(8), b[:len(b) // 2], b + b"\x01" * 100][x % 6]


def do_alter(e, job, i, o, M, bad):
    m = dict(M[o["from"] - 1]); M.append(m)
    m["recs"] = [dict(r, reks=[dict(q) for q in r["reks"]]) for r in m["recs"]]
    k, x, y, f = o["k"], o["x"], o["y"], o["f"]
    if k == "body":
        m["body"] = kexp.flip(m["body"], x)
    elif k == "cut":
        m["body"] = m["body"] + data("tail", x, x) if x > 0 else m["body"][:max(0, len(m["body"]) + x)]
    elif k == "par":
        m["par"] = (m["par"][0], kexp.flip(m["par"][1], x)) + m["par"][2:]
    elif k == "sbox":
        m["par"] = m["par"][:2] + (oid(trans.OIDS["ZABC"[x]]),)
    elif k == "parlen":
        p = m["par"]
        if m["cipher"] == "g89":
            m["par"] = [("g89", p[1][:-1], p[2]), ("g89", p[1] + b"\0", p[2]), ("der", tlv(5)), ("g89", p[1], oid("1.2.643.2.2.31.99")), ("der", octets(p[1])), ("g89", b"", p[2])][x]
        else:
            m["par"] = [("ukm", p[1][:-1]), ("ukm", p[1] + b"\0"), ("der", tlv(5)), ("ukm", b""), ("der", octets(p[1])), ("ukm", p[1][:8])][x]
    elif k == "mac":
        t, c, _ = rd(m["mac"], 0)
        m["mac"] = octets(kexp.flip(c, x))
    elif k == "maclen":
        c = rd(m["mac"], 0)[1]
        m["mac"] = [octets(c[:-1]), octets(c + b"\0"), octets(b""), tlv(5), tlv(3, b"\0" + c), octets(c[:4])][x]
    elif k == "nomac":
        m["mac"] = None
    elif k == "cipher":
        m["cipher"] = f; m["oid"] = COID[f]
    elif k == "graft":
        m[f] = M[x - 1][f]
    else:
        return alter_rec(e, job, i, o, M, m)


def alter_rec(e, job, i, o, M, m):
    k, x, y, f = o["k"], o["x"], o["y"], o["f"]
    r, q = x[0] - 1, x[1] - 1
    if k == "rswap":
        m["recs"][r], m["recs"][q] = m["recs"][q], m["recs"][r]
        return
    if k == "rdrop":
        del m["recs"][r]
        return
    if k == "rgraft":
        m["recs"][r] = M[y - 1]["recs"][q]
        return
    R = m["recs"][r]
    if k == "rsid":
        R["reks"][q]["names"] = f
        return
    kari = R["form"] in FORM
    if not kari:
        R["kt"] = dict(R["kt"])
    box = R if kari else R["kt"]
    if k == "rbody":
        if kari:
            B = R["reks"][q]["body"]
            R["reks"][q]["body"] = [kexp.flip(B, y % (8 * len(B))), B[:-1], B + b"\0", b"", kexp.flip(B, y % (8 * len(B)))][y % 5]
        elif R["form"] == "cp" and y % 3 == 0:
            box["chk"] = kexp.flip(box["chk"], y // 3 % 32)
        else:
            box["body"] = kexp.flip(box["body"], y % (8 * len(box["body"])))
    elif k == "rukm":
        # bytes that matter for every key
        n = 64 if R["form"] == "cp" else 128
        b = y % n
        if R["form"] != "cp" and y % 3 == 0:
            b = 192 + y % (32 if FORM.get(R["form"], R["form"]) == "m" else 64)
        box["ukm"] = kexp.flip(box["ukm"], b)
    elif k == "rukmlen":
        u = box["ukm"]
        if kari and y == 6:
            box["ukm"] = None
        else:
            box["ukm"] = lens(u, y)
            if R["form"] == "cp" and len(box["ukm"]) > 8 and box["ukm"][:8] == u[:8] and False:
                return
    elif k == "reph":
        pre, xy = split_xy(box["eph"])
        box["eph"] = pre + kexp.flip(xy, y % (8 * len(xy)))
    elif k == "rforeign":
        c = (f[0], f[1], "r1")
        box["eph"] = trans.spki_content(c[0], c[1], CURVES[c[1]].xy(pk.pub_of(e.seed, c)))
    elif k == "ralg":
        if kari:
            R["alg"] = {"m": "k", "k": "m"}[R["alg"]] if y % 2 else "wrong"
        else:
            o2 = [v for v in ("m", "k", "cp") if v != R["form"]][y % 2]
            to = R["reks"][0]["names"]
            R["ktalg"] = seq(KEXP[o2], seq(AGREE["g256"])) if o2 != "cp" else ec.alg_params("g256", "A")
    elif k == "rnoparam":
        # the algorithm's parameters, or the originator, given in ways that say nothing
        if y < 3:
            R["param"] = [b"", tlv(5), octets(b"\1\2")][y]
        else:
            alg, key = (x[2] for x in items(R["eph"]))
            a = items(items(alg)[0][1])[0][2]
            R["orig"] = [ias(e, R["reks"][0]["names"]), tlv(0x80, b"0123456789"), tlv(0xA1, seq(a), key), tlv(0xA1, seq(a, tlv(5)), key)][y - 3]
    else:
        raise ValueError(k)


def do_open(e, job, i, o, M, bad):
    L, C = e.L, e.C
    m = M[o["m"] - 1]
    der = build(e, m)
    b = buf(der, len(der)); p = c_void_p(ctypes.addressof(b))
    out = c_void_p(L.BIO_new(c_void_p(L.BIO_s_mem())))
    api = o["api"]
    x = c_void_p((L.d2i_PKCS7 if api == "p7" else L.d2i_CMS_ContentInfo)(None, byref(p), c_long(len(der))))
    try:
        if not x.value:
            r = 0 if api != "none" else 0
            if o["v"] == "text":
                return bad("not read", message=der)
        elif api == "raw":
            key = M[o["cek"] - 1]["cek"] if o["cek"] else data(e.seed, "wrong", i, 32)
            r = L.CMS_EncryptedData_decrypt(x, buf(key, 32), c_size_t(32), None, out, BINARY)
        else:
            k = o["key"]
            pkey, cx = c_void_p(pk.key(e, k, 1)), c_void_p(cert(e, k)) if o["named"] else None
            if api == "p7":
                r = L.PKCS7_decrypt(x, pkey, cx, out, 0)
            else:
                r = L.CMS_decrypt(x, pkey, cx, None, out, BINARY | (0 if o["hide"] else DEBUG))
        got = b""
        tmp = buf(65536)
        while True:
            n = L.BIO_read(out, tmp, 65536)
            if n <= 0:
                break
            got += ctypes.string_at(tmp, n)
    finally:
        L.BIO_free(out)
        (L.PKCS7_free if api == "p7" else L.CMS_ContentInfo_free)(x)
    if o["v"] == "text":
        want = process(e, m, M[o["cek"] - 1]["cek"], m["body"])
        if o["exact"] and want != M[o["cek"] - 1]["text"]:
            raise RuntimeError("the oracle does not open its own message")
        if r != 1:
            return bad("not opened: %d" % r, message=der)
        if got != want:
            return bad("opened to something else (%d bytes, not %d)" % (len(got), len(want)), message=der)
        e.texts += 1
    elif o["v"] == "refuse":
        if r > 0:
            return bad("opened, %d bytes" % len(got), message=der)
        e.refused += 1
    else:
        # whatever comes, it is not the content under any key that is about
        if r > 0 and len(m["body"]) >= 16 and any(got == process(e, m, w["cek"], m["body"]) for w in M):
            return bad("opened without a key", message=der)
        e.noise += 1
