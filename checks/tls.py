"""Replay of Tls.tla: sessions of the GOST suites through libssl, and an observer on the wire who knows only the server's
private key and works everything else out from the definitions (RFC 9189, draft-chudov-cryptopro-cptls)."""
import ctypes
from ctypes import c_void_p, c_int, c_long, c_char_p, c_size_t, c_uint, c_uint64, CFUNCTYPE, create_string_buffer, byref
from lib import ec, modes
from lib.evp import data, buf
from lib.ec import CURVES, seq, octets, oid, tlv
from . import pk, kexp, trans, signed, kdf, macs
from .trans import items, split_xy

NAME = dict(kuz="GOST2012-KUZNYECHIK-KUZNYECHIKOMAC", magma="GOST2012-MAGMA-MAGMAOMAC", iana="IANA-GOST2012-GOST8912-GOST8912", legacy="LEGACY-GOST2012-GOST8912-GOST8912",
            null12="GOST2012-NULL-GOST12", gost01="GOST2001-GOST89-GOST89", null01="GOST2001-NULL-GOST94")
CODE = dict(kuz=0xC100, magma=0xC101, iana=0xC102, legacy=0xFF85, null12=0xFF87, gost01=0x81, null01=0x83)
VER = dict(t10=0x301, t11=0x302, t12=0x303)
# cipher, IV length, tag length
SHAPE = dict(kuz=("tree", 9, 8, 16), magma=("tree", 8, 4, 8), iana=("cnt", 7, 8, 4), legacy=("cnt", 7, 8, 4), gost01=("cnt", 3, 8, 4), null12=("null", 256, 0, 32), null01=("null", 94, 0, 32))
IGNORE = {8: (38, 25, 12), 9: (32, 19, 6)}
SIGALG = {0x0840: "g256", 0x0841: "g512", 0xeded: "g01", 0xeeee: "g256", 0xefef: "g512"}
NOW = 1700000000
CCS, ALERT, HS, APP = 20, 21, 22, 23


class Odd(Exception):
    """what is on the wire is not what the definitions say"""


def setup(paths, seed):
    e = signed.setup(paths, seed)
    S = e.S = ctypes.CDLL("libssl.so.3", mode=ctypes.RTLD_GLOBAL)
    for f in "TLS_method SSL_CTX_new SSL_new SSL_get1_session SSL_get_current_cipher SSL_CTX_get_cert_store SSL_CTX_get0_param SSL_get1_peer_certificate SSL_CIPHER_get_name SSL_get_wbio SSL_get_rbio".split():
        getattr(S, f).restype = c_void_p
    S.SSL_CTX_set_options.restype = c_uint64
    e.made = e.failed = e.records = e.bytes = e.hits = e.resumed = e.refused = 0
    e.rand = pk.Rand(e.C); e.rand.__enter__()
    e.bio = c_void_p(e.L.BIO_s_mem())
    e.keylog = {}
    e._kl = CFUNCTYPE(None, c_void_p, c_char_p)(lambda s, l: e.keylog.__setitem__(l.split()[1].decode(), bytes.fromhex(l.split()[2].decode())))
    e.cache = {}
    e.tmp = buf(1 << 18)
    return e


def stats(e):
    return dict(calls=e.calls, sessions=e.made, failed=e.failed, records=e.records, bytes=e.bytes, resumed=e.resumed, altered_handshakes=e.hits, refused=e.refused)


# ------------------------------------------------------------ certificates
CA, ROGUE = ("g256", "A", "r8"), ("g256", "B", "r9")


def cert_der(e, k, ca=CA):
    o = dict(k="cert", subj=k, iss=ca, serial=7 + signed.no(e, k), ext=b"x", inner=seq(signed.SIGALG["g256"]), alg=seq(signed.SIGALG["g256"]))
    o["sig"] = signed.sign(e, ca, signed.tbs(e, o), "tls")
    return signed.whole(e, o)


def hash_of(R, bits, b):
    return pk.digest(R, bits, b)


def hmac(R, bits, key, m):
    B = 32 if bits == 94 else 64
    if len(key) > B:
        key = hash_of(R, bits, key)
    key += bytes(B - len(key))
    return hash_of(R, bits, bytes(x ^ 0x5c for x in key) + hash_of(R, bits, bytes(x ^ 0x36 for x in key) + m))


def prf(R, bits, secret, label, seed, n):
    s = label + seed
    a, out = s, b""
    while len(out) < n:
        a = hmac(R, bits, secret, a)
        out += hmac(R, bits, secret, a + s)
    return out[:n]


# ----------------------------------------------------------- record layers
class Plain:
    def open(self, ty, ver, b):
        return b

    seal = open


class Tree:
    """RFC 9189: fresh keys by TLSTREE, CTR-ACPKM from IV + number, OMAC"""
    def __init__(self, e, alg, mk, ek, iv):
        self.e, self.alg, self.mk, self.ek, self.iv, self.n = e, alg, mk, ek, iv, 0

    def keys(self):
        lv = [(self.n >> g << g).to_bytes(8, "big") for g in IGNORE[self.alg]]
        return kdf.tree(self.e, self.mk, lv), kdf.tree(self.e, self.ek, lv)

    def open(self, ty, ver, b):
        R, L = self.e.R, len(self.iv)
        T = 2 * L
        if len(b) < T:
            raise Odd("record too short")
        mk, ek = self.keys()
        iv = ((int.from_bytes(self.iv, "big") + self.n) % (1 << (8 * L))).to_bytes(L, "big")
        p = modes.process(R, "ctr", self.alg, ek, iv, 4096 if self.alg == 9 else 1024, b, 1)
        d, t = p[:-T], p[-T:]
        m = self.n.to_bytes(8, "big") + bytes([ty]) + ver.to_bytes(2, "big") + len(d).to_bytes(2, "big") + d
        if R.cmac(self.alg, mk, m) != t:
            raise Odd("record %d: wrong MAC" % self.n)
        self.n += 1
        return d


class Cnt:
    """GOST 28147-89: one keystream and one running MAC for the whole direction"""
    def __init__(self, e, sb, mk, ek, iv):
        self.R, self.sb, self.key, self.n = e.R, sb, ek, 0
        self.reg, self.ks, self.left, self.first = e.R.E(sb, ek, iv), b"", 1024, True
        self.mk, self.st, self.mn, self.tail = mk, bytes(8), 0, b""

    def stream(self, n):
        R = self.R
        while len(self.ks) < n:
            if not self.left:
                self.key = R.meshkey(self.sb, self.key); self.reg = R.E(self.sb, self.key, self.reg); self.left = 1024
            k, self.reg = R.cnt_ks(self.sb, self.key, self.reg, self.left // 8)
            self.ks += k; self.left = 0
        o, self.ks = self.ks[:n], self.ks[n:]
        return o

    def mac(self, m):
        R = self.R
        b = self.tail + m
        def block(st, key, n, x):
            # meshing at every 1024 bytes
            while x:
                if n and n % 1024 == 0:
                    key = R.meshkey(self.sb, key)
                s = min(len(x), 1024 - n % 1024)
                st = R.imit(self.sb, key, st, x[:s]); n += s; x = x[s:]
            return st, key, n
        w = len(b) // 8 * 8
        self.st, self.mk, self.mn = block(self.st, self.mk, self.mn, b[:w])
        self.tail = b[w:]
        last = self.tail + bytes(-len(self.tail) % 8)
        if self.mn + len(last) == 8:
            last += bytes(8)
        return block(self.st, self.mk, self.mn, last)[0][:4]

    def open(self, ty, ver, b):
        if len(b) < 4:
            raise Odd("record too short")
        p = modes.xor(b, self.stream(len(b)))
        d, t = p[:-4], p[-4:]
        if self.mac(self.n.to_bytes(8, "big") + bytes([ty]) + ver.to_bytes(2, "big") + len(d).to_bytes(2, "big") + d) != t:
            raise Odd("record %d: wrong MAC" % self.n)
        self.n += 1
        return d


class Null:
    """no encryption; with the 2012 suite the HMAC is of all the records so far"""
    def __init__(self, e, bits, mk, ek, iv):
        self.R, self.bits, self.mk, self.n, self.m = e.R, bits, mk, 0, b""

    def open(self, ty, ver, b):
        d, t = b[:-32], b[-32:]
        self.m = (self.m if self.bits == 256 else b"") + self.n.to_bytes(8, "big") + bytes([ty]) + ver.to_bytes(2, "big") + len(d).to_bytes(2, "big") + d
        if hmac(self.R, self.bits, self.mk, self.m) != t:
            raise Odd("record %d: wrong MAC" % self.n)
        self.n += 1
        return d


LAYER = dict(tree=Tree, cnt=Cnt, null=Null)


# ---------------------------------------------------------------- observer
class Observer:
    def __init__(self, e, vlen, keys, master=None):
        self.e, self.R, self.keys = e, e.R, keys            # the server's keys, by certificate
        self.layer = dict(c=Plain(), s=Plain()); self.next = {}
        self.part = dict(c=b"", s=b"")
        self.masters = {}
        self.master = master; self.suite = None; self.new()

    def new(self):
        self.tr = b""; self.cert = dict(c=None, s=None); self.pms = None; self.fin = {}; self.block = None; self.sigs = 0; self.full = False

    def prf(self, secret, label, sd, n):
        return prf(self.R, 94 if self.suite in ("gost01", "null01") else 256, secret, label, sd, n)

    def H(self, b):
        return hash_of(self.R, 94 if self.suite in ("gost01", "null01") else 256, b)

    def feed(self, d, rec):
        """-> (type, plaintext)"""
        ty, ver, n = rec[0], int.from_bytes(rec[1:3], "big"), int.from_bytes(rec[3:5], "big")
        b = rec[5:]
        if n != len(b):
            raise Odd("record length")
        p = self.layer[d].open(ty, ver, b)
        self.e.records += 1
        if ty == CCS:
            if p != b"\1":
                raise Odd("change cipher spec: %r" % p)
            self.keyblock()
            self.layer[d] = self.next[d]
        elif ty == HS:
            x = self.part[d] + p
            while len(x) >= 4 and len(x) >= 4 + int.from_bytes(x[1:4], "big"):
                m = 4 + int.from_bytes(x[1:4], "big")
                self.message(d, x[0], x[4:m], x[:m]); x = x[m:]
            self.part[d] = x
        return ty, p

    def keyblock(self):
        if self.block is not None:
            return
        kind, a, ivl, tag = SHAPE[self.suite]
        self.block = b = self.prf(self.master, b"key expansion", self.sr + self.cr, 128 + 2 * ivl)
        for i, d in enumerate("cs"):
            ek = b"" if kind == "null" else b[64 + 32 * i:96 + 32 * i]
            self.next[d] = LAYER[kind](self.e, a, b[32 * i:32 * i + 32], ek, b[128 + ivl * i:128 + ivl * (i + 1)])

    def message(self, d, t, m, whole):
        if t == 0:
            return
        if t == 1:
            self.new()
            self.cr = m[2:34]
            i = 34
            self.csid = m[i + 1:i + 1 + m[i]]; i += 1 + m[i]
            n = int.from_bytes(m[i:i + 2], "big"); i += 2
            self.offer = [int.from_bytes(m[j:j + 2], "big") for j in range(i, i + n, 2)]
            i += n; i += 1 + m[i]
            self.cext = exts(m[i:])
        elif t == 2:
            self.ver = int.from_bytes(m[:2], "big"); self.sr = m[2:34]
            i = 34
            self.sid = m[i + 1:i + 1 + m[i]]; i += 1 + m[i]
            c = int.from_bytes(m[i:i + 2], "big")
            s = [k for k, v in CODE.items() if v == c]
            if not s or c not in self.offer:
                raise Odd("suite %04x" % c)
            self.suite = s[0]
            self.ems = 23 in exts(m[i + 3:])
            if self.ems and 23 not in self.cext:
                raise Odd("extended master secret nobody asked for")
        elif t == 11:
            n = int.from_bytes(m[:3], "big")
            self.cert[d] = m[6:6 + int.from_bytes(m[3:6], "big")] if n else None
        elif t == 16:
            self.full = True
            self.tr += whole
            self.premaster(m)
            self.master = self.prf(self.pms, b"extended master secret", self.H(self.tr), 48) if self.ems else self.prf(self.pms, b"master secret", self.cr + self.sr, 48)
            return
        elif t == 15:
            self.check_sig(m)
        elif t == 20:
            if m != self.prf(self.master, {"c": b"client finished", "s": b"server finished"}[d], self.H(self.tr), 32 if self.suite in ("kuz", "magma") else 12):
                raise Odd("wrong Finished")
            self.fin[d] = 1
        self.tr += whole

    def premaster(self, m):
        e, R = self.e, self.R
        k = self.keys.get(self.cert["s"])
        if k is None:
            raise Odd("not a certificate of the server's")
        h = hash_of(R, 94 if self.suite in ("gost01", "null01") else 256, self.cr + self.sr)
        (t, c, w), = items(m)
        if self.suite in ("kuz", "magma"):
            f = "k" if self.suite == "kuz" else "m"
            kt = trans.parse(m, f)
            if kt is None:
                raise Odd("not a key transport structure")
            ukm = h
        else:
            f, (i,) = "cp", items(c)
            kt = trans.parse(i[2], "cp")
            if kt is None:
                raise Odd("not a key transport structure")
            ukm = h[:8]
            if kt["oid"] != oid(trans.OIDS[trans.cp_sbox(k[0])]):
                raise Odd("key transport parameters")
        if kt["ukm"] != ukm:
            raise Odd("UKM is not the hash of the randoms")
        E = CURVES[k[1]]
        _, xy = split_xy(kt["eph"])
        Q = (int.from_bytes(xy[:E.size], "little"), int.from_bytes(xy[E.size:], "little"))
        if not E.on(Q) or trans.kind_of(kt["eph"]) != trans.kind_of(trans.spki_content(k[0], k[1], E.xy(Q))):
            raise Odd("ephemeral key")
        kek = trans.secret(e, f, k, pk.priv_of(e.seed, k), Q, ukm)
        if f == "cp":
            sb = trans.SB[trans.cp_sbox(k[0])]
            pms = R.ecb(sb, kexp.diversify(R, sb, kek, ukm), kt["body"], 0)
            want = kexp.cpwrap_def(R, sb, kek, ukm, pms)
        else:
            iv = ukm[24:24 + (4 if f == "m" else 8)]
            pms = modes.process(R, "ctr", 8 if f == "m" else 9, kek[32:], iv, 0, kt["body"], 1)[:32]
            want = kexp.kexp_def(R, f, pms, iv, kek[32:], kek[:32]), b""
        if (kt["body"], kt["chk"]) != want:
            raise Odd("the premaster secret does not come out")
        self.pms, self.eph = pms, Q

    def check_sig(self, m):
        k = self.ckey
        if self.ver == 0x303:
            a = int.from_bytes(m[:2], "big"); m = m[2:]
            if SIGALG.get(a) != k[0]:
                raise Odd("signature algorithm %04x for %s" % (a, k[0]))
        n = int.from_bytes(m[:2], "big")
        if n != len(m) - 2 or self.cert["c"] != self.cder:
            raise Odd("CertificateVerify")
        if not verify(self.e, k, self.tr, m[2:][::-1]):
            raise Odd("wrong signature in CertificateVerify")
        self.sigs += 1


def verify(e, k, b, sig):
    return signed.verify(e, k, b, sig)


def exts(b):
    out, i = {}, 2
    while i + 4 <= len(b):
        t, n = int.from_bytes(b[i:i + 2], "big"), int.from_bytes(b[i + 2:i + 4], "big")
        out[t] = b[i + 4:i + 4 + n]; i += 4 + n
    return out


def records(b):
    """whole records, and what is left"""
    out = []
    while len(b) >= 5 and len(b) >= 5 + int.from_bytes(b[3:5], "big"):
        n = 5 + int.from_bytes(b[3:5], "big")
        out.append(b[:n]); b = b[n:]
    return out, b


# ------------------------------------------------------------------ replay
class Job:
    pass


def run_job(e, job):
    J = Job()
    J.srv, J.conn, J.sess, J.ctxs, J.writes, J.store, J.secrets = [], {}, [], [], {}, {}, set()
    S = e.S
    e.keylog.clear()
    try:
        for i, o in enumerate(job["hist"]):
            e.calls += 1

            def bad(w, **kw):
                return dict(step=i, op={k: v for k, v in o.items() if k != "items"} if len(str(o)) > 2000 else o, why=w, errs=e.C.errs()[:4], **{k: (v.hex()[:3000] if isinstance(v, bytes) else v) for k, v in kw.items()})
            try:
                r = globals()["do_" + o["op"]](e, job, J, i, o, bad)
            except Odd as x:
                r = bad(str(x))
            if r:
                return r
            e.C.ERR_clear_error()
    finally:
        for x in J.conn.values():
            for d in "cs":
                S.SSL_free(x.ssl[d])
        for x in J.sess:
            S.SSL_SESSION_free(x[0])
        for x in J.ctxs:
            S.SSL_CTX_free(x)
        e.C.ERR_clear_error()


def ctx_new(e, J, lst, lo, hi, weak):
    S = e.S
    c = c_void_p(S.SSL_CTX_new(c_void_p(S.TLS_method())))
    J.ctxs.append(c)
    S.SSL_CTX_ctrl(c, 123, c_long(lo), None); S.SSL_CTX_ctrl(c, 124, c_long(hi), None)
    S.SSL_CTX_set_keylog_callback(c, e._kl)
    if S.SSL_CTX_set_cipher_list(c, ("@SECLEVEL=%d:" % (0 if weak else 1) + ":".join(NAME[s] for s in lst)).encode()) != 1:
        return None
    st = c_void_p(S.SSL_CTX_get_cert_store(c))
    x = signed.d2i(e.L.d2i_X509, cert_der(e, CA))
    e.L.X509_STORE_add_cert(st, x); e.L.X509_free(x)
    e.L.X509_VERIFY_PARAM_set_time(c_void_p(S.SSL_CTX_get0_param(c)), c_long(NOW))
    S.SSL_CTX_set_session_id_context(c, b"x", 1)
    return c


def use(e, c, k, der):
    S = e.S
    return S.SSL_CTX_use_certificate_ASN1(c, len(der), der) == 1 and S.SSL_CTX_use_PrivateKey(c, c_void_p(pk.key(e, k, 1))) == 1


def do_server(e, job, J, i, o, bad):
    S = e.S
    c = ctx_new(e, J, o["list"], 0x301, 0x303, True)
    if not c:
        return bad("suites refused")
    s = Job(); J.srv.append(s)
    s.ctx, s.keys = c, {}
    for k in o["keys"]:
        d = cert_der(e, tuple(k)); s.keys[d] = tuple(k)
        if not use(e, c, tuple(k), d):
            return bad("certificate refused", key=k)
        # a key of somebody else's does not go with it
        other = (k[0], k[1], "r7")
        if S.SSL_CTX_use_PrivateKey(c, c_void_p(pk.key(e, other, 1))) == 1:
            return bad("the private key of another certificate accepted", key=k)
        e.C.ERR_clear_error()
        e.refused += 1
        if not use(e, c, tuple(k), d):
            return bad("certificate refused", key=k)
    S.SSL_CTX_set_verify(c, {"no": 0, "ask": 1, "must": 3}[o["auth"]], None)
    S.SSL_CTX_set_options(c, c_uint64(0x100 | (0 if o["tickets"] else 0x4000)))
    s.tickets = o["tickets"]


def drain(e, b):
    out = b""
    while True:
        n = e.L.BIO_read(b, e.tmp, 1 << 18)
        if n <= 0:
            return out
        out += ctypes.string_at(e.tmp, n)


def ssl_new(e, ctx, server):
    S, L = e.S, e.L
    s = c_void_p(S.SSL_new(ctx))
    r, w = c_void_p(L.BIO_new(e.bio)), c_void_p(L.BIO_new(e.bio))
    for b in (r, w):
        L.BIO_ctrl(b, 130, c_long(-1), None)
    S.SSL_set_bio(s, r, w)
    (S.SSL_set_accept_state if server else S.SSL_set_connect_state)(s)
    return s, r, w


def pump(e, x, hit=-1, bit=0):
    """the handshake to its end: (who is through, what was altered for whom)"""
    S = e.S
    done, victim, quiet, n = dict(c=0, s=0), None, 0, 0
    while quiet < 2 and not (done["c"] and done["s"]):
        quiet += 1
        for d, p in (("c", "s"), ("s", "c")):
            if done[d] != 1:
                e.C.ERR_clear_error()
                r = S.SSL_do_handshake(x.ssl[d])
                done[d] = 1 if r == 1 else 0
                if r != 1 and S.SSL_get_error(x.ssl[d], r) != 2:
                    done[d] = -1
                    x.err.setdefault(d, e.C.errs())
            out = drain(e, x.w[d])
            if out:
                quiet = 0
                recs, rest = records(out)
                if rest:
                    raise Odd("half a record sent")
                for r in recs:
                    if n == hit and len(r) > 5:
                        r = r[:5] + kexp.flip(r[5:], bit % (8 * (len(r) - 5)))
                        victim = p
                    elif victim is None:
                        x.obs.feed(d, r)
                    n += 1
                    e.L.BIO_write(x.r[p], r, len(r))
        if -1 in done.values() and quiet:
            break
    return done, victim, n


def do_connect(e, job, J, i, o, bad):
    S = e.S
    s = J.srv[o["srv"] - 1]
    ver = VER[o["ver"]]
    weak = ver != 0x303 or any(x in ("null12", "null01") for x in o["list"])
    cc = ctx_new(e, J, o["list"], ver, ver, weak)
    if not cc:
        return bad("suites refused")
    if not o["empty"]:
        S.SSL_CTX_set_options(cc, c_uint64(0x800)); S.SSL_CTX_set_options(s.ctx, c_uint64(0x800))
    else:
        S.SSL_CTX_clear_options(s.ctx, c_uint64(0x800))
    k, der = tuple(o["key"]), None
    if o["ck"] != "none":
        der = cert_der(e, k, CA if o["ck"] == "good" else ROGUE)
        if not use(e, cc, k, der):
            return bad("certificate refused")
    S.SSL_CTX_set_verify(cc, 1, None)
    x = Job(); J.conn[o["c"]] = x
    x.ssl, x.r, x.w, x.err = {}, {}, {}, {}
    x.srv, x.master = s, None
    for d, c in (("c", cc), ("s", s.ctx)):
        x.ssl[d], x.r[d], x.w[d] = ssl_new(e, c, d == "s")
    sess = J.sess[o["sess"] - 1] if o["sess"] else None
    x.obs = Observer(e, o["vlen"], s.keys, sess and sess[1])
    x.obs.ckey, x.obs.cder = k, der
    if sess and S.SSL_set_session(x.ssl["c"], sess[0]) != 1:
        return bad("session refused")
    hit, bit = o["hit"], o["x"]
    if hit >= 0:
        # which record: there are not as many as that
        hit = hit % 14
    done, victim, n = pump(e, x, hit, bit)
    up = done["c"] == 1 and done["s"] == 1
    if victim:
        e.hits += 1
        if done[victim] == 1:
            return bad("an altered handshake went through for the side that got it (%s)" % victim, record=hit)
        return
    if o["hit"] >= 0:
        return        # it never got as far
    if up != bool(o["ok"]):
        return bad("connection %s" % ("made" if up else "not made"), client=x.err.get("c"), server=x.err.get("s"))
    if not up:
        e.failed += 1
        return
    e.made += 1
    e.resumed += o["resumed"]
    O = x.obs
    if sorted(O.fin) != ["c", "s"]:
        return bad("a Finished message is missing")
    if O.suite != o["suite"] or O.ver != ver:
        return bad("agreed on %s %04x" % (O.suite, O.ver))
    for d in "cs":
        if S.SSL_session_reused(x.ssl[d]) != o["resumed"]:
            return bad("%sresumed" % ("not " if o["resumed"] else ""))
        if S.SSL_version(x.ssl[d]) != ver:
            return bad("wrong version")
    if O.full == bool(o["resumed"]):
        return bad("a full handshake and a resumed session")
    if (O.sigs != 0) != (o["cert"] == "good") or (O.cert["c"] is not None) != (o["cert"] == "good"):
        return bad("client certificate %s" % ("missing" if o["cert"] == "good" else "not asked for"))
    r = masters(e, J, x, bad)
    if r:
        return r
    if O.full:
        for v in (O.pms, O.eph):
            if v in J.secrets:
                return bad("a secret came twice")
            J.secrets.add(v)


def masters(e, J, x, bad):
    O = x.obs
    m = e.keylog.get(O.cr.hex())
    if m is not None and m != O.master:
        return bad("the master secret is not what the wire says", got=m, expected=O.master)


def do_write(e, job, J, i, o, bad):
    x, d = J.conn[o["c"]], o["d"]
    text = data(e.seed, "tls", job["id"], i, o["n"])
    r = e.S.SSL_write(x.ssl[d], text, o["n"])
    if (r == o["n"]) != bool(o["ok"]):
        return bad("write: %d" % r)
    out = drain(e, x.w[d])
    if not o["ok"]:
        if out:
            return bad("something sent all the same")
        return
    recs, rest = records(out)
    if rest or len(recs) != o["empty"] + len(o["pieces"]):
        return bad("%d records for %d pieces" % (len(recs), len(o["pieces"])))
    p = 0
    for j, n in enumerate(o["pieces"]):
        # an empty one goes before the first, in TLS 1.0
        g = recs[:1 + o["empty"]] if j == 0 else recs[j + o["empty"]:j + 1 + o["empty"]]
        for z, rec in enumerate(g):
            ty, t = x.obs.feed(d, rec)
            want = b"" if z < len(g) - 1 else text[p:p + n]
            if ty != APP or t != want:
                return bad("the record does not hold what was written", piece=j, type=ty)
        J.store[(o["c"], d, o["ep"], o["first"] + j)] = g, text[p:p + n]
        p += n


def read_all(e, x, d):
    """what comes out, and how it ends"""
    out = b""
    while True:
        e.C.ERR_clear_error()
        n = e.S.SSL_read(x.ssl[d], e.tmp, 1 << 18)
        if n <= 0:
            return out, e.S.SSL_get_error(x.ssl[d], n)
        out += ctypes.string_at(e.tmp, n)


def do_burst(e, job, J, i, o, bad):
    x, d = J.conn[o["c"]], o["d"]
    p = "s" if d == "c" else "c"
    L = e.L
    for j in range(o["k"]):
        text = data(e.seed, "burst", job["id"], i, j, o["n"])
        if e.S.SSL_write(x.ssl[d], text, o["n"]) != o["n"]:
            return bad("write %d" % j)
        out = drain(e, x.w[d])
        got = b""
        for rec in records(out)[0]:
            ty, t = x.obs.feed(d, rec)
            got += t
        if got != text:
            return bad("the record does not hold what was written", number=j)
        L.BIO_write(x.r[p], out, len(out))
        r = e.S.SSL_read(x.ssl[p], e.tmp, 1 << 15)
        if r != o["n"] or ctypes.string_at(e.tmp, r) != text:
            return bad("record %d of the burst arrived as something else: %d" % (j, r))
        e.bytes += r


def do_wire(e, job, J, i, o, bad):
    pass


def altered(recs, alts):
    recs = list(recs)
    for k, x in alts:
        # in a pair, mostly the one that has the data
        w = 0 if len(recs) > 1 and x % 5 == 0 else len(recs) - 1
        r = recs[w]; h, b = r[:5], r[5:]
        if k == "flip":
            v = x // 5
            # the tag as often as the rest
            b = kexp.flip(b, (8 * len(b) - 1 - v % 32) if v % 2 else v % (8 * len(b)))
        elif k == "type":
            h = bytes([[t for t in (20, 21, 22, 23, 24) if t != h[0]][x % 4]]) + h[1:]
        elif k == "ver":
            h = h[:1] + [b"\3\0", b"\3\4", b"\2\3", b"\3\3" if h[1:3] != b"\3\3" else b"\3\1"][x % 4] + h[3:]
        elif k == "cut":
            n = 1 + x // 5 % min(len(b), 20)
            b = b[:-n] if x % 2 or len(recs) else b[n:]
        elif k == "grow":
            b = b + data("grow", x, 1 + x % 20)
        recs[w] = h[:3] + len(b).to_bytes(2, "big") + b
    return recs


def do_deliver(e, job, J, i, o, bad):
    x, d = J.conn[o["c"]], o["d"]
    p = "s" if d == "c" else "c"
    want, wire = b"", b""
    for j, it in enumerate(o["items"]):
        g, t = J.store[(it["c"], it["d"], it["ep"], it["n"])]
        wire += b"".join(altered(g, it["alt"]))
        if j < o["take"]:
            want += t
    e.L.BIO_write(x.r[p], wire, len(wire))
    got, err = read_all(e, x, p)
    errs = e.C.errs()[:3]
    e.bytes += len(got)
    if got != want:
        return bad("read %d bytes, not %d%s" % (len(got), len(want), "" if len(got) != len(want) or got == want else ", and not the same"), end=err)
    end = o["end"]
    if end == "" and err != 2:
        return bad("the connection broke: %d" % err, why2=errs)
    if end == "bad" and err != 1:
        return bad("a record that does not belong here was passed over: %d" % err)
    if end == "alert" and err != 1:
        return bad("a fatal alert was passed over: %d" % err)
    if end == "close" and err != 6:
        return bad("a closed connection is not: %d" % err)
    if end == "deaf" and err == 2:
        return bad("it listens again")
    if end == "bad":
        e.refused += 1
    out = drain(e, x.w[p])
    recs, rest = records(out)
    if bool(recs) != bool(o["says"]) or rest:
        return bad("%d records in answer" % len(recs))
    if recs:
        ty, t = x.obs.feed(p, recs[0])
        if ty != ALERT or t[:1] != b"\2" or len(recs) != 1:
            return bad("not an alert: %d" % ty)
        x.alert = recs
        J.pending = recs
        n = o["n2"]
        J.store[(o["c"], p, o["ep"], n)] = recs, b""


def do_close(e, job, J, i, o, bad):
    x, d = J.conn[o["c"]], o["d"]
    if e.S.SSL_shutdown(x.ssl[d]) < 0:
        return bad("shutdown failed")
    recs, rest = records(drain(e, x.w[d]))
    if len(recs) != 1 or rest:
        return bad("%d records to close" % len(recs))
    ty, t = x.obs.feed(d, recs[0])
    if ty != ALERT or t != b"\1\0":
        return bad("not a close alert")
    J.store[(o["c"], d, o["ep"], o["n"])] = recs, b""


def do_renew(e, job, J, i, o, bad):
    x, S = J.conn[o["c"]], e.S
    by = o["by"]
    if S.SSL_renegotiate(x.ssl[by]) != 1:
        return bad("no new handshake")
    old = x.obs.master, x.obs.block
    p = dict(c="s", s="c")
    for turn in range(12):
        quiet = True
        for d in (by, p[by]):
            e.C.ERR_clear_error()
            r = S.SSL_do_handshake(x.ssl[d]) if turn == 0 and d == by else S.SSL_read(x.ssl[d], e.tmp, 100)
            if r <= 0 and S.SSL_get_error(x.ssl[d], r) != 2:
                return bad("the new handshake failed: %d" % S.SSL_get_error(x.ssl[d], r), side=d)
            out = drain(e, x.w[d])
            if out:
                quiet = False
                for rec in records(out)[0]:
                    x.obs.feed(d, rec)
                e.L.BIO_write(x.r[p[d]], out, len(out))
        if quiet and turn > 1:
            break
    O = x.obs
    if sorted(O.fin) != ["c", "s"] or O.block == old[1] or (O.full and O.master == old[0]):
        return bad("no new keys")
    if any(S.SSL_renegotiate_pending(x.ssl[d]) or not S.SSL_is_init_finished(x.ssl[d]) for d in "cs"):
        return bad("the new handshake did not end")
    e.made += 1
    return masters(e, J, x, bad)


def do_export(e, job, J, i, o, bad):
    x, O = J.conn[o["c"]], J.conn[o["c"]].obs
    lab = b"EXPERIMENTAL label %d" % o["label"]
    ctx = data("ectx", i, o["ctx"]) if o["ctx"] >= 0 else None
    sd = O.cr + O.sr + (b"" if ctx is None else len(ctx).to_bytes(2, "big") + ctx)
    want = O.prf(O.master, lab, sd, o["n"])
    for d in "cs":
        b = buf(o["n"] + 8)
        if e.S.SSL_export_keying_material(x.ssl[d], b, c_size_t(o["n"]), lab, c_size_t(len(lab)), ctx, c_size_t(len(ctx or b"")), int(ctx is not None)) != 1:
            return bad("no keying material", side=d)
        if b.raw != want + bytes(8):
            return bad("keying material is not the function of the master secret", side=d)


def do_save(e, job, J, i, o, bad):
    x = J.conn[o["c"]]
    s = c_void_p(e.S.SSL_get1_session(x.ssl["c"]))
    if not s.value:
        return bad("no session")
    b = buf(64)
    e.S.SSL_SESSION_get_master_key.restype = c_size_t
    n = e.S.SSL_SESSION_get_master_key(s, b, c_size_t(64))
    J.sess.append((s, x.obs.master))
    if b.raw[:n] != x.obs.master:
        return bad("the master secret is not what the wire says")
