"""OpenSSL libcrypto + the freshly built GOST engine through ctypes."""
import ctypes, ctypes.util, hashlib, os
from ctypes import c_int, c_long, c_size_t, c_char_p, c_void_p, c_uint, byref, create_string_buffer as buf

T = {"i": c_int, "l": c_long, "z": c_size_t, "p": c_void_p, "s": c_char_p, "v": None, "u": c_uint}
SIG = """
ENGINE_load_dynamic:v:|OPENSSL_init_crypto:i:lp|ENGINE_by_id:p:s|ENGINE_ctrl_cmd_string:i:pssi|ENGINE_init:i:p
ENGINE_ctrl_cmd:i:pslspi|ENGINE_set_default:i:pu|ENGINE_free:i:p|ENGINE_finish:i:p|ENGINE_get_cipher:p:pi
ENGINE_get_digest:p:pi|ENGINE_get_pkey_meth:p:pi|ENGINE_ctrl:i:pilpp|ENGINE_add:i:p|ENGINE_remove:i:p|ENGINE_get_id:s:p
ENGINE_get_pkey_asn1_meth:p:pi|ENGINE_get_ciphers:p:p|ENGINE_get_digests:p:p|ENGINE_get_first:p:|ENGINE_get_next:p:p
EVP_get_cipherbyname:p:s|EVP_get_digestbyname:p:s|OBJ_txt2nid:i:s|OBJ_nid2sn:s:i|OBJ_sn2nid:i:s|OBJ_nid2obj:p:i|OBJ_obj2nid:i:p
EVP_CIPHER_CTX_new:p:|EVP_CIPHER_CTX_free:v:p|EVP_CIPHER_CTX_reset:i:p|EVP_CipherInit_ex:i:pppssi
EVP_CipherUpdate:i:pppsi|EVP_CipherFinal_ex:i:ppp|EVP_CIPHER_CTX_copy:i:pp|EVP_CIPHER_CTX_set_padding:i:pi
EVP_CIPHER_CTX_ctrl:i:piip|EVP_Cipher:i:ppsu|EVP_CIPHER_CTX_get_block_size:i:p|EVP_CIPHER_CTX_get_iv_length:i:p
EVP_CIPHER_get_iv_length:i:p|EVP_CIPHER_get_key_length:i:p|EVP_CIPHER_get_block_size:i:p|EVP_CIPHER_get_flags:l:p
EVP_CIPHER_get_nid:i:p|EVP_CIPHER_fetch:p:pss|EVP_CIPHER_free:v:p|EVP_CIPHER_CTX_set_params:i:pp|EVP_CIPHER_CTX_get_params:i:pp
EVP_CIPHER_param_to_asn1:i:pp|EVP_CIPHER_asn1_to_param:i:pp|EVP_CIPHER_CTX_get_app_data:p:p
EVP_MD_CTX_get_pkey_ctx:p:p|EVP_MD_CTX_new:p:|EVP_MD_CTX_free:v:p|EVP_MD_CTX_reset:i:p|EVP_DigestInit_ex:i:ppp|EVP_DigestUpdate:i:psz
EVP_DigestFinal_ex:i:ppp|EVP_MD_CTX_copy_ex:i:pp|EVP_MD_get_size:i:p|EVP_MD_get_block_size:i:p|EVP_MD_CTX_ctrl:i:piip
EVP_DigestSignInit:i:ppppp|EVP_DigestSignFinal:i:ppp|EVP_DigestFinalXOF:i:ppz|EVP_DigestVerifyInit:i:ppppp
EVP_DigestSign:i:pppsz|EVP_DigestVerify:i:pszsz|EVP_DigestVerifyFinal:i:psz|EVP_MD_CTX_set_flags:v:pi
EVP_MD_fetch:p:pss|EVP_MD_free:v:p|EVP_MD_CTX_set_params:i:pp|EVP_MD_CTX_get_size_ex:i:p
EVP_MAC_fetch:p:pss|EVP_MAC_free:v:p|EVP_MAC_CTX_new:p:p|EVP_MAC_CTX_free:v:p|EVP_MAC_init:i:pszp|EVP_MAC_update:i:psz
EVP_MAC_final:i:pppz|EVP_MAC_finalXOF:i:ppz|EVP_MAC_CTX_dup:p:p|EVP_MAC_CTX_set_params:i:pp|EVP_MAC_CTX_get_params:i:pp|EVP_MAC_CTX_get_mac_size:z:p
EVP_PKEY_new:p:|EVP_PKEY_free:v:p|EVP_PKEY_new_mac_key:p:ipsi|EVP_PKEY_CTX_new:p:pp|EVP_PKEY_CTX_new_id:p:ip|EVP_PKEY_CTX_free:v:p
EVP_PKEY_keygen_init:i:p|EVP_PKEY_keygen:i:pp|EVP_PKEY_paramgen_init:i:p|EVP_PKEY_paramgen:i:pp|EVP_PKEY_CTX_ctrl:i:piiiip
EVP_PKEY_CTX_ctrl_str:i:pss|EVP_PKEY_sign_init:i:p|EVP_PKEY_sign:i:pppsz|EVP_PKEY_verify_init:i:p|EVP_PKEY_verify:i:pszsz
EVP_PKEY_derive_init:i:p|EVP_PKEY_derive_set_peer:i:pp|EVP_PKEY_derive:i:ppp|EVP_PKEY_encrypt_init:i:p|EVP_PKEY_encrypt:i:pppsz
EVP_PKEY_decrypt_init:i:p|EVP_PKEY_decrypt:i:pppsz|EVP_PKEY_CTX_dup:p:p|EVP_PKEY_set_type:i:pi|EVP_PKEY_assign:i:pip
EVP_PKEY_get0:p:p|EVP_PKEY_eq:i:pp|EVP_PKEY_get_id:i:p|EVP_PKEY_get_base_id:i:p|EVP_PKEY_get_size:i:p|EVP_PKEY_get_bits:i:p|EVP_PKEY_get_security_bits:i:p
EVP_PKEY_parameters_eq:i:pp|EVP_PKEY_copy_parameters:i:pp|EVP_PKEY_missing_parameters:i:p|EVP_PKEY_get_default_digest_nid:i:pp
EVP_PKEY_print_private:i:ppip|EVP_PKEY_print_public:i:ppip|EVP_PKEY_print_params:i:ppip
i2d_PUBKEY:i:pp|d2i_PUBKEY:p:ppl|i2d_PrivateKey:i:pp|d2i_AutoPrivateKey:p:ppl|EVP_PKEY2PKCS8:p:p|EVP_PKCS82PKEY:p:p
i2d_PKCS8_PRIV_KEY_INFO:i:pp|d2i_PKCS8_PRIV_KEY_INFO:p:ppl|PKCS8_PRIV_KEY_INFO_free:v:p|i2d_KeyParams:i:pp|d2i_KeyParams:p:ippl
EC_KEY_new:p:|EC_KEY_free:v:p|EC_KEY_get0_group:p:p|EC_KEY_get0_private_key:p:p|EC_KEY_get0_public_key:p:p|EC_KEY_set_private_key:i:pp
EC_KEY_set_public_key:i:pp|EC_KEY_set_group:i:pp|EC_KEY_dup:p:p
EC_GROUP_get_curve_name:i:p|EC_GROUP_get_curve:i:ppppp|EC_GROUP_get0_order:p:p|EC_GROUP_get0_generator:p:p|EC_GROUP_cmp:i:ppp|EC_GROUP_get0_cofactor:p:p
EC_GROUP_dup:p:p|EC_GROUP_free:v:p|EC_GROUP_get_degree:i:p
EC_POINT_new:p:p|EC_POINT_free:v:p|EC_POINT_get_affine_coordinates:i:ppppp|EC_POINT_set_affine_coordinates:i:ppppp|EC_POINT_is_at_infinity:i:pp|EC_POINT_set_to_infinity:i:pp
EC_POINT_mul:i:pppppp|EC_POINT_cmp:i:pppp|EC_POINT_is_on_curve:i:ppp
BN_new:p:|BN_free:v:p|BN_bin2bn:p:sip|BN_bn2bin:i:pp|BN_num_bits:i:p|BN_CTX_new:p:|BN_CTX_free:v:p|BN_bn2binpad:i:ppi|BN_set_negative:v:pi
ERR_clear_error:v:|ERR_get_error:l:|ERR_peek_last_error:l:|ERR_error_string_n:v:lpz|ERR_reason_error_string:s:l|ERR_print_errors_fp:v:p
ASN1_TYPE_new:p:|ASN1_TYPE_free:v:p|i2d_ASN1_TYPE:i:pp|d2i_ASN1_TYPE:p:ppl|CRYPTO_free:v:psi|CRYPTO_malloc:p:zsi|OBJ_txt2obj:p:si|ASN1_OBJECT_free:v:p
RAND_set_rand_method:i:p|RAND_get_rand_method:p:|RAND_bytes:i:pi|RAND_OpenSSL:p:
ERR_load_crypto_strings:v:|EVP_cleanup:v:|OPENSSL_sk_new_null:p:|OPENSSL_sk_num:i:p|OPENSSL_sk_push:i:pp|OPENSSL_sk_free:v:p|OPENSSL_sk_value:p:pi
OSSL_PROVIDER_load:p:ps|EVP_CipherInit_ex2:i:ppssip|EVP_MAC_is_a:i:ps|EVP_CIPHER_is_a:i:ps|EVP_MD_is_a:i:ps|OSSL_PROVIDER_unload:i:p|OSSL_PROVIDER_add_builtin:i:psp|OSSL_LIB_CTX_new:p:|OSSL_LIB_CTX_free:v:p|OSSL_PROVIDER_set_default_search_path:i:ps
BIO_new:p:p|BIO_s_mem:p:|BIO_free:i:p|BIO_ctrl:l:pilp|BIO_read:i:ppi
PEM_write_bio_PrivateKey:i:pppsipp|PEM_read_bio_PrivateKey:p:pppp|PEM_write_bio_PUBKEY:i:pp|PEM_read_bio_PUBKEY:p:pppp|OBJ_nid2ln:s:i|BIO_write:i:psi
EVP_PKEY_check:i:p|EVP_PKEY_public_check:i:p|X509_PUBKEY_get0:p:p|ENGINE_get_static_state:p:|ENGINE_up_ref:i:p|ENGINE_ctrl_cmd_string:i:pssi
EVP_CIPHER_CTX_get_updated_iv:i:ppz|EVP_KDF_fetch:p:pss|ENGINE_get_init_function:p:p|ENGINE_get_default_digest:p:|ENGINE_get_digest_engine:p:i|ENGINE_get_cipher_engine:p:i
X509at_add1_attr_by_OBJ:p:ppipi|X509at_get0_data_by_OBJ:p:ppii|X509_ATTRIBUTE_free:v:p
"""


class Crypto:
    def __init__(self):
        self.L = ctypes.CDLL("libcrypto.so.3", mode=ctypes.RTLD_GLOBAL)
        for ent in SIG.replace("\n", "|").split("|"):
            ent = ent.strip()
            if not ent:
                continue
            n, r, a = ent.split(":")
            try:
                f = getattr(self.L, n)
            except AttributeError:
                continue
            f.restype = T[r]
            f.argtypes = [T[c] for c in a]
            setattr(self, n, f)

    def free(self, p):
        self.CRYPTO_free(p, b"", 0)

    def errs(self):
        out = []
        while True:
            e = self.ERR_get_error()
            if not e:
                return out
            b = buf(256)
            self.ERR_error_string_n(e & 0xffffffff, b, 256)
            out.append(b.value.decode("latin1"))


_C = None


def crypto():
    global _C
    if _C is None:
        _C = Crypto()
    return _C


class Engine:
    """The engine loaded through OpenSSL's dynamic engine, exactly as an application would."""
    def __init__(self, so, default=True):
        C = self.C = crypto()
        C.ENGINE_load_dynamic() if hasattr(C, "ENGINE_load_dynamic") else C.OPENSSL_init_crypto(0x400, None)
        C.OPENSSL_init_crypto(0x400, None)
        d = C.ENGINE_by_id(b"dynamic")
        assert d, "no dynamic engine"
        assert C.ENGINE_ctrl_cmd_string(d, b"SO_PATH", so.encode(), 0)
        assert C.ENGINE_ctrl_cmd_string(d, b"ID", b"gost", 0)
        assert C.ENGINE_ctrl_cmd_string(d, b"LIST_ADD", b"1", 0)
        assert C.ENGINE_ctrl_cmd_string(d, b"LOAD", None, 0), C.errs()
        self.e = d
        assert C.ENGINE_init(self.e)
        if default:
            assert C.ENGINE_set_default(self.e, 0xFFFF)
        self.so = ctypes.CDLL(so)      # the same image: internal functions by name

    def ctrl(self, cmd, val):
        return self.C.ENGINE_ctrl_cmd_string(self.e, cmd.encode(), val.encode(), 0)

    def cipher(self, name):
        nid = self.C.OBJ_sn2nid(name.encode()) or self.C.OBJ_txt2nid(name.encode())
        return self.C.ENGINE_get_cipher(self.e, nid)

    def digest(self, name):
        nid = self.C.OBJ_sn2nid(name.encode()) or self.C.OBJ_txt2nid(name.encode())
        return self.C.ENGINE_get_digest(self.e, nid)

    def mesh(self, ctx, v):
        return self.C.EVP_CIPHER_CTX_ctrl(ctx, 0x20, v, None)

    def fn(self, name, ret="i", args=""):
        f = getattr(self.so, name)
        f.restype = T[ret]
        f.argtypes = [T[c] for c in args]
        return f


class OSSL_PARAM(ctypes.Structure):
    _fields_ = [("key", c_char_p), ("type", c_uint), ("data", c_void_p), ("size", c_size_t), ("ret", c_size_t)]


def params(**kw):
    """An OSSL_PARAM array: int -> size_t, bytes -> octet string; keeps its own storage alive."""
    a = (OSSL_PARAM * (len(kw) + 1))()
    a.keep = []
    for x, (k, v) in zip(a, kw.items()):
        if isinstance(v, bytes):
            b = buf(v, max(1, len(v))); x.type, x.size = 5, len(v)
        else:
            b = c_size_t(v); x.type, x.size = 2, 8
        a.keep.append(b)
        x.key, x.data, x.ret = k.replace("_", "-").encode(), ctypes.addressof(b), c_size_t(-1).value
    return a


class Provider:
    """The provider, loaded as a module; the same questions as Engine answers."""
    def __init__(self, so):
        C = self.C = crypto()
        d = os.path.dirname(so)
        assert C.OSSL_PROVIDER_set_default_search_path(None, d.encode())
        self.default = C.OSSL_PROVIDER_load(None, b"default")
        self.p = C.OSSL_PROVIDER_load(None, b"gostprov")
        assert self.p, C.errs()
        self.e, self.so = None, ctypes.CDLL(so)

    def cipher(self, name):
        return self.C.EVP_CIPHER_fetch(None, name.encode(), None)

    def digest(self, name):
        return self.C.EVP_MD_fetch(None, name.encode(), None)

    def mac(self, name):
        return self.C.EVP_MAC_fetch(None, name.encode(), None)

    def mesh(self, ctx, v):
        a = params(key_mesh=v) if v >= 0 else None
        return self.C.EVP_CIPHER_CTX_set_params(ctx, ctypes.addressof(a)) if a else 0


def load(paths):
    """The implementation under test, by either of its interfaces."""
    return Provider(paths["prov"]) if "prov" in paths else Engine(paths["engine"])


def data(*label_n):
    """Deterministic pseudo-random bytes: data(label..., n)."""
    *lab, n = label_n
    return hashlib.shake_128(("|".join(map(str, lab))).encode()).digest(n)
