"""The provider for demonstrations (cwd /repo): its module form, with a stand-in for libprov's errors."""
import os, atexit, glob, subprocess, tempfile, shutil, ctypes, sys
from ctypes import byref, create_string_buffer as buf, c_int, c_size_t, c_void_p
D = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, D)
import evp
from evp import data, params
T = tempfile.mkdtemp()
atexit.register(shutil.rmtree, T, True)
os.mkdir(T + "/prov")
shutil.copy(D + "/err.h", T + "/prov/err.h")
subprocess.check_call(["gcc", "-w", "-O1", "-fPIC", "-shared", "-Wl,-Bsymbolic", "-I", T, "-I", ".", "-DBUILDING_GOST_PROVIDER", "-DOPENSSL_NO_DYNAMIC_ENGINE",
                       "gost_eng.c"] + sorted(glob.glob("gost_prov*.c")) + [D + "/proverr.c", "_build/libgost_core.a", "-o", T + "/gostprov.so", "-lcrypto", "-lm"])
P = evp.Provider(T + "/gostprov.so")
C = P.C


def mac(name, key, parts, size=0, **kw):
    """None where a parameter is refused"""
    x = C.EVP_MAC_CTX_new(P.mac(name))
    a = params(**kw)
    if C.EVP_MAC_init(x, key, len(key), ctypes.addressof(a) if kw else None) <= 0:
        return None
    for p in parts:
        assert C.EVP_MAC_update(x, p, len(p)) == 1
    o = buf(64); n = c_size_t(64)
    assert C.EVP_MAC_final(x, ctypes.addressof(o), byref(n), 64) == 1
    return o.raw[:n.value]


def expect(what, got, want):
    if got != want:
        print("FAIL", what, "got", got.hex() if isinstance(got, bytes) else got, "want", want.hex() if isinstance(want, bytes) else want)
        sys.exit(1)
