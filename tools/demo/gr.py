"""The reference primitives of ref.c, compiled into a scratch directory."""
import os, tempfile, subprocess, shutil
import ref
_d = os.path.dirname(os.path.abspath(__file__))
_t = tempfile.mkdtemp()
try:
    subprocess.check_call(["gcc", "-O2", "-shared", "-fPIC", "-o", _t + "/ref.so", _d + "/ref.c"])
    R = ref.Ref(_t + "/ref.so")
finally:
    shutil.rmtree(_t)
