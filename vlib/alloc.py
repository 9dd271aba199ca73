"""Bytes allocated by the interpreter during a call: a logical measure of
copying inside C calls (list and string concatenation, slicing), which step
counts do not see."""
import ctypes
import os
import subprocess
import tempfile

_lib = None


def load():
    """Compiles alloc.c with the C compiler; None if there is none."""
    global _lib
    if _lib is None:
        src = os.path.join(os.path.dirname(os.path.abspath(__file__)),
                           "alloc.c")
        with tempfile.TemporaryDirectory(prefix="verif-alloc-") as d:
            so = os.path.join(d, "alloc.so")
            for cc in ("gcc", "cc", "clang"):
                try:
                    ok = subprocess.run(
                        [cc, "-O1", "-shared", "-fPIC", "-o", so, src],
                        stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL
                    ).returncode == 0
                except OSError:
                    continue
                if ok:
                    _lib = ctypes.PyDLL(so)
                    _lib.alloc_start.restype = None
                    _lib.alloc_stop.restype = ctypes.c_ulonglong
                    return _lib
        _lib = False
    return _lib or None


def allocated(fn):
    """(result of fn(), bytes allocated meanwhile), or (…, None)."""
    lib = load()
    if lib is None:
        return fn(), None
    lib.alloc_start()
    try:
        v = fn()
    finally:
        n = lib.alloc_stop()
    return v, n
