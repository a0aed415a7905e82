"""Control of the simulated heap (heap_shim.c) and of the fresh-array seam (numpy.empty)."""
import ctypes
import os

import numpy as np

_lib = None


def lib():
    global _lib
    if _lib is None and "heap_shim" in os.environ.get("LD_PRELOAD", ""):
        _lib = ctypes.CDLL(os.environ["LD_PRELOAD"].split(":")[0])
        _lib.shim_add_range.argtypes = [ctypes.c_size_t, ctypes.c_size_t]
        _lib.shim_enable.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_uint64, ctypes.c_long, ctypes.c_uint64]
        _lib.shim_fail.argtypes = [ctypes.c_long]
        _lib.shim_stat.restype = ctypes.c_uint64
        _lib.shim_stat.argtypes = [ctypes.c_int]
        _lib.shim_audit.restype = ctypes.c_long
        _lib.shim_live.restype = ctypes.c_long
        _lib.shim_live.argtypes = [ctypes.c_uint64, ctypes.POINTER(ctypes.c_uint64)]
    return _lib


_maps = []


def scan():
    """Registers the code ranges of the compiled modules of the tree under test."""
    L = lib()
    if L is None:
        return
    L.shim_clear_ranges()
    _maps.clear()
    with open("/proc/self/maps") as f:
        for line in f:
            p = line.split()
            if len(p) >= 6 and "/mmcore/" in p[5] and ".so" in p[5] and "x" in p[1]:
                lo, hi = (int(x, 16) for x in p[0].split("-"))
                L.shim_add_range(lo, hi)
                _maps.append((lo, hi, os.path.basename(p[5]).split(".")[0]))


def module_of(address):
    for lo, hi, name in _maps:
        if lo <= address < hi:
            return name
    return "?"


_real_empty, _real_empty_like = np.empty, np.empty_like
_residue = {"on": False, "mode": 0, "rng": None, "n": 0}


def _soil(a):
    if not _residue["on"]:
        return a
    try:
        _residue["n"] += 1
        mode = _residue["mode"]
        if a.dtype.kind == "f" or a.dtype.kind == "c":
            if mode == 0:
                a.fill(0)
            elif mode == 1:
                a.fill(np.nan)
            elif mode == 2:
                a.fill(8.9e303)
            else:
                a[...] = _residue["rng"].uniform(-1000, 1000)
        elif a.dtype.kind in "iu":
            # small valid values: an index read from unwritten memory stays inside small tables
            a.fill({0: 0, 1: 3, 2: 1, 3: 2}[mode])
    except Exception:
        pass
    return a


def _empty(*a, **k):
    return _soil(_real_empty(*a, **k))


def _empty_like(*a, **k):
    return _soil(_real_empty_like(*a, **k))


def patch_empty():
    np.empty, np.empty_like = _empty, _empty_like


def begin(mode, rng, seed, fail_at=0, limit=0):
    """Fresh memory holds what `mode` says: 0 zeros, 1 NaN, 2 huge, 3 pseudo-random."""
    _residue.update(on=True, mode=mode, rng=rng, n=0)
    L = lib()
    if L is not None:
        L.shim_enable(1, mode, seed & 0x7FFFFFFF, fail_at, limit)


def end():
    _residue["on"] = False
    L = lib()
    if L is not None:
        L.shim_disable()


def requests():
    L = lib()
    return int(L.shim_stat(0)) if L is not None else 0


def stats():
    L = lib()
    if L is None:
        return {}
    return {
        "requests": int(L.shim_stat(0)),
        "failed": int(L.shim_stat(1)),
        "bytes": int(L.shim_stat(2)),
        "freed": int(L.shim_stat(3)),
        "double_free": int(L.shim_stat(4)),
        "residue_arrays": _residue["n"],
    }


def fail_next(n):
    L = lib()
    if L is not None:
        L.shim_fail(n)


def audit():
    """(number of damaged blocks, module that asked for the first, its size, double frees)"""
    L = lib()
    if L is None:
        return 0, "?", 0, 0
    site, size = ctypes.c_uint64(0), ctypes.c_uint64(0)
    bad = L.shim_audit(ctypes.byref(site), ctypes.byref(size))
    return int(bad), module_of(site.value), int(size.value), int(L.shim_stat(4))


def live(serial):
    L = lib()
    if L is None:
        return 0, 0
    b = ctypes.c_uint64(0)
    n = L.shim_live(serial, ctypes.byref(b))
    return int(n), int(b.value)
