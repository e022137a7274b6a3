"""A bit generator whose every word the simulator chooses.

NumPy's Generator draws through four C function pointers; here they are callbacks into the simulator.  Words come
from the plan's script first and from a seeded generator afterwards."""

import ctypes
import random

from . import locks  # noqa: F401

M64 = (1 << 64) - 1


class _BitGen(ctypes.Structure):
    _fields_ = [("state", ctypes.c_void_p), ("next_uint64", ctypes.c_void_p), ("next_uint32", ctypes.c_void_p),
                ("next_double", ctypes.c_void_p), ("next_raw", ctypes.c_void_p)]


class ScriptedBits:
    """script: 64-bit words; every `gap`-th word afterwards is extreme again (0: never)."""

    def __init__(self, script, seed, extreme=0.0, pool=(0, M64)):
        import threading

        self.lock = threading.Lock()
        self.script, self.pos, self.rng = list(script), 0, random.Random(seed)
        self.extreme, self.pool = extreme, list(pool)
        self.words = self.extremes = 0
        self.half = None
        u64 = ctypes.CFUNCTYPE(ctypes.c_uint64, ctypes.c_void_p)
        u32 = ctypes.CFUNCTYPE(ctypes.c_uint32, ctypes.c_void_p)
        f64 = ctypes.CFUNCTYPE(ctypes.c_double, ctypes.c_void_p)
        self._f = (u64(lambda s: self.word()), u32(lambda s: self.word() >> 32),
                   f64(lambda s: (self.word() >> 11) * 2.0**-53), u64(lambda s: self.word()))
        self._s = _BitGen(None, *[ctypes.cast(f, ctypes.c_void_p) for f in self._f])
        new = ctypes.pythonapi.PyCapsule_New
        new.restype, new.argtypes = ctypes.py_object, [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
        self.capsule = new(ctypes.addressof(self._s), b"BitGenerator", None)

    def word(self):
        self.words += 1
        if self.pos < len(self.script):
            w = self.script[self.pos]
            self.pos += 1
            self.extremes += 1
            return w
        if self.extreme and self.rng.random() < self.extreme:
            self.extremes += 1
            return self.rng.choice(self.pool)
        return self.rng.getrandbits(64)


def generator(script, seed, extreme=0.0, pool=(0, M64)):
    import numpy as np

    bits = ScriptedBits(script, seed, extreme, pool)
    return np.random.Generator(bits), bits


def words_near(x):
    """Words whose double is just below, at and just above the real x in [0, 1]."""
    k = int(x * 2**53)
    return [max(0, min(2**53 - 1, k + d)) << 11 for d in (-1, 0, 1)]
