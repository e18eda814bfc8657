"""Loads the freshly built extension, and drives its verification hook."""
import ctypes
import os
import sys

import numpy as np

from lib import build

humanleague = None
_ext = None
DIR = None


def load(variant="std"):
    global humanleague, _ext, DIR
    DIR = build.python_ext(variant)
    sys.path.insert(0, DIR)
    import humanleague as h
    import _humanleague as e
    assert os.path.realpath(h.__file__).startswith(os.path.realpath(DIR)), h.__file__
    assert os.path.realpath(e.__file__).startswith(os.path.realpath(DIR)), e.__file__
    humanleague, _ext = h, e
    return h


def hooked():
    try:
        ctypes.c_void_p.in_dll(ctypes.CDLL(_ext.__file__), "hl_verify_next")
        return True
    except (ValueError, AttributeError):
        return False


class Stream:
    """Supplies the quasirandom points: the environment's choices. Usage: with Stream(points): hl.qis(...)"""
    _lib = None
    _ptr = None
    _addr = None

    @classmethod
    def _init(cls):
        cls._lib = ctypes.CDLL(os.path.join(DIR, "hlshim.so"))
        cls._lib.hlshim_set.argtypes = [ctypes.c_void_p, ctypes.c_uint64, ctypes.c_int]
        cls._lib.hlshim_calls.restype = ctypes.c_uint64
        cls._lib.hlshim_pos.restype = ctypes.c_uint64
        cls._ptr = ctypes.c_void_p.in_dll(ctypes.CDLL(_ext.__file__), "hl_verify_next")
        cls._addr = ctypes.cast(cls._lib.hlshim_next, ctypes.c_void_p).value

    def __init__(self, points=None):
        """points: flat sequence of uint32; after the last one the sequence is exhausted. None: observe only."""
        if self._lib is None:
            self._init()
        self.buf = np.ascontiguousarray(points if points is not None else [], dtype=np.uint32).ravel()
        self.mode = 0 if points is None else 1

    def __enter__(self):
        self._lib.hlshim_set(self.buf.ctypes.data, self.buf.size, self.mode)
        self._ptr.value = self._addr
        return self

    def __exit__(self, *a):
        self.calls = self._lib.hlshim_calls()
        self.used = self._lib.hlshim_pos()
        self.dim = self._lib.hlshim_dim()
        self._ptr.value = None
        self._lib.hlshim_set(None, 0, 0)
        return False


def attempt(fn, *a, **k):
    """('ok', value) or ('raised', exception)"""
    try:
        return "ok", fn(*a, **k)
    except Exception as e:  # noqa: BLE001 - every Python exception is an orderly refusal
        return "raised", e
