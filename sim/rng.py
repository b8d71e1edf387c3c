"""The randomness seam: numpy's process-wide generator under simulator control.

The bit generator behind np.random.* is replaced by one whose every draw is a
call back into Python, so any function of the legacy interface (random, rand,
uniform, exponential, choice, ...) and any unseeded Generator draws from the
stream the plan prescribes. The code under test is unchanged.
"""
import ctypes
import random
import threading

import numpy as np

_VP = ctypes.c_void_p
_F64 = ctypes.CFUNCTYPE(ctypes.c_uint64, _VP)
_F32 = ctypes.CFUNCTYPE(ctypes.c_uint32, _VP)
_FD = ctypes.CFUNCTYPE(ctypes.c_double, _VP)

TOP = 1.0 - 2.0**-53  # largest number numpy can return


class _bitgen(ctypes.Structure):
    _fields_ = [('state', _VP), ('u64', _F64), ('u32', _F32), ('dbl', _FD), ('raw', _F64)]


class Stream:
    """A stream of numbers in [0, 1), multiples of 2**-53 like numpy's own."""

    def __init__(self, spec):
        self.spec = spec
        self.kind = spec['kind']
        self.r = random.Random(spec.get('seed', 0))
        self.points = [_grid(p) for p in spec.get('points', [])]
        self.values = list(spec.get('values', []))
        self.i = 0
        self.n = 0
        self.extreme = 0

    def double(self):
        self.n += 1
        v = self._double()
        if v < 1e-9 or v > 1 - 1e-9:
            self.extreme += 1
        return v

    def _double(self):
        k = self.kind
        if k == 'uniform':
            return self.r.random()
        if k == 'zero':
            return 0.0
        if k == 'top':
            return TOP
        if k == 'alternate':
            self.i += 1
            return (0.0, TOP)[self.i % 2]
        if k == 'extreme':
            if self.r.random() < self.spec.get('rate', 0.3):
                return self.r.choice((0.0, 2.0**-53, 2.0**-30, 0.5, 1 - 2.0**-30, TOP))
            return self.r.random()
        if k == 'points':  # exactly on, just below and just above decision thresholds
            if self.points and self.r.random() < self.spec.get('rate', 0.6):
                p = self.r.choice(self.points) + self.r.choice((-1, 0, 0, 1)) * 2.0**-53
                return min(max(p, 0.0), TOP)
            return self.r.random()
        if k == 'values':
            if self.i < len(self.values):
                self.i += 1
                return self.values[self.i - 1]
            return 0.5
        raise ValueError(k)

    def reseed(self, seed):
        """What np.random.seed does to this stream."""
        self.r = random.Random(repr(seed)) if seed is not None else random.Random(0)
        self.i = 0

    def uint64(self):
        self.n += 1
        if self.kind in ('zero',):
            return 0
        if self.kind in ('top',):
            return 2**64 - 1
        return self.r.getrandbits(64)


def _grid(p):
    return min(max(np.floor(p * 2.0**53) / 2.0**53, 0.0), TOP)


class _Seam:
    def __init__(self, *seed):
        self._seed = seed
        if seed:  # np.random.seed asks for a generator to copy the state from
            return
        self.local = threading.local()
        self.default = Stream({'kind': 'uniform', 'seed': 0})
        self.lock = threading.Lock()
        self._cb = (
            _F64(lambda s: self.current().uint64()),
            _F32(lambda s: self.current().uint64() >> 32),
            _FD(lambda s: self.current().double()),
            _F64(lambda s: self.current().uint64()),
        )
        self._s = _bitgen(None, *self._cb)
        new = ctypes.pythonapi.PyCapsule_New
        new.restype = ctypes.py_object
        new.argtypes = [_VP, ctypes.c_char_p, _VP]
        self._name = b'BitGenerator'
        self.capsule = new(ctypes.addressof(self._s), self._name, None)

    @property
    def state(self):
        if self._seed:
            return {'bit_generator': 'simulated', 'state': None, 'seed': self._seed[0]}
        c = self.current()
        return {'bit_generator': 'simulated', 'state': (c.r.getstate(), c.i)}

    @state.setter
    def state(self, value):
        if 'seed' in value:
            self.current().reseed(value['seed'])
        elif 'state' in value:
            c = self.current()
            c.r.setstate(value['state'][0])
            c.i = value['state'][1]

    def _legacy_seeding(self, seed):
        self.current().reseed(seed)

    def current(self):
        return getattr(self.local, 'stream', None) or self.default


_seam = None


def install():
    """Put the seam in place (inside a forked child only)."""
    global _seam
    if _seam is None:
        _seam = _Seam()
        np.random.set_bit_generator(_seam)
        real = np.random.default_rng

        def default_rng(seed=None):
            return np.random.Generator(_seam) if seed is None else real(seed)

        np.random.default_rng = default_rng
    return _seam


def use(spec):
    """Select the stream of the calling thread; returns it."""
    s = Stream(spec)
    _seam.local.stream = s
    _seam.default = s
    return s


def use_thread(spec):
    s = Stream(spec)
    _seam.local.stream = s
    return s
