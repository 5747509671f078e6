"""The seams: every source of nondeterminism and every fault the simulator decides.

* memory: numpy.empty poisons structured arrays it hands out (what the code reads before it
  wrote it is never accidentally right) and fails on demand (MemoryError); numpy's memory handler
  poisons and fails every other block numpy hands out, also to C++ code;
* randomness: numpy's global generator is seeded per case;
* files: h5py.File as the code under test calls it (see disk.py);
* time: the code reads no clock; ctrl.time / ctrl.timeloop_count are set by the simulator.

They are installed before the code under test is imported, and do nothing until armed.
"""
import ctypes
import os
import numpy as np

_real_empty = np.empty
_alloc = {'countdown': None, 'fired': 0, 'active': False, 'plain': False}


def _poison(r):
    for n in r.dtype.names:
        f = r[n]
        if f.dtype.kind == 'f':
            f[...] = np.nan
        elif f.dtype.kind in 'iu':
            f[...] = 0x5A5A5A5A if f.dtype.itemsize >= 4 else 0x5A


def _sim_empty(shape, dtype=float, *a, **k):
    structured = isinstance(dtype, dict) or (isinstance(dtype, np.dtype) and dtype.names is not None)
    if (structured or _alloc['plain']) and _alloc['active'] and _alloc['countdown'] is not None:
        _alloc['countdown'] -= 1
        if _alloc['countdown'] < 0:
            _alloc['countdown'] = None
            _alloc['fired'] += 1
            raise MemoryError('simulated allocation failure')
    r = _real_empty(shape, dtype, *a, **k)
    if structured:
        _poison(r)
    return r


def install():
    np.empty = _sim_empty


class alloc_fault:
    """with alloc_fault(k): the k-th allocation of structured storage (plain: of any array) from here on fails."""
    def __init__(self, k, plain=False):
        self.k, self.plain = k, plain

    def __enter__(self):
        _alloc.update(countdown=self.k, active=True, fired=0, plain=self.plain)
        return self

    def __exit__(self, *a):
        self.fired = _alloc['fired']
        _alloc.update(countdown=None, active=False, plain=False)
        return False


def seed(n):
    np.random.seed(n & 0xffffffff)


class fixed_normal:
    """with fixed_normal(r): every normal deviate drawn is mean + r*sigma, whatever the order of the draws."""
    def __init__(self, r):
        self.r = r
        self.draws = 0

    def __enter__(self):
        self.old = {n: getattr(np.random, n) for n in ('normal', 'standard_normal', 'randn')}

        def full(v, size):
            self.draws += 1
            return float(v) if size is None else np.full(size, float(v))
        np.random.normal = lambda loc=0.0, scale=1.0, size=None: full(loc + self.r * scale, size)
        np.random.standard_normal = lambda size=None: full(self.r, size)
        np.random.randn = lambda *size: full(self.r, size or None)
        return self

    def __exit__(self, *a):
        for n, v in self.old.items():
            setattr(np.random, n, v)
        return False


class _Handler(ctypes.Structure):
    _fields_ = [('name', ctypes.c_char * 127), ('version', ctypes.c_uint8)] + [
        (n, ctypes.c_void_p) for n in ('ctx', 'malloc', 'calloc', 'realloc', 'free')]


_hook = None
_keep = []


def install_native(lib):
    """numpy's memory handler (NEP 49): the blocks native and Python code get from numpy (memhook.c).

    realloc and free stay numpy's own, so blocks given out before this are handled alike."""
    global _hook
    py = ctypes.pythonapi
    get = ctypes.PYFUNCTYPE(ctypes.c_void_p, ctypes.py_object, ctypes.c_char_p)(('PyCapsule_GetPointer', py))
    new = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p)(('PyCapsule_New', py))
    api = ctypes.cast(get(np.core._multiarray_umath._ARRAY_API, None), ctypes.POINTER(ctypes.c_void_p))
    setter = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)(api[304])       # PyDataMem_SetHandler
    getter = ctypes.PYFUNCTYPE(ctypes.py_object)(api[305])                         # PyDataMem_GetHandler
    old = getter()
    h = _Handler.from_address(get(old, b'mem_handler'))
    so = ctypes.CDLL(os.path.join(lib, 'libdtsim_mem.so'))
    so.dtsim_set(ctypes.c_void_p(h.malloc), ctypes.c_void_p(h.calloc))
    so.dtsim_arm.argtypes = [ctypes.c_long, ctypes.c_size_t]
    at = lambda f: ctypes.cast(f, ctypes.c_void_p).value
    mine = _Handler(b'dtsim', 1, h.ctx, at(so.dtsim_malloc), at(so.dtsim_calloc), h.realloc, h.free)
    name = ctypes.create_string_buffer(b'mem_handler')
    cap = new(ctypes.addressof(mine), ctypes.cast(name, ctypes.c_char_p), None)
    setter(cap)
    _keep.extend([old, cap, mine, name, so])
    _hook = so


class native_alloc_fault:
    """with native_alloc_fault(k, size): the k-th numpy block of `size` bytes from here on (C++ code included) is refused."""
    def __init__(self, k, size):
        self.k, self.size = k, size

    def __enter__(self):
        _hook.dtsim_arm(self.k, self.size)
        return self

    def __exit__(self, *a):
        self.fired = _hook.dtsim_fired()
        _hook.dtsim_arm(-1, 0)
        return False
