"""Failing numpy data allocations: the n-th one of an operation returns NULL, as on a full machine."""
import ctypes
import hashlib
import os
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(VERIF, 'sim', 'nomem.c')
N = 16

_set = None
_caps = []
_slots = []


def library():
    """path of the compiled allocator, built if need be"""
    h = hashlib.sha256(open(SRC, 'rb').read()).hexdigest()[:12]
    path = os.path.join(VERIF, 'build', 'nomem-%s.so' % h)
    if not os.path.exists(path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        tmp = '%s.%d' % (path, os.getpid())
        subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', tmp, SRC], check=True)
        os.replace(tmp, path)
    return path


class Slot(ctypes.Structure):
    _fields_ = [('count', ctypes.c_long), ('fail_at', ctypes.c_long), ('fired', ctypes.c_long), ('len', ctypes.c_long)]


def setup():
    global _set
    if _set is not None:
        return
    lib = ctypes.CDLL(library())
    lib.sim_handler.restype = ctypes.c_void_p
    lib.sim_slot.restype = ctypes.POINTER(Slot)
    py = ctypes.pythonapi
    py.PyCapsule_New.restype = ctypes.py_object
    py.PyCapsule_New.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p]
    py.PyCapsule_GetPointer.restype = ctypes.c_void_p
    py.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
    name = ctypes.create_string_buffer(b'mem_handler')
    _caps.append(name)
    for i in range(N):
        cap = py.PyCapsule_New(lib.sim_handler(i), ctypes.addressof(name), None)
        # never freed, since arrays may outlive everything else
        ctypes.pythonapi.Py_IncRef(ctypes.py_object(cap))
        _caps.append(cap)
        _slots.append(lib.sim_slot(i).contents)
    import numpy._core._multiarray_umath as mu
    table = ctypes.cast(py.PyCapsule_GetPointer(mu._ARRAY_API, None), ctypes.POINTER(ctypes.c_void_p))
    _set = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)(table[304])


class Failing:
    """in this thread, allocation number `at` and the following length-1 ones fail"""

    def __init__(self, slot, at, length=1):
        self.slot = slot
        self.at = at
        self.length = length
        self.fired = 0
        self.seen = 0

    def __enter__(self):
        s = _slots[self.slot]
        s.count = 0
        s.fired = 0
        s.len = self.length
        s.fail_at = self.at
        self.old = _set(_caps[1 + self.slot])
        return self

    def __exit__(self, *a):
        s = _slots[self.slot]
        s.fail_at = -1
        _set(self.old)
        self.fired = s.fired
        self.seen = s.count
