"""The memory of numpy arrays behind a seam: a numpy data allocator that
fills what it hands out with chosen bytes, or fails at a chosen request.

numpy lets extensions replace the allocator of array data
(PyDataMem_SetHandler). The replacement is a few lines of C, compiled when
first wanted; where there is no compiler these faults are left out."""
import contextlib
import ctypes
import os
import shutil
import subprocess
import tempfile

SOURCE = r'''
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
long count = 0, fail_at = 0, fired = 0, pattern = -1;
static int refuse(void) {
    count++;
    if (fail_at && count == fail_at) { fired = 1; return 1; }
    return 0;
}
static void *sim_malloc(void *ctx, size_t size) {
    void *p;
    if (refuse()) return 0;
    p = malloc(size ? size : 1);
    if (p && pattern >= 0) memset(p, (int) pattern, size);
    return p;
}
static void *sim_calloc(void *ctx, size_t n, size_t size) {
    if (refuse()) return 0;
    return calloc(n ? n : 1, size ? size : 1);
}
static void *sim_realloc(void *ctx, void *p, size_t size) {
    if (refuse()) return 0;
    return realloc(p, size ? size : 1);
}
static void sim_free(void *ctx, void *p, size_t size) { free(p); }
struct handler {
    char name[127];
    uint8_t version;
    struct {
        void *ctx;
        void *(*malloc)(void *, size_t);
        void *(*calloc)(void *, size_t, size_t);
        void *(*realloc)(void *, void *, size_t);
        void (*free)(void *, void *, size_t);
    } allocator;
};
struct handler simulated = {"simulated", 1,
    {0, sim_malloc, sim_calloc, sim_realloc, sim_free}};
'''
_kept = {}


def prepare():
    """Build the allocator. Done once, before any fork."""
    if 'ok' in _kept:
        return _kept['ok']
    _kept['ok'] = False
    cc = shutil.which('gcc') or shutil.which('cc') or shutil.which('clang')
    if cc is None:
        return False
    tmp = tempfile.mkdtemp(prefix='simmem')
    try:
        src, lib = os.path.join(tmp, 'm.c'), os.path.join(tmp, 'm.so')
        with open(src, 'w') as f:
            f.write(SOURCE)
        subprocess.check_call([cc, '-O1', '-shared', '-fPIC', '-o', lib, src],
                              stdout=subprocess.DEVNULL,
                              stderr=subprocess.DEVNULL)
        dll = ctypes.CDLL(lib)
        import numpy as np
        cap = np.core._multiarray_umath._ARRAY_API
        get = ctypes.pythonapi.PyCapsule_GetPointer
        get.restype = ctypes.c_void_p
        get.argtypes = [ctypes.py_object, ctypes.c_char_p]
        table = ctypes.cast(get(cap, None), ctypes.POINTER(ctypes.c_void_p))
        _kept['set'] = ctypes.PYFUNCTYPE(
            ctypes.py_object, ctypes.py_object)(table[304])
        new = ctypes.pythonapi.PyCapsule_New
        new.restype = ctypes.py_object
        new.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
        _kept['name'] = b'mem_handler'
        _kept['capsule'] = new(ctypes.addressof(
            ctypes.c_char.in_dll(dll, 'simulated')), _kept['name'], None)
        _kept['dll'] = dll
        for k in ('count', 'fail_at', 'fired', 'pattern'):
            _kept[k] = ctypes.c_long.in_dll(dll, k)
        _kept['ok'] = True
    except (OSError, subprocess.SubprocessError, AttributeError):
        pass
    finally:
        for n in os.listdir(tmp):
            os.unlink(os.path.join(tmp, n))
        os.rmdir(tmp)
    return _kept['ok']


class Seen(object):
    """What happened in the simulated memory."""
    count = 0
    fired = False


@contextlib.contextmanager
def simulated(pattern=None, fail_at=None):
    """numpy arrays made in this thread meanwhile use the simulated memory.
    pattern fills uninitialised memory; request number fail_at fails."""
    seen = Seen()
    if not prepare():
        yield seen
        return
    _kept['pattern'].value = -1 if pattern is None else int(pattern)
    _kept['fail_at'].value = int(fail_at or 0)
    _kept['count'].value = _kept['fired'].value = 0
    old = _kept['set'](_kept['capsule'])
    try:
        yield seen
    finally:
        _kept['set'](old)
        seen.count = _kept['count'].value
        seen.fired = bool(_kept['fired'].value)
        _kept['fail_at'].value = 0
        _kept['pattern'].value = -1
