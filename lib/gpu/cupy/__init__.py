"""A stand-in for cupy, to execute the GPU code without a GPU.

Arrays live in numpy, but behind a class that keeps cupy's separation of host and device: no implicit conversion to numpy, no mixing of host and
device arrays in an operation.  Raw kernels are compiled from their CUDA source by g++ and executed thread by thread, in an order that depends on
`ORDER`; every access of a kernel to an array is checked (inside of the array?  written by another thread?), uninitialised memory and what lies
beyond an array is NaN (or far away).  What the launches did is collected in LAUNCHES."""
import ctypes, hashlib, os, re, subprocess, sys, tempfile
import numpy as _np
from numpy.lib.mixins import NDArrayOperatorsMixin as _Mixin

LAUNCHES = []
ORDER = [0]
DEVICES = [1]       # per process: number of devices visible
FREE = [16 << 30]
BUS = {}

float64 = _np.float64; float32 = _np.float32; int32 = _np.int32; int64 = _np.int64
pi = _np.pi; inf = _np.inf; nan = _np.nan; newaxis = None


class ndarray(_Mixin):
    __slots__ = ('_a', 'flags_')

    def __init__(self, a):
        self._a = a

    # ---- host and device
    def get(self, *a, **k):
        # a copy in host memory
        return self._a.copy(order='C')

    def set(self, a):
        self._a[...] = a

    def __array__(self, *a, **k):
        raise TypeError('Implicit conversion to a NumPy array is not allowed. Please use `.get()` to construct a NumPy array explicitly.')

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        out = kw.pop('out', None)
        for x in inputs + (out or ()):
            if isinstance(x, _np.ndarray) and x.ndim > 0:
                raise TypeError(f'Unsupported type {type(x)}')
        r = getattr(ufunc, method)(*[_in(x) for x in inputs], **{k: _in(v) for k, v in kw.items()}, **({'out': tuple(_in(o) for o in out)} if out else {}))
        if out:
            return out[0]
        return _out(r)

    def __array_function__(self, func, types, args, kw):
        if not all(issubclass(t, ndarray) for t in types):
            return NotImplemented
        f = getattr(sys.modules[__name__], func.__name__, None)
        return NotImplemented if f is None else f(*args, **kw)

    # ---- what numpy arrays have as well
    @property
    def shape(self): return self._a.shape
    @property
    def size(self): return self._a.size
    @property
    def ndim(self): return self._a.ndim
    @property
    def dtype(self): return self._a.dtype
    @property
    def nbytes(self): return self._a.nbytes
    @property
    def itemsize(self): return self._a.itemsize
    @property
    def strides(self): return self._a.strides
    @property
    def flags(self): return self._a.flags
    @property
    def T(self): return ndarray(self._a.T)

    def __len__(self): return len(self._a)
    def __bool__(self): return bool(self._a)
    def __float__(self): return float(self._a)
    def __int__(self): return int(self._a)
    def __index__(self): return self._a.__index__()
    def __iter__(self):
        if self._a.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(len(self._a)):
            yield self[i]
    def __repr__(self): return 'cupy' + repr(self._a)
    def __str__(self): return str(self._a)

    def __getitem__(self, i):
        j = _index(i)
        r = self._a[j]
        if isinstance(r, _np.ndarray) and not _np.shares_memory(r, self._a, max_work=1):
            r = _np.ascontiguousarray(r)
        return _out(r)

    def __setitem__(self, i, v):
        self._a[_index(i)] = _in(v)

    def __getattr__(self, name):
        if name.startswith('_') or name in ('tolist', 'tobytes', 'data'):
            if name == 'tolist':
                return self._a.tolist
            raise AttributeError(name)
        f = getattr(self._a, name)
        if not callable(f):
            return f
        def method(*a, **k):
            return _out(f(*[_in(x) for x in a], **{q: _in(v) for q, v in k.items()}))
        return method

    def __reduce__(self):
        return (ndarray, (self._a,))


def _index(i):
    if isinstance(i, tuple):
        return tuple(_in(x) for x in i)
    return _in(i)


def _in(x):
    if isinstance(x, ndarray):
        return x._a
    if isinstance(x, (list, tuple)):
        return type(x)(_in(y) for y in x)
    return x


def _out(r):
    if isinstance(r, ndarray):
        return r
    if isinstance(r, _np.ndarray):
        return ndarray(r)
    if isinstance(r, _np.generic):
        return ndarray(_np.asarray(r))
    if isinstance(r, (list, tuple)):
        return type(r)(_out(y) for y in r)
    return r


def is_available():
    return DEVICES[0] > 0


def isscalar(x):
    return _np.isscalar(x)


def asarray(a, dtype=None, order=None, **k):
    if isinstance(a, ndarray):
        b = a._a if dtype is None else a._a.astype(dtype, copy=False)
        return a if b is a._a else ndarray(b)
    if isinstance(a, (list, tuple)) and any(isinstance(x, ndarray) for x in a):
        return ndarray(_np.array([_in(x) for x in a], dtype=dtype))
    # always a copy: the device has its own memory
    return ndarray(_np.array(a, dtype=dtype, order=order or 'K', copy=True))


def array(a, dtype=None, copy=True, order='K', **k):
    return ndarray(_np.array(_in(a), dtype=dtype, order=order, copy=True))


def asnumpy(a, *r, **k):
    return a.get() if isinstance(a, ndarray) else _np.asarray(a)


def ascontiguousarray(a, dtype=None):
    return ndarray(_np.ascontiguousarray(_in(a), dtype=dtype))


def empty(shape, dtype=float, order='C'):
    a = _np.zeros(shape, dtype=dtype, order=order)
    a[...] = _np.nan if a.dtype.kind == 'f' else 0x2aaaaaaa if a.dtype.itemsize >= 4 else 42
    return ndarray(a)


def empty_like(a, dtype=None, shape=None, **k):
    return empty(a.shape if shape is None else shape, a.dtype if dtype is None else dtype)


def _strict(name, f):
    def g(*a, **k):
        for x in _flat(a):
            if isinstance(x, _np.ndarray) and x.ndim > 0:
                raise TypeError(f'cupy.{name}: unsupported type {type(x)}')
        r = _out(f(*[_in(x) for x in a], **{q: _in(v) for q, v in k.items()}))
        return ndarray(_np.ascontiguousarray(r._a)) if isinstance(r, ndarray) and name in ('concatenate', 'hstack', 'vstack', 'stack', 'append', 'dstack') and r.ndim else r
    g.__name__ = name
    return g


def _flat(a):
    for x in a:
        if isinstance(x, (list, tuple)):
            yield from _flat(x)
        else:
            yield x


def _free(name, f):
    def g(*a, **k):
        r = _out(f(*[_in(x) for x in a], **{q: _in(v) for q, v in k.items()}))
        return ndarray(_np.ascontiguousarray(r._a)) if isinstance(r, ndarray) and name in ('append', 'tile', 'repeat') and r.ndim else r
    g.__name__ = name
    return g


def __getattr__(name):
    f = getattr(_np, name, None)
    if name.startswith('_') or f is None or not callable(f):
        raise AttributeError(f'cupy has no {name}')
    if isinstance(f, type):
        return f
    if isinstance(f, _np.ufunc) or name in ('concatenate', 'hstack', 'vstack', 'stack', 'dstack', 'searchsorted', 'sum', 'dot', 'matmul', 'einsum', 'argmin', 'argsort', 'where', 'transpose', 'swapaxes'):
        return _strict(name, f)
    return _free(name, f)


class _linalg:
    LinAlgError = _np.linalg.LinAlgError

    @staticmethod
    def solve(a, b):
        for x in (a, b):
            if not isinstance(x, ndarray):
                raise TypeError(f'cupy.linalg.solve: unsupported type {type(x)}')
        a, b = a._a, b._a
        # as documented: b has one dimension, or as many as a
        if not (b.ndim == 1 and a.ndim == 2 or b.ndim == a.ndim or b.ndim == 1):
            raise ValueError('a and b have incompatible dimensions')
        if a.ndim == 2:
            try:
                return ndarray(_np.linalg.solve(a, b))
            except _np.linalg.LinAlgError:
                return ndarray(_np.full(b.shape, _np.nan))
        r = _np.empty(_np.broadcast_shapes(a.shape[:-2], b.shape[:-2]) + b.shape[-2:])
        for i in _np.ndindex(*a.shape[:-2]):
            try:
                r[i] = _np.linalg.solve(a[i], b[i])
            except _np.linalg.LinAlgError:
                r[i] = _np.nan
        return ndarray(r)


linalg = _linalg


class _Pool:
    def free_all_blocks(self, *a): pass
    def used_bytes(self): return 0
    def total_bytes(self): return 0


def get_default_memory_pool():
    return _Pool()


class _cuda:
    class Device:
        def __init__(self, i=0): self.id = i
        @property
        def mem_info(self): return (FREE[0], 16 << 30)
        def use(self): pass
        def synchronize(self): pass
        def __enter__(self): return self
        def __exit__(self, *a): pass

    class runtime:
        @staticmethod
        def getDeviceCount(): return DEVICES[0]
        @staticmethod
        def getDevice(): return 0
        @staticmethod
        def deviceGetPCIBusId(n):
            import threading
            return BUS.get(threading.get_ident(), '0000:00:00.0')

    class Stream:
        class null:
            @staticmethod
            def synchronize(): pass


cuda = _cuda

# --------------------------------------------------------------------------- raw kernels
HEAD = r'''
#include <cmath>
#include <cstdint>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <algorithm>
#include <random>
using std::min; using std::max; using std::abs;
struct vf_dim { unsigned x, y, z; };
static vf_dim blockDim, blockIdx, threadIdx, gridDim;
static long vf_thread;
struct vf_stat { long oread, owrite, races, writes, reads; };
static const int vf_none = -1, vf_many = -2;
// one array: who read and who wrote each element in this launch
struct vf_array { char *base; long n; int size; std::vector<int> rd, wr; std::vector<unsigned char> at; vf_stat s; };
template<class T> struct vf_far { static T v() { return T(0x2aaaaaaa); } };
template<> struct vf_far<double> { static double v() { return NAN; } };
template<> struct vf_far<float> { static float v() { return NAN; } };
template<class T> struct vf_ptr;
template<class T> struct vf_ref {
  vf_array *a; long i;
  T load() const {
    a->s.reads++;
    if (i < 0 || i >= a->n) { a->s.oread++; return vf_far<T>::v(); }
    int w = a->wr[i]; if (w != vf_none && w != (int)vf_thread) a->s.races++;
    if (a->at[i]) a->s.races++;
    int &r = a->rd[i]; r = (r == vf_none || r == (int)vf_thread) ? (int)vf_thread : vf_many;
    T v; memcpy(&v, a->base + i * (long)sizeof(T), sizeof(T)); return v; }
  void store(T v) const {
    a->s.writes++;
    if (i < 0 || i >= a->n) { a->s.owrite++; return; }
    int &w = a->wr[i]; if (w != vf_none && w != (int)vf_thread) a->s.races++;
    int r = a->rd[i]; if (r != vf_none && r != (int)vf_thread) a->s.races++;
    if (a->at[i]) a->s.races++;
    w = (int)vf_thread; memcpy(a->base + i * (long)sizeof(T), &v, sizeof(T)); }
  T atomic(T x) const {
    a->s.writes++;
    if (i < 0 || i >= a->n) { a->s.owrite++; return x; }
    if (a->wr[i] != vf_none || a->rd[i] != vf_none) a->s.races++;
    a->at[i] = 1; T v; memcpy(&v, a->base + i * (long)sizeof(T), sizeof(T)); T q = v + x; memcpy(a->base + i * (long)sizeof(T), &q, sizeof(T)); return v; }
  operator T() const { return load(); }
  T operator=(T v) const { store(v); return v; }
  T operator=(const vf_ref &o) const { T v = o.load(); store(v); return v; }
  T operator+=(T v) const { T q = load() + v; store(q); return q; }
  T operator-=(T v) const { T q = load() - v; store(q); return q; }
  T operator*=(T v) const { T q = load() * v; store(q); return q; }
  T operator/=(T v) const { T q = load() / v; store(q); return q; }
  vf_ptr<T> operator&() const;
};
template<class T> struct vf_ptr {
  vf_array *a; long o;
  vf_ref<T> operator[](long i) const { return vf_ref<T>{a, o + i}; }
  vf_ref<T> operator*() const { return vf_ref<T>{a, o}; }
  vf_ptr operator+(long i) const { return vf_ptr{a, o + i}; }
  vf_ptr operator-(long i) const { return vf_ptr{a, o - i}; }
  vf_ptr &operator++() { o++; return *this; } vf_ptr operator++(int) { vf_ptr p = *this; o++; return p; }
  vf_ptr &operator+=(long i) { o += i; return *this; }
};
template<class T> vf_ptr<T> vf_ref<T>::operator&() const { return vf_ptr<T>{a, i}; }
template<class T, class U> T atomicAdd(vf_ptr<T> p, U x) { return vf_ref<T>{p.a, p.o}.atomic((T)x); }
#define __global__
#define __device__
#define __restrict__
#define __shared__ static
#define __syncthreads() vf_no_barriers_in_the_stand_in
'''

RUN = r'''
extern "C" void vf_run_%(name)s(void **pa, long *pn, long *pv, unsigned grid, unsigned block, unsigned seed, long *stats) {
  std::vector<vf_array> A(%(nptr)d);
  for (int k = 0; k < %(nptr)d; k++) { A[k].base = (char*)pa[k]; A[k].n = pn[k]; A[k].rd.assign(pn[k], vf_none); A[k].wr.assign(pn[k], vf_none); A[k].at.assign(pn[k], 0); A[k].s = vf_stat{0,0,0,0,0}; }
  blockDim = vf_dim{block,1,1}; gridDim = vf_dim{grid,1,1};
  std::vector<unsigned> ob(grid), ot(block);
  for (unsigned i = 0; i < grid; i++) ob[i] = i; for (unsigned i = 0; i < block; i++) ot[i] = i;
  std::mt19937 g(seed);
  if (seed) { std::shuffle(ob.begin(), ob.end(), g); std::shuffle(ot.begin(), ot.end(), g); }
  for (unsigned b : ob) for (unsigned t : ot) {
    blockIdx = vf_dim{b,0,0}; threadIdx = vf_dim{t,0,0}; vf_thread = (long)b * block + t;
    %(name)s(%(args)s);
  }
  for (int k = 0; k < %(nptr)d; k++) {
    long un = 0; for (long i = 0; i < A[k].n; i++) if (A[k].wr[i] == vf_none && !A[k].at[i]) un++;
    long *s = stats + 6*k; s[0]=A[k].s.oread; s[1]=A[k].s.owrite; s[2]=A[k].s.races; s[3]=A[k].s.writes; s[4]=un; s[5]=A[k].s.reads; }
}
'''
CT = {'double': _np.float64, 'float': _np.float32, 'int': _np.int32, 'long': _np.int64, 'long long': _np.int64, 'unsigned int': _np.uint32, 'unsigned long': _np.uint64, 'unsigned long long': _np.uint64,
      'bool': _np.bool_, 'char': _np.int8, 'short': _np.int16, 'size_t': _np.uint64}
_libs = {}
_dir = []


def _params(code, name):
    m = re.search(r'__global__\s+void\s+' + name + r'\s*\(([^)]*)\)', code)
    if not m:
        raise ValueError(f'no kernel {name} in the source')
    out = []
    for p in m.group(1).split(','):
        p = re.sub(r'\b(const|__restrict__|volatile)\b', ' ', p)
        q = re.match(r'\s*([\w ]+?)\s*(\*?)\s*(\w+)\s*(\[\s*\])?\s*$', p)
        out.append((' '.join(q.group(1).split()), bool(q.group(2) or q.group(4)), q.group(3)))
    return out


def _compile(code):
    key = hashlib.sha1(code.encode()).hexdigest()
    if key in _libs:
        return _libs[key]
    src = re.sub(r'//[^\n]*', '', code)
    src = re.sub(r'/\*.*?\*/', '', src, flags=re.S)
    names = re.findall(r'__global__\s+void\s+(\w+)', src)
    sig = {n: _params(src, n) for n in names}
    # every pointer is a checked one
    body = re.sub(r'\b(?:const\s+)?(double|float|int|long long|unsigned int|long)\s*(?:const\s*)?\*\s*(?:__restrict__\s*)?(\w+)', r'vf_ptr<\1> \2', src)
    body = re.sub(r'extern\s+"C"', 'namespace vf_kernels', body)
    out = HEAD + body + '\nusing namespace vf_kernels;\n' if 'namespace vf_kernels' in body else HEAD + body
    for n in names:
        k = v = 0; args = []
        for t, ptr, _ in sig[n]:
            if ptr:
                args.append(f'vf_ptr<{t}>{{&A[{k}], 0}}'); k += 1
            else:
                # the raw bytes of the value, as the driver passes them
                args.append(f'*({t}*)&pv[{v}]'); v += 1
        out += RUN % dict(name=n, nptr=k, args=', '.join(args))
    if not _dir:
        _dir.append(tempfile.mkdtemp(prefix='verif-kernels-'))
        import atexit, shutil
        atexit.register(shutil.rmtree, _dir[0], True)
    f = os.path.join(_dir[0], key)
    with open(f + '.cpp', 'w') as h:
        h.write(out)
    p = subprocess.run(['g++', '-std=c++17', '-O1', '-fno-strict-aliasing', '-fPIC', '-shared', '-w', '-o', f + '.so', f + '.cpp'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise RuntimeError('the kernels do not compile:\n' + p.stdout[-3000:])
    _libs[key] = (ctypes.CDLL(f + '.so'), sig)
    return _libs[key]


def close():
    import shutil
    for d in _dir:
        shutil.rmtree(d, True)


class RawModule:
    def __init__(self, code=None, **k):
        self.code = code

    def get_function(self, name):
        return RawKernel(self.code, name)


class RawKernel:
    def __init__(self, code, name, **k):
        self.code = code; self.name = name

    def __call__(self, grid, block, args, **k):
        lib, sig = _compile(self.code)
        ps = sig[self.name]
        if len(ps) != len(args):
            raise TypeError(f'{self.name}: {len(args)} arguments for {len(ps)} parameters')
        ptrs = []; sizes = []; vals = []; keep = []; wrong = []
        for (t, ptr, n), x in zip(ps, args):
            d = _np.dtype(CT[t])
            if ptr:
                if not isinstance(x, ndarray):
                    raise TypeError(f'{self.name}: unsupported type {type(x)}')
                a = x._a
                if a.dtype != d:
                    wrong.append(n)
                lo, hi = (_np.lib.array_utils.byte_bounds(a) if a.size else (a.ctypes.data, a.ctypes.data))
                ptrs.append(a.ctypes.data); sizes.append((hi - a.ctypes.data) // d.itemsize); keep.append(a)
            else:
                if isinstance(x, (float, _np.floating)) != (d.kind == 'f') or isinstance(x, (ndarray, _np.ndarray)):
                    wrong.append(n)
                if isinstance(x, (bool, int)):
                    b = int(x).to_bytes(8, 'little', signed=True)
                elif isinstance(x, float):
                    b = _np.float64(x).tobytes()
                else:
                    b = _np.asarray(_in(x)).tobytes()
                vals.append(int.from_bytes(b[:8].ljust(8, b'\0'), 'little', signed=True))
        g = int(grid[0]); bl = int(block[0])
        if g < 1 or not 1 <= bl <= 1024 or len(wrong):
            # an empty grid is refused by the driver
            if g < 1 or not 1 <= bl <= 1024:
                raise RuntimeError('CUDA_ERROR_INVALID_VALUE: invalid argument')
        n = len(ptrs)
        st = (ctypes.c_long * (6 * n))()
        ORDER[0] = (ORDER[0] * 1103515245 + 12345) & 0x7fffffff if ORDER[0] else 0
        getattr(lib, 'vf_run_' + self.name)((ctypes.c_void_p * n)(*ptrs), (ctypes.c_long * n)(*sizes), (ctypes.c_long * max(1, len(vals)))(*vals),
                                            ctypes.c_uint(g), ctypes.c_uint(bl), ctypes.c_uint(ORDER[0]), st)
        s = [list(st[6 * i:6 * i + 6]) for i in range(n)]
        written = [i for i in range(n) if s[i][3] > 0]
        LAUNCHES.append(dict(kernel=self.name, threads=g * bl, beyond=sum(x[0] + x[1] for x in s), races=sum(x[2] for x in s), unwritten=sum(s[i][4] for i in written), types=wrong,
                             values=[int(_np.int64(v) & 0xffffffff) for v in vals], sizes=list(sizes), strided=[i for i in range(n) if not keep[i].flags.c_contiguous]))
