"""Arrays whose dimensions are symbolic: shapes only. The array constructors and the shape functions the importer uses follow
the NumPy definitions; the comparisons they need fork paths."""
import numpy as np, builtins
from symx import SymInt, SymBool, Explorer

def has_sym(x):
    return isinstance(x, SymInt) or isinstance(x, (tuple, list)) and any(isinstance(i, SymInt) for i in x) or isinstance(x, np.ndarray) and x.dtype == object and any(isinstance(i, SymInt) for i in x.flat)
def _tup(s): return tuple(s) if isinstance(s, (tuple, list, np.ndarray)) else (s,)
def prod(s):
    r = 1
    for x in s: r = r * x
    return r
def _axis(a, n):
    a = int(a)
    if a < -n or a >= n: raise ValueError('axis %d is out of bounds for array of dimension %d' % (a, n))
    return a % n
def bcast(a, b):
    n = max(len(a), len(b)); a = (1,) * (n - len(a)) + tuple(a); b = (1,) * (n - len(b)) + tuple(b); r = []
    for x, y in zip(a, b):
        if x == y: r.append(x)
        elif x == 1: r.append(y)
        elif y == 1: r.append(x)
        else: raise ValueError('operands could not be broadcast together')
    return tuple(r)

class SymArr(object):
    """contents unknown"""
    def __init__(s, shape): s.shape = tuple(shape); s.dtype = np.dtype(float)
    ndim = property(lambda s: len(s.shape)); size = property(lambda s: prod(s.shape)); T = property(lambda s: SymArr(s.shape[::-1]))
    def __len__(s): return int(s.shape[0])
    def _bin(s, o): return SymArr(bcast(s.shape, getattr(o, 'shape', ())))
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = _bin
    def __matmul__(s, o): return matmul(s, o)
    def __rmatmul__(s, o): return matmul(o, s)
    def transpose(s, *a): return transpose(s, *(a if len(a) == 1 else (a,)) if a else ())
    def reshape(s, *a): return reshape(s, a[0] if len(a) == 1 else a)
    def squeeze(s, axis=None): return squeeze(s, axis)
    def copy(s): return s
    def astype(s, *a, **k): return s
    def flatten(s): return SymArr((s.size,))
    ravel = flatten
    def __array_function__(s, f, types, args, kw):
        g = FUNCS.get(f.__name__)
        if g is None: raise NotImplementedError('numpy.%s with symbolic dimensions' % f.__name__)
        return g(*args, **kw)
    def __array_ufunc__(s, f, method, *a, **k):
        if method != '__call__': raise NotImplementedError('ufunc')
        if f.__name__ == 'matmul': return matmul(*a)
        r = ()
        for x in a: r = bcast(r, getattr(x, 'shape', ()))
        return SymArr(r)

def transpose(a, axes=None):
    n = len(a.shape)
    if axes is None: return SymArr(a.shape[::-1])
    axes = [_axis(x, n) for x in axes]
    if sorted(axes) != list(range(n)): raise ValueError("axes don't match array")
    return SymArr(a.shape[x] for x in axes)
def squeeze(a, axis=None):
    n = len(a.shape)
    if axis is None: return SymArr(d for d in a.shape if not (d == 1))
    axes = {_axis(x, n) for x in (axis if isinstance(axis, (tuple, list)) else (axis,))}
    for x in axes:
        if a.shape[x] != 1: raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
    return SymArr(d for i, d in enumerate(a.shape) if i not in axes)
def expand_dims(a, axis):
    ax = axis if isinstance(axis, (tuple, list)) else (axis,); n = len(a.shape) + len(ax); ax = [_axis(x, n) for x in ax]
    if len(set(ax)) != len(ax): raise ValueError('repeated axis')
    it = iter(a.shape); return SymArr(1 if i in ax else next(it) for i in range(n))
def matmul(a, b):
    x, y = tuple(a.shape), tuple(b.shape)
    if not x or not y: raise ValueError('matmul: Input operand does not have enough dimensions')
    p, q = len(x) == 1, len(y) == 1
    if p: x = (1,) + x
    if q: y = y + (1,)
    if x[-1] != y[-2]: raise ValueError('matmul: Input operand has a mismatch in its core dimension')
    return SymArr(bcast(x[:-2], y[:-2]) + (() if p else (x[-2],)) + (() if q else (y[-1],)))
def concatenate(arrs, axis=0, **k):
    arrs = list(arrs); n = len(arrs[0].shape); ax = _axis(axis, n); tot = 0
    for a in arrs:
        if len(a.shape) != n: raise ValueError('all the input array dimensions must match')
        for i in range(n):
            if i != ax and a.shape[i] != arrs[0].shape[i]: raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
        tot = tot + a.shape[ax]
    return SymArr(tot if i == ax else d for i, d in enumerate(arrs[0].shape))
def reshape(a, newshape, *r, **k):
    s = list(_tup(newshape)); un = None
    for i, d in enumerate(s):
        if d == -1:
            if un is not None: raise ValueError('can only specify one unknown dimension')
            un = i
        elif d < 0: raise ValueError('negative dimensions are not allowed')
    src, dst = list(a.shape), [d for i, d in enumerate(s) if i != un]
    for d in list(dst): # equal factors cancel
        for e in src:
            if isinstance(d, SymInt) and isinstance(e, SymInt) and d.e.eq(e.e) and not (d == 0): src.remove(e); dst.remove(d); break
    n = prod(src)
    if un is not None:
        m = prod(dst)
        if m == 0 or n % m != 0: raise ValueError('cannot reshape array')
        s[un] = n // m
    elif prod(dst) != n: raise ValueError('cannot reshape array')
    return SymArr(s)
def take(a, indices, axis=None, *r, **k):
    i = np.asarray(indices) if not isinstance(indices, SymArr) else indices
    if axis is None: return SymArr(i.shape)
    ax = _axis(axis, len(a.shape)); return SymArr(tuple(a.shape[:ax]) + tuple(i.shape) + tuple(a.shape[ax + 1:]))
def copy(a, *r, **k): return a
FUNCS = dict(transpose=transpose, squeeze=squeeze, expand_dims=expand_dims, matmul=matmul, concatenate=concatenate, reshape=reshape, take=take, copy=copy, shape=lambda a: a.shape, ndim=lambda a: len(a.shape), size=lambda a: a.size, ravel=lambda a: a.flatten(), zeros_like=copy, ones_like=copy, empty_like=copy, add=lambda a, b: SymArr(bcast(getattr(a, 'shape', ()), getattr(b, 'shape', ()))))

def install():
    def ctor(name):
        f = getattr(np, name)
        def w(shape, *a, **k): return SymArr(_tup(shape)) if has_sym(shape) else f(shape, *a, **k)
        w.__name__ = name; setattr(np, name, w)
    for n in ('zeros', 'ones', 'empty', 'full'): ctor(n)
    def wrap1(name, g): # arrays of symbolic integers in, and shapes of symbolic dimensions as arguments
        f = getattr(np, name)
        def w(a, *r, **k):
            if isinstance(a, SymArr) or any(has_sym(x) for x in list(r) + list(k.values())): return g(a, *r, **k)
            return f(a, *r, **k)
        w.__name__ = name; setattr(np, name, w)
    tk = np.take
    def take_(a, i, *r, **k): x = np.asarray(a) if not isinstance(a, SymArr) else a; y = tk(x, i, *r, **k); return np.array(y, dtype=object) if isinstance(x, np.ndarray) and x.dtype == object and not isinstance(y, np.ndarray) else y
    np.take = take_
    wrap1('reshape', reshape); wrap1('broadcast_to', lambda a, s, **k: SymArr(_tup(s)))
    def keep(name): # whole numbers stay symbolic whatever integer type is asked for
        f = getattr(np, name)
        def w(a, dtype=None, *r, **k):
            if dtype is not None and np.dtype(dtype).kind in 'iu' and has_sym(a): dtype = object
            return f(a, *r, **k) if dtype is None else f(a, dtype, *r, **k)
        w.__name__ = name; setattr(np, name, w)
    for n in ('array', 'asarray', 'ascontiguousarray'): keep(n)
    def fold(name, g):
        f = getattr(np, name)
        def w(a, *r, **k): return g(a.flat if isinstance(a, np.ndarray) else a) if has_sym(a) and not r and (not k or set(k) == {'dtype'}) else f(a, *r, **k)
        w.__name__ = name; setattr(np, name, w)
    fold('prod', prod); fold('sum', builtins.sum)
    bs = np.broadcast_shapes
    def broadcast_shapes(*ss):
        if not any(has_sym(_tup(x)) for x in ss): return bs(*ss)
        r = ()
        for x in ss: r = bcast(r, _tup(x))
        return r
    np.broadcast_shapes = broadcast_shapes
    if not hasattr(np, 'float'): np.float = float
    if not hasattr(np, 'int'): np.int = int
    if not hasattr(np, 'bool'): np.bool = bool

class _M(type):
    def __instancecheck__(c, x): return isinstance(x, (builtins.int, SymInt))
    def __subclasscheck__(c, x): return issubclass(x, builtins.int) or issubclass(x, SymInt)
class VInt(builtins.int, metaclass=_M):
    """int() that keeps a symbolic integer symbolic"""
    def __new__(c, *a, **k): return a[0] if len(a) == 1 and isinstance(a[0], SymInt) else a[0].__trunc__() if len(a) == 1 and hasattr(a[0], '__trunc__') and type(a[0]).__name__ == 'SymFrac' else builtins.int(*a, **k)
