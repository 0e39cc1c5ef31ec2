"""numpy stand-in for symbolic runs of the Python layer.

float64 arrays become object arrays (8-byte items, so shapes, strides, views,
copies and pointer arithmetic are numpy's own) whose elements are S terms or
special floats.  bool and int arrays stay what they are; comparisons of
symbolic elements fork the path.
"""
import math, types, itertools
import numpy as _np
from . import sym
from .sym import S, B, SC, lift, Unsupported, const

_uninit = itertools.count()


class _FloatMeta(type(float)):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, S))

    def __subclasscheck__(cls, c):
        return issubclass(c, (float, S))


class symfloat(float, metaclass=_FloatMeta):
    """Replaces the name `float` inside the modules under test."""
    def __new__(cls, v=0.0):
        if isinstance(v, (S,)):
            return v
        if isinstance(v, B):
            return lift(v)
        if isinstance(v, _np.ndarray) and v.dtype == object:
            return v.item()
        return float(v)


def norm_dtype(d):
    if d is None:
        return None
    if d is symfloat:
        return _np.dtype(float)
    return _np.dtype(d)


def is_float_dtype(d):
    return d is not None and d.kind in 'f'


class Ptr(int):
    """address of an array's first element, remembering the array"""
    def __new__(cls, arr):
        p = int.__new__(cls, _np.ndarray.ctypes.__get__(arr).data)
        p.arr = arr
        p.off = 0
        return p

    def _shift(self, k):
        p = int.__new__(Ptr, int(self) + k)
        p.arr, p.off = self.arr, self.off + k
        return p

    def __add__(self, k): return self._shift(int(k))
    __radd__ = __add__
    def __sub__(self, k): return self._shift(-int(k))


class _CT:
    def __init__(self, arr):
        self._a = arr

    @property
    def data(self):
        return Ptr(self._a)

    def __getattr__(self, k):
        raise Unsupported(f'ctypes.{k}')


class SymArray(_np.ndarray):
    cplx = False

    def __array_finalize__(self, obj):
        if obj is not None and getattr(obj, 'cplx', False) and self.dtype == object:
            self.cplx = True

    @property
    def ctypes(self):
        return _CT(self)

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        f = UF.get(ufunc.__name__)
        ins = [base(x) for x in inputs]
        symb = any(isinstance(x, (S, B, SC)) or (isinstance(x, _np.ndarray) and x.dtype == object) for x in ins)
        where = kw.get('where', True)
        if method == '__call__' and symb and f is not None:
            fn, bools = f
            if where is not True:
                where = base(NP.asarray(where)).astype(bool)
                o = base(out[0]) if out is not None else base(NP.empty(_np.broadcast_shapes(where.shape, *[_np.shape(x) for x in ins])))
                sel = [_np.broadcast_to(x, o.shape)[_np.broadcast_to(where, o.shape)] for x in ins]
                o[_np.broadcast_to(where, o.shape)] = _np.frompyfunc(fn, len(ins), 1)(*sel)
                return out[0] if out is not None else wrap(o)
            r = _np.frompyfunc(fn, len(ins), 1)(*ins)
            if bools and isinstance(r, _np.ndarray):
                r = r.astype(bool)
            elif bools:
                r = bool(r)
            elif isinstance(r, float):
                r = lift(r)
            if out is not None:
                o = out[0]
                base(o)[...] = r
                return o
            return wrap(r)
        if out is not None:
            kw['out'] = tuple(base(o) for o in out)
        if method == 'reduce' and symb and ufunc.__name__ in ('logical_and', 'logical_or'):
            ins = [ins[0].astype(bool)] + ins[1:]
        if method == 'reduce' and symb and kw.get('where', True) is not True:
            w = base(NP.asarray(kw.pop('where'))).astype(bool)
            unit = {'add': sym.ZERO, 'multiply': sym.ONE}.get(ufunc.__name__)
            if unit is None:
                raise Unsupported('reduce where=')
            ins = [_np.where(w, ins[0], unit)] + ins[1:]
        if 'dtype' in kw and kw['dtype'] is not None and is_float_dtype(norm_dtype(kw['dtype'])):
            kw['dtype'] = object
        if kw.get('dtype', 0) is None:
            del kw['dtype']
        r = getattr(ufunc, method)(*ins, **kw)
        if out is not None:
            return out[0]
        return wrap(r)

    def astype(self, dtype, *a, copy=True, **kw):
        d = norm_dtype(dtype)
        if is_float_dtype(d):
            return NP.array(self, dtype=float, copy=copy)
        if self.dtype == object and d.kind == 'b':
            return wrap(_np.array([bool(x) for x in base(self).ravel()], dtype=bool).reshape(self.shape))
        if self.dtype == object and d.kind in 'iu':
            return wrap(_np.array([int(x) for x in base(self).ravel()], dtype=d).reshape(self.shape))
        if self.dtype == object and d.kind == 'c':
            return complexify(self)
        return _np.ndarray.astype(self, d, *a, copy=copy, **kw)

    def mean(self, *a, **kw):
        return NP.mean(self, *a, **kw)

    @property
    def real(self):
        return wrap(_np.frompyfunc(lambda x: x.re if isinstance(x, SC) else x, 1, 1)(base(self))) if self.dtype == object else _np.ndarray.real.__get__(self)

    @property
    def imag(self):
        return wrap(_np.frompyfunc(lambda x: x.im if isinstance(x, SC) else sym.ZERO, 1, 1)(base(self))) if self.dtype == object else _np.ndarray.imag.__get__(self)

    def __reduce__(self):
        return (_unpickle, (base(self).ravel().tolist(), self.shape, self.dtype.str if self.dtype != object else 'O',
                            self.flags.f_contiguous and not self.flags.c_contiguous))

    def __reduce_ex__(self, p):
        return self.__reduce__()

    def __repr__(self):
        return 'array(' + repr(base(self).tolist()) + ')'


def _unpickle(l, shape, dt, fort):
    a = _np.empty(len(l), dtype=dt if dt != 'O' else object)
    for i, v in enumerate(l):
        a[i] = v
    a = a.reshape(shape)
    if fort:
        a = _np.asfortranarray(a)
    return a.view(SymArray)


def base(x):
    return x.view(_np.ndarray) if isinstance(x, SymArray) else x


def _lift1(x):
    if isinstance(x, SC):
        return x
    if isinstance(x, complex):
        return SC(x.real, x.imag)
    if isinstance(x, _np.complexfloating):
        return SC(float(x.real), float(x.imag))
    r = lift(x)
    if r is None:
        raise TypeError(f"float() argument must be a string or a real number, not '{type(x).__name__}'")
    return r


_liftv = _np.frompyfunc(_lift1, 1, 1)


def objectify(a):
    """float / object ndarray -> SymArray of terms (fresh memory)"""
    a = base(a)
    order = 'F' if (a.flags.f_contiguous and not a.flags.c_contiguous) else 'C'
    o = _np.empty(a.shape, dtype=object, order=order)
    if a.ndim == 0:
        o[()] = _lift1(a.item())
    else:
        for idx in _np.ndindex(a.shape):
            o[idx] = _lift1(a[idx] if a.dtype == object else a[idx].item())
    r = o.view(SymArray)
    if a.dtype.kind == 'c':
        r.cplx = True
    return r


def complexify(a):
    r = objectify(a)
    for idx in _np.ndindex(r.shape):
        v = base(r)[idx]
        base(r)[idx] = SC.of(v)
    r.cplx = True
    return r


def wrap(r):
    if isinstance(r, tuple):
        if type(r) is tuple:
            return tuple(wrap(x) for x in r)
        return r
    if isinstance(r, list):
        return [wrap(x) for x in r]
    if isinstance(r, SymArray):
        if r.dtype.kind in 'fc':
            return objectify(r)
        return r
    if isinstance(r, _np.ndarray):
        if type(r) is not _np.ndarray:
            return r
        if r.dtype.kind in 'fc':
            return objectify(r)
        if r.dtype.kind in 'biuO':
            return r.view(SymArray)
        return r
    return r


def _bin(f):
    def g(a, b):
        if isinstance(a, (SC, complex)) or isinstance(b, (SC, complex)):
            a, b = SC.of(a), SC.of(b)
            return {sym.add: SC.__add__, sym.sub: SC.__sub__, sym.mul: SC.__mul__, sym.div: SC.__truediv__}[f](a, b)
        return f(_lift1(a), _lift1(b))
    return g


def _un(f):
    return lambda a: f(_lift1(a))


def _abs(a):
    return abs(a) if isinstance(a, SC) else sym.fabs(_lift1(a))


def _isnan(a):
    return isinstance(a, float) and a != a


def _max(a, b):
    a, b = _lift1(a), _lift1(b)
    for q in (a, b):
        if isinstance(q, float) and q != q:
            return q
    return b if bool(sym.lt(a, b)) else a


def _min(a, b):
    a, b = _lift1(a), _lift1(b)
    for q in (a, b):
        if isinstance(q, float) and q != q:
            return q
    return b if bool(sym.lt(b, a)) else a


def _sign(a):
    a = _lift1(a)
    if isinstance(a, float):
        return a if a != a else math.copysign(1, a)
    return const(sym._sgn_decide(a))


def _eq(a, b):
    if isinstance(a, SC) or isinstance(b, SC):
        a, b = SC.of(a), SC.of(b)
        return sym.b_and(sym.eq(a.re, b.re), sym.eq(a.im, b.im))
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        return a == b
    return sym.eq(la, lb)


def _exp(a):
    return a.exp() if isinstance(a, SC) else sym.uf('exp', _lift1(a))


def _neg(a):
    return -a if isinstance(a, SC) else sym.neg(_lift1(a))


def _ceil(a):
    return sym.neg(sym.floor(sym.neg(_lift1(a))))


def _pow(a, b):
    if isinstance(b, S) and b.op == 'c':
        b = b.val
    return sym.power(_lift1(a), b)


def _tan(a):
    return sym.div(sym.sin(a), sym.cos(a))


def _mod(x, y):
    x, y = _lift1(x), _lift1(y)
    return sym.sub(x, sym.mul(y, sym.floor(sym.div(x, y))))


def _rint(a):
    a = _lift1(a)
    if isinstance(a, S) and a.op == 'c':
        return const(round(a.val))
    raise Unsupported('rint')


def _fmod(a, b):
    a, b = _lift1(a), _lift1(b)
    return sym.sub(a, sym.mul(b, sym.trunc(sym.div(a, b))))


def _negative(a):
    a = _lift1(a)
    if isinstance(a, float):
        return math.copysign(1, a) < 0
    return sym.lt(a, sym.ZERO)


def _copysign(a, b):
    m = sym.fabs(_lift1(a))
    return sym.neg(m) if bool(_negative(b)) else m


def _heaviside(a, b):
    a = _lift1(a)
    if _isnan(a):
        return a
    return sym.ZERO if bool(sym.lt(a, sym.ZERO)) else sym.ONE if bool(sym.lt(sym.ZERO, a)) else _lift1(b)


PI = const(math.pi)
UF = {
    'add': (_bin(sym.add), 0), 'subtract': (_bin(sym.sub), 0), 'multiply': (_bin(sym.mul), 0),
    'divide': (_bin(sym.div), 0), 'true_divide': (_bin(sym.div), 0),
    'floor_divide': (lambda a, b: sym.floor(sym.div(_lift1(a), _lift1(b))), 0),
    'negative': (_neg, 0), 'positive': (lambda a: a, 0),
    'sqrt': (_un(sym.sqrt), 0), 'sin': (_un(sym.sin), 0), 'cos': (_un(sym.cos), 0), 'tan': (_un(_tan), 0),
    'arcsin': (_un(sym.arcsin), 0), 'arccos': (_un(sym.arccos), 0), 'arctan': (lambda a: sym.uf('atan', _lift1(a)), 0),
    'arctan2': (lambda a, b: sym.uf('atan2', _lift1(a), _lift1(b)), 0),
    'hypot': (lambda a, b: sym.hypot(a, b), 0), 'exp': (_exp, 0), 'floor': (_un(sym.floor), 0), 'ceil': (_ceil, 0),
    'absolute': (_abs, 0), 'fabs': (_abs, 0), 'square': (lambda a: a*a, 0), 'power': (_pow, 0), 'float_power': (_pow, 0),
    'remainder': (_mod, 0), 'rint': (_rint, 0), 'sign': (_sign, 0), 'reciprocal': (lambda a: sym.div(sym.ONE, _lift1(a)), 0),
    'deg2rad': (lambda a: sym.mul(_lift1(a), const(math.pi/180)), 0), 'radians': (lambda a: sym.mul(_lift1(a), const(math.pi/180)), 0),
    'rad2deg': (lambda a: sym.mul(_lift1(a), const(180/math.pi)), 0), 'degrees': (lambda a: sym.mul(_lift1(a), const(180/math.pi)), 0),
    'conjugate': (lambda a: a.conjugate(), 0),
    'maximum': (_max, 0), 'minimum': (_min, 0), 'fmax': (lambda a, b: b if _isnan(a) else a if _isnan(b) else _max(a, b), 0),
    'fmin': (lambda a, b: b if _isnan(a) else a if _isnan(b) else _min(a, b), 0),
    'isnan': (_isnan, 1), 'isfinite': (lambda a: not isinstance(a, float) or math.isfinite(a), 1),
    'isinf': (lambda a: isinstance(a, float) and math.isinf(a), 1),
    'less': (lambda a, b: sym.lt(_lift1(a), _lift1(b)), 1), 'less_equal': (lambda a, b: sym.le(_lift1(a), _lift1(b)), 1),
    'greater': (lambda a, b: sym.lt(_lift1(b), _lift1(a)), 1), 'greater_equal': (lambda a, b: sym.le(_lift1(b), _lift1(a)), 1),
    'equal': (_eq, 1), 'not_equal': (lambda a, b: sym.b_not(_eq(a, b)) if isinstance(_eq(a, b), B) else not _eq(a, b), 1),
    'logical_not': (lambda a: not bool(a), 1), 'logical_and': (lambda a, b: bool(a) and bool(b), 1),
    'logical_or': (lambda a, b: bool(a) or bool(b), 1), 'logical_xor': (lambda a, b: bool(a) != bool(b), 1),
    'trunc': (_un(sym.trunc), 0), 'fmod': (lambda a, b: _fmod(a, b), 0), 'signbit': (lambda a: _negative(a), 1),
    'copysign': (lambda a, b: _copysign(a, b), 0), 'heaviside': (lambda a, b: _heaviside(a, b), 0),
    'log': (lambda a: sym.uf('log', _lift1(a)), 0), 'ldexp': (lambda a, b: sym.mul(_lift1(a), const(2**int(b) if b >= 0 else 1/2**int(-b))), 0),
}
UF['conj'] = UF['conjugate']
UF['abs'] = UF['absolute']


def _has_sym(x):
    if isinstance(x, (S, B, SC, SymArray)):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_sym(y) for y in x)
    return False


def _mkarray(x, dtype=None, copy=True, order='K', subok=False, ndmin=0, **kw):
    d = norm_dtype(dtype)
    if isinstance(x, SymArray) and (d is None or (is_float_dtype(d) and x.dtype == object and not x.cplx) or d == x.dtype):
        r = _np.array(base(x), copy=(copy if copy is not False else None), order=order, ndmin=ndmin)
        if r is base(x) or (copy is not True and _np.shares_memory(r, base(x)) and r.shape == x.shape and r.strides == x.strides):
            return x
        r = r.view(SymArray)
        r.cplx = x.cplx
        return r
    if isinstance(x, (list, tuple)):
        # nested arrays of terms
        x = [y for y in x]
        raw = _np.array([base(y) if isinstance(y, SymArray) else y for y in x]) if not any(isinstance(y, (list, tuple)) for y in x) \
            else _np.array([_unwrap(y) for y in x])
    else:
        raw = _np.array(base(x))
    if d is not None and d.kind == 'c':
        r = complexify(raw)
    elif d is None or is_float_dtype(d):
        if raw.dtype.kind in 'fcO' or is_float_dtype(d):
            if raw.dtype.kind == 'O' and d is None and not all(isinstance(v, (S, SC, B, int, float, complex, _np.number, _np.bool_)) for v in raw.ravel()):
                return raw
            r = objectify(raw if raw.dtype.kind != 'b' else raw.astype(int))
        else:
            r = raw.view(SymArray)
    elif d.kind == 'b':
        r = wrap(_np.array([bool(v) for v in raw.ravel()], dtype=bool).reshape(raw.shape))
    elif d.kind in 'iu':
        r = wrap(_np.array([int(v) for v in raw.ravel()], dtype=d).reshape(raw.shape))
    elif d == object:
        return raw.astype(object)
    else:
        return _np.array(x, dtype=dtype, copy=copy, order=order, ndmin=ndmin)
    if order in ('C', 'F') or ndmin:
        cp = r.cplx
        r = _np.array(base(r), order=order, copy=None, ndmin=ndmin).view(SymArray)
        r.cplx = cp
    return r


def _unwrap(y):
    if isinstance(y, SymArray):
        return base(y)
    if isinstance(y, (list, tuple)):
        return [_unwrap(z) for z in y]
    return y


class _Linalg(types.ModuleType):
    def __getattr__(self, k):
        f = getattr(_np.linalg, k)
        if not callable(f) or isinstance(f, type):
            return f

        def g(*a, **kw):
            if any(_has_sym(x) for x in a):
                try:
                    a2 = [to_float(x) if _has_sym(x) else x for x in a]
                except (TypeError, AttributeError):
                    raise Unsupported(f'np.linalg.{k} of symbolic data')
                return wrap(f(*a2, **kw))
            return wrap(f(*a, **kw))
        return g

    def norm(self, x, ord=None, axis=None, keepdims=False):
        a = base(NP.array(x, dtype=float))
        if ord not in (None, 2) and not (ord == 'fro' and a.ndim == 2):
            raise Unsupported('norm ord')
        if ord == 2 and axis is None and a.ndim == 2:
            raise Unsupported('spectral norm')
        s = (a*a).sum(axis=axis, keepdims=keepdims)
        return wrap(_np.frompyfunc(sym.sqrt, 1, 1)(s)) if isinstance(s, _np.ndarray) else sym.sqrt(s)

    def det(self, m):
        a = base(NP.array(m, dtype=float))
        n = a.shape[0]
        if a.ndim != 2 or n > 4:
            raise Unsupported('det')

        def d(rows, cols):
            if not rows:
                return sym.ONE
            r = sym.ZERO
            for k, c in enumerate(cols):
                t = a[rows[0], c] * d(rows[1:], cols[:k] + cols[k+1:])
                r = r + t if k % 2 == 0 else r - t
            return r
        return d(list(range(n)), list(range(n)))

    def inv(self, m):
        a = base(NP.array(m, dtype=float))
        n = a.shape[0]
        D = self.det(m)
        if bool(sym.eq(lift(D), sym.ZERO)):
            raise _np.linalg.LinAlgError('Singular matrix')
        out = _np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                mi = _np.delete(_np.delete(a, j, 0), i, 1)
                c = self.det(mi) if n > 1 else sym.ONE
                out[i, j] = sym.div(c if (i + j) % 2 == 0 else sym.neg(c), D)
        return out.view(SymArray)

    def solve(self, m, b):
        return self.inv(m) @ NP.array(b, dtype=float)

    def lstsq(self, a, b, rcond=None):
        """least squares by the normal equations; all-zero columns get zero
        (the minimum-norm choice)"""
        A, Bv = base(NP.array(a, dtype=float)), base(NP.array(b, dtype=float))
        if A.ndim != 2 or A.shape[0] != Bv.shape[0]:
            raise _np.linalg.LinAlgError('Incompatible dimensions')
        cols = [j for j in range(A.shape[1]) if not all(x is sym.ZERO for x in A[:, j])]
        n = len(cols)
        Y = Bv.reshape(Bv.shape[0], -1)
        out = _np.empty((A.shape[1], Y.shape[1]), dtype=object)
        out[...] = sym.ZERO
        if A.shape[0] < n:
            raise Unsupported('lstsq: fewer rows than columns')
        A = A[:, cols]
        M = _np.empty((n, n + Y.shape[1]), dtype=object)
        for i in range(n):
            for j in range(n):
                M[i, j] = sym.tidy(sum((A[k, i]*A[k, j] for k in range(A.shape[0])), sym.ZERO))
            for j in range(Y.shape[1]):
                M[i, n+j] = sum((A[k, i]*Y[k, j] for k in range(A.shape[0])), sym.ZERO)
        for i in range(n):
            piv = [r for r in range(i, n) if M[r, i].op == 'c' and abs(M[r, i].val) > 1e-20]
            r = max(piv, key=lambda r: abs(M[r, i].val)) if piv else i
            if not piv and M[r, i].op == 'c':
                raise Unsupported('lstsq: dependent columns')
            if not piv and bool(sym.eq(M[r, i], sym.ZERO)):
                raise Unsupported('lstsq: dependent columns')
            M[[i, r]] = M[[r, i]]
            for k in range(n):
                if k != i and M[k, i] is not sym.ZERO:
                    f = sym.tidy(sym.div(M[k, i], M[i, i]))
                    for j in range(i, n + Y.shape[1]):
                        M[k, j] = sym.ZERO if j == i else sym.tidy(M[k, j] - f*M[i, j]) if j < n else M[k, j] - f*M[i, j]
        for i, c in enumerate(cols):
            for j in range(Y.shape[1]):
                out[c, j] = sym.mul(M[i, n+j], sym.tidy(sym.div(sym.ONE, M[i, i])))
        return (out.reshape(out.shape[0], *Bv.shape[1:]).view(SymArray), NP.zeros(0), n, None)


class _FFT(types.ModuleType):
    def __getattr__(self, k):
        f = getattr(_np.fft, k)

        def g(*a, **kw):
            if any(isinstance(x, SymArray) and x.dtype == object for x in a) and k not in ('fftshift', 'ifftshift'):
                raise Unsupported(f'np.fft.{k} of symbolic data')
            return wrap(f(*[base(x) for x in a], **kw))
        return g

    @staticmethod
    def _dft(v, sign):
        n = len(v)
        w = [SC(sym.cos(const(2*math.pi*k/n)), sym.neg(sym.sin(const(2*math.pi*k/n))) if sign < 0 else sym.sin(const(2*math.pi*k/n))) for k in range(n)]
        out = _np.empty(n, dtype=object)
        for j in range(n):
            t = SC(sym.ZERO, sym.ZERO)
            for k in range(n):
                x = SC.of(v[k])
                if x.re is not sym.ZERO or x.im is not sym.ZERO:
                    t = t + w[j*k % n]*x
            out[j] = t
        return out

    def fft2(self, a, s=None, axes=(-2, -1), norm=None, _sign=-1):
        a = base(NP.asarray(a))
        if a.ndim != 2 or s is not None or norm not in (None, 'backward') or tuple(sorted(x % 2 for x in axes)) != (0, 1):
            raise Unsupported('fft2')
        o = _np.empty(a.shape, dtype=object)
        for i in range(a.shape[0]):
            o[i] = self._dft(a[i], _sign)
        for j in range(a.shape[1]):
            o[:, j] = self._dft(o[:, j], _sign)
        r = o.view(SymArray)
        r.cplx = True
        return r

    def ifft2(self, a, **kw):
        r = self.fft2(a, _sign=1, **kw)
        return r/r.size


def to_float(x):
    """all-constant symbolic data -> float64"""
    a = base(NP.array(x))
    if a.dtype == object:
        return _np.array([float(v) for v in a.ravel()]).reshape(a.shape)
    return a


class Shim(types.ModuleType):
    linalg = _Linalg('numpy.linalg')
    fft = _FFT('numpy.fft')
    ndarray = _np.ndarray

    def __getattr__(self, k):
        v = getattr(_np, k)
        if isinstance(v, _np.ufunc):
            r = _Ufunc(v)
        elif isinstance(v, (types.FunctionType, types.BuiltinFunctionType)) or type(v).__name__ == '_ArrayFunctionDispatcher':
            def r(*a, **kw):
                if 'dtype' in kw and kw['dtype'] is symfloat:
                    kw['dtype'] = float
                return wrap(v(*a, **kw))
            r.__name__ = k
        else:
            return v
        self.__dict__[k] = r
        return r

    # creation ----------------------------------------------------------
    def array(self, x, dtype=None, copy=True, order='K', subok=False, ndmin=0, like=None):
        return _mkarray(x, dtype, copy, order, subok, ndmin)

    def asarray(self, x, dtype=None, order='K', **kw):
        return _mkarray(x, dtype, None, order)

    asanyarray = asarray

    def ascontiguousarray(self, x, dtype=None):
        return _mkarray(x, dtype, None, 'C', ndmin=1)

    def asfortranarray(self, x, dtype=None):
        return _mkarray(x, dtype, None, 'F', ndmin=1)

    def _alloc(self, shape, dtype, order, fill):
        d = norm_dtype(dtype) if dtype is not None else _np.dtype(float)
        if d.kind == 'f' or d == object:
            a = _np.empty(shape, dtype=object, order=order if order in 'CF' else 'C')
            for idx in _np.ndindex(a.shape):
                a[idx] = fill()
            return a.view(SymArray)
        if d.kind == 'c':
            a = _np.empty(shape, dtype=object, order=order if order in 'CF' else 'C')
            for idx in _np.ndindex(a.shape):
                a[idx] = SC(fill(), fill())
            r = a.view(SymArray)
            r.cplx = True
            return r
        a = _np.zeros(shape, dtype=d, order=order if order in 'CF' else 'C')
        v = fill()
        if isinstance(v, S) and v.op == 'v':
            # uninitialised integers / booleans: an arbitrary pattern
            for idx in _np.ndindex(a.shape):
                a[idx] = (CHOOSE() if d.kind == 'b' else 0)
        else:
            a[...] = int(v) if d.kind != 'b' else bool(v)
        return a.view(SymArray)

    def empty(self, shape, dtype=None, order='C', **kw):
        return self._alloc(shape, dtype, order, lambda: sym.var(f'uninit!{next(_uninit)}'))

    def zeros(self, shape, dtype=None, order='C', **kw):
        return self._alloc(shape, dtype, order, lambda: sym.ZERO)

    def ones(self, shape, dtype=None, order='C', **kw):
        return self._alloc(shape, dtype, order, lambda: sym.ONE)

    def full(self, shape, v, dtype=None, order='C', **kw):
        if dtype is None:
            dtype = self.array(v).dtype
        r = self._alloc(shape, dtype if dtype != object else float, order, lambda: sym.ZERO)
        r[...] = v if not isinstance(v, float) else lift(v)
        return r

    def _like(self, a, dtype, shape):
        a = self.asarray(a)
        d = dtype
        if d is None:
            d = a.dtype if a.dtype != object else (complex if a.cplx else float)
        f = a.flags.f_contiguous and not a.flags.c_contiguous
        return (a.shape if shape is None else shape), d, ('F' if f else 'C')

    def empty_like(self, a, dtype=None, order='K', subok=True, shape=None, **kw):
        s, d, o = self._like(a, dtype, shape)
        return self.empty(s, d, o)

    def zeros_like(self, a, dtype=None, order='K', subok=True, shape=None, **kw):
        s, d, o = self._like(a, dtype, shape)
        return self.zeros(s, d, o)

    def ones_like(self, a, dtype=None, order='K', subok=True, shape=None, **kw):
        s, d, o = self._like(a, dtype, shape)
        return self.ones(s, d, o)

    def full_like(self, a, v, dtype=None, order='K', subok=True, shape=None, **kw):
        s, d, o = self._like(a, dtype, shape)
        return self.full(s, v, d, o)

    def copy(self, a, order='K', subok=False):
        return _mkarray(a, None, True, order)

    def eye(self, n, *a, **kw):
        return self.array(_np.eye(n, *a))

    def identity(self, n, *a, **kw):
        return self.array(_np.eye(n))

    def linspace(self, a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
        num = int(num)
        div = num - 1 if endpoint else num
        la, lb = self.asarray(a), self.asarray(b)
        if la.ndim or lb.ndim:
            la, lb = _np.broadcast_arrays(base(la), base(lb))
            cols = [self.linspace(u, v, num, endpoint, True) for u, v in zip(la.ravel(), lb.ravel())]
            r = wrap(_np.moveaxis(_np.array([base(c[0]) for c in cols], dtype=object).reshape(*la.shape, num), -1, axis))
            return (r, self.array([c[1] for c in cols]).reshape(la.shape)) if retstep else r
        a, b = _lift1(la.item()), _lift1(lb.item())
        out = _np.empty(num, dtype=object)
        step = sym.div(sym.sub(b, a), const(div)) if div else NANV
        for i in range(num):
            if endpoint and i == num - 1 and num > 1:
                out[i] = b
            else:
                out[i] = sym.add(a, sym.mul(const(i), step)) if div else a
        out = out.view(SymArray)
        return (out, step) if retstep else out

    def arange(self, *a, **kw):
        if any(isinstance(x, S) for x in a):
            lo, hi, st = {1: (0, a[0], 1), 2: (*a, 1), 3: a}[len(a)]
            n = sym.CTX.concretize_int(_ceil(sym.div(sym.sub(_lift1(hi), _lift1(lo)), _lift1(st))))
            return self.array([_lift1(lo) + i*_lift1(st) for i in range(n)], dtype=float)
        return wrap(_np.arange(*a, **kw))

    def atleast_1d(self, *a):
        r = [x if isinstance(x, SymArray) and x.ndim >= 1 else self.array(x, ndmin=1) for x in a]
        return r[0] if len(r) == 1 else r

    def atleast_2d(self, *a):
        r = [x if isinstance(x, SymArray) and x.ndim >= 2 else self.array(x, ndmin=2) for x in a]
        return r[0] if len(r) == 1 else r

    # reductions --------------------------------------------------------
    def mean(self, a, axis=None, where=True, keepdims=False, dtype=None, **kw):
        x = self.asarray(a)
        if where is not True:
            w = self.asarray(where)
            w = self.array(_np.broadcast_to(base(w).astype(bool), x.shape))
            return self.sum(self.where(w, x, 0), axis=axis, keepdims=keepdims) / self.sum(w, axis=axis, keepdims=keepdims)
        if keepdims:
            kw['keepdims'] = True
        if x.dtype != object:
            return wrap(_np.mean(base(x), axis=axis, **kw))
        s = base(x).sum(axis=axis, **kw)
        n = x.size if axis is None else math.prod(x.shape[k] for k in (axis if isinstance(axis, tuple) else (axis,)))
        return wrap(s / n) if isinstance(s, _np.ndarray) else sym.div(_lift1(s), const(n)) if not isinstance(s, SC) else s / n

    def average(self, a, axis=None, weights=None, **kw):
        x = self.asarray(a)
        if weights is None:
            return self.mean(x, axis=axis)
        w = self.asarray(weights)
        return self.sum(x*w, axis=axis) / self.sum(w, axis=axis)

    def sum(self, a, axis=None, where=True, **kw):
        x = self.asarray(a)
        if where is not True:
            x = self.where(where, x, 0)
        r = base(x).sum(axis=axis, **kw)
        if x.dtype == object and not isinstance(r, _np.ndarray):
            return r if isinstance(r, SC) else _lift1(r)
        return wrap(r)

    def any(self, a, axis=None, **kw):
        x = base(self.asarray(a))
        return wrap(_np.any(x.astype(bool) if x.dtype == object else x, axis=axis, **kw))

    def all(self, a, axis=None, **kw):
        x = base(self.asarray(a))
        return wrap(_np.all(x.astype(bool) if x.dtype == object else x, axis=axis, **kw))

    def where(self, c, *a):
        c = self.asarray(c)
        c = base(c).astype(bool) if c.dtype == object else base(c)
        if not a:
            return wrap(_np.where(c))
        x, y = (base(self.asarray(q)) for q in a)
        return wrap(_np.where(c, x, y))

    def array_equal(self, a, b, equal_nan=False):
        try:
            x, y = self.asarray(a), self.asarray(b)
        except Exception:
            return False
        if x.shape != y.shape:
            return False
        return bool((x == y).all())

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        x, y = self.asarray(a, dtype=float), self.asarray(b, dtype=float)
        return abs(x - y) <= (atol + rtol*abs(y))

    def allclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        return bool(self.isclose(a, b, rtol, atol).all())

    def cross(self, a, b, *args, **kw):
        x, y = base(self.asarray(a, dtype=float)), base(self.asarray(b, dtype=float))
        if x.shape[-1] == 3 and y.shape[-1] == 3 and not args and not kw:
            r = [x[..., 1]*y[..., 2] - x[..., 2]*y[..., 1],
                 x[..., 2]*y[..., 0] - x[..., 0]*y[..., 2],
                 x[..., 0]*y[..., 1] - x[..., 1]*y[..., 0]]
            return wrap(_np.stack(_np.broadcast_arrays(*r), axis=-1)) if x.ndim > 1 or y.ndim > 1 else self.array(r, dtype=float)
        return wrap(_np.cross(x, y, *args, **kw))

    def isscalar(self, x):
        return isinstance(x, S) or _np.isscalar(x)

    def real(self, x):
        return x.real

    def imag(self, x):
        return x.imag

    def angle(self, x, deg=False):
        x = self.asarray(x)
        r = self.arctan2(x.imag, x.real)
        return self.degrees(r) if deg else r

    def fix(self, x):
        return self.trunc(self.asarray(x, dtype=float))

    def modf(self, x):
        t = self.trunc(self.asarray(x, dtype=float))
        return x - t, t

    def divmod(self, a, b):
        q = self.floor_divide(a, b)
        return q, a - q*b

    def interp(self, x, xp, fp, left=None, right=None, period=None):
        if period is not None:
            raise Unsupported('interp period')
        xp, fp = [[_lift1(v) for v in base(self.asarray(q)).ravel()] for q in (xp, fp)]

        def one(v):
            v = _lift1(v)
            if _isnan(v):
                return v
            if bool(sym.lt(v, xp[0])):
                return fp[0] if left is None else _lift1(left)
            if bool(sym.lt(xp[-1], v)):
                return fp[-1] if right is None else _lift1(right)
            for i in range(len(xp) - 1):
                if bool(sym.lt(v, xp[i+1])):
                    return sym.add(fp[i], sym.mul(sym.div(sym.sub(fp[i+1], fp[i]), sym.sub(xp[i+1], xp[i])), sym.sub(v, xp[i])))
            return fp[-1]
        a = self.asarray(x)
        r = _np.frompyfunc(one, 1, 1)(base(a))
        return wrap(r) if isinstance(r, _np.ndarray) else r

    def digitize(self, x, bins, right=False):
        return self.searchsorted(bins, x, side='left' if right else 'right')

    def nansum(self, a, axis=None, **kw):
        x = self.asarray(a)
        return self.sum(self.where(self.isnan(x), 0, x), axis=axis, **kw)

    def nanmean(self, a, axis=None, **kw):
        x = self.asarray(a)
        return self.mean(x, axis=axis, where=~self.isnan(x), **kw)

    def array2string(self, x, **kw):
        return repr(base(self.asarray(x)).tolist())


class _Ufunc:
    """callable ufunc with scalar support"""
    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__

    def __call__(self, *a, **kw):
        f = UF.get(self.u.__name__)
        out = kw.get('out')
        if f is None:
            return wrap(self.u(*a, **kw))
        arr = [x if isinstance(x, _np.ndarray) else (NP.asarray(x) if isinstance(x, (list, tuple)) else x) for x in a]
        if any(isinstance(x, SymArray) for x in arr) or out is not None:
            return self.u(*[x if isinstance(x, _np.ndarray) else x for x in arr], **kw)
        if any(isinstance(x, _np.ndarray) for x in arr):
            return self.u(*[wrap(x) if isinstance(x, _np.ndarray) else x for x in arr], **kw)
        # scalars
        if all(isinstance(x, (int, float, complex, _np.number, _np.bool_)) for x in a) and self.u.__name__ not in \
                ('sqrt', 'sin', 'cos', 'tan', 'hypot', 'arctan', 'arctan2', 'arcsin', 'arccos', 'exp'):
            return self.u(*a, **kw)
        r = f[0](*a)
        return bool(r) if f[1] else r

    def __getattr__(self, k):
        v = getattr(self.u, k)
        if callable(v):
            def g(*a, **kw):
                return wrap(v(*[base(x) for x in a], **kw))
            return g
        return v


NANV = float('nan')
CHOOSE = lambda: False
NP = Shim('numpy')
NP.__file__ = _np.__file__
NP.__path__ = []


class MathShim(types.ModuleType):
    """`math` for the modules under test: terms stay terms, numbers are numbers"""
    _two = {'atan2': lambda a, b: sym.uf('atan2', a, b), 'fmod': _fmod, 'copysign': _copysign, 'pow': _pow}
    _one = {'sin': sym.sin, 'cos': sym.cos, 'tan': _tan, 'asin': sym.arcsin, 'acos': sym.arccos, 'atan': lambda a: sym.uf('atan', a),
            'exp': lambda a: sym.uf('exp', a), 'log': lambda a: sym.uf('log', a), 'fabs': sym.fabs,
            'radians': lambda a: sym.mul(a, const(math.pi/180)), 'degrees': lambda a: sym.mul(a, const(180/math.pi))}

    def __getattr__(self, k):
        f = getattr(math, k)
        if not callable(f):
            return f
        one, two = self._one.get(k), self._two.get(k)

        def g(*a, **kw):
            if not any(_has_sym(x) for x in a):
                return f(*a, **kw)
            if any(isinstance(x, SymArray) and x.ndim for x in a):
                raise TypeError('only 0-dimensional arrays can be converted to Python scalars')
            a = [_lift1(x.item() if isinstance(x, SymArray) else x) for x in a]
            if one and len(a) == 1:
                return one(*a)
            if two and len(a) == 2:
                return two(*a)
            raise Unsupported(f'math.{k} of symbolic value')
        g.__name__ = k
        self.__dict__[k] = g
        return g

    def sqrt(self, x):
        if not _has_sym(x):
            return math.sqrt(x)
        x = _lift1(x.item() if isinstance(x, SymArray) else x)
        if bool(sym.lt(x, sym.ZERO)):
            raise ValueError('math domain error')
        return sym.sqrt(x)

    def hypot(self, *a):
        if not any(_has_sym(x) for x in a):
            return math.hypot(*a)
        return sym.sqrt(sum((_lift1(x)*_lift1(x) for x in a), sym.ZERO))

    def dist(self, p, q):
        return self.hypot(*[a - b for a, b in zip(p, q)])

    def fsum(self, v):
        v = list(v)
        return sum(v, sym.ZERO) if _has_sym(v) else math.fsum(v)

    def prod(self, v, *, start=1):
        for x in v:
            start = start*x
        return start

    def sumprod(self, p, q):
        return self.fsum(a*b for a, b in zip(p, q))

    def isnan(self, x): return _isnan(_lift1(x))
    def isinf(self, x): return bool(UF['isinf'][0](_lift1(x)))
    def isfinite(self, x): return bool(UF['isfinite'][0](_lift1(x)))

    def isclose(self, a, b, *, rel_tol=1e-9, abs_tol=0.0):
        if not _has_sym([a, b]):
            return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        d = sym.fabs(sym.sub(_lift1(a), _lift1(b)))
        m = _max(_max(sym.mul(const(rel_tol), sym.fabs(_lift1(a))), sym.mul(const(rel_tol), sym.fabs(_lift1(b)))), const(abs_tol))
        return bool(sym.le(d, m))

    def floor(self, x): return math.floor(x) if not _has_sym(x) else sym.CTX.concretize_int(sym.floor(_lift1(x)))
    def ceil(self, x): return math.ceil(x) if not _has_sym(x) else sym.CTX.concretize_int(_ceil(x))
    def trunc(self, x): return math.trunc(x) if not _has_sym(x) else sym.CTX.concretize_int(sym.trunc(_lift1(x)))


MATH = MathShim('math')
