"""Symbolic values and the path explorer.

S  : a term over the reals (hash-consed DAG).  IEEE specials are *not* terms:
     nan / +inf / -inf are carried as Python floats, and every operation that
     can create one (x/0, sqrt(<0), ...) forks the path.
B  : a formula over S terms.  bool(B) asks the current Context to decide it.
"""
import math, numbers, itertools
from fractions import Fraction

NAN = float('nan')
INF = float('inf')


class Unsupported(Exception):
    """The code under test does something the encoder has no semantics for."""


class PathAbort(BaseException):
    """The current path is infeasible or was cut."""


class Fault(BaseException):
    """The code under test performed an erroneous access on this path."""
    def __init__(self, kind, detail):
        self.kind, self.detail = kind, detail
        super().__init__(f"{kind}: {detail}")


_table = {}
_ids = itertools.count()


def _mk(op, args, val=None):
    key = (op, tuple(a.id if isinstance(a, (S, B)) else a for a in args), val)
    n = _table.get(key)
    if n is None:
        n = S(op, args, val)
        _table[key] = n
    return n


class S:
    __slots__ = ('op', 'args', 'val', 'id', 'sg', '__weakref__')

    def __init__(self, op, args, val):
        self.op, self.args, self.val = op, args, val
        self.id = next(_ids)
        self.sg = _sign0(self)

    # --- arithmetic -----------------------------------------------------
    def __add__(a, b): return binop(add, a, b)
    def __radd__(a, b): return binop(add, b, a)
    def __sub__(a, b): return binop(sub, a, b)
    def __rsub__(a, b): return binop(sub, b, a)
    def __mul__(a, b): return binop(mul, a, b)
    def __rmul__(a, b): return binop(mul, b, a)
    def __truediv__(a, b): return binop(div, a, b)
    def __rtruediv__(a, b): return binop(div, b, a)
    def __floordiv__(a, b): return binop(lambda x, y: floor(div(x, y)), a, b)
    def __rfloordiv__(a, b): return binop(lambda x, y: floor(div(x, y)), b, a)
    def __mod__(a, b):
        return binop(lambda x, y: sub(x, mul(y, floor(div(x, y)))), a, b)
    def __neg__(a): return neg(a)
    def __pos__(a): return a
    def __abs__(a): return fabs(a)
    def __pow__(a, n): return power(a, n)
    def __rpow__(a, b): raise Unsupported("symbolic exponent")
    def __lt__(a, b): return cmpop(lt, a, b)
    def __le__(a, b): return cmpop(le, a, b)
    def __gt__(a, b): return cmpop(lambda x, y: lt(y, x), a, b)
    def __ge__(a, b): return cmpop(lambda x, y: le(y, x), a, b)
    def __eq__(a, b):
        r = cmpop(eq, a, b)
        return False if r is NotImplemented else r
    def __ne__(a, b):
        r = cmpop(eq, a, b)
        if r is NotImplemented:
            return True
        return (not r) if isinstance(r, bool) else b_not(r)
    def __hash__(self): return CTX.hash_of(self) if CTX is not None else self.id
    def __bool__(self):
        r = eq(self, ZERO)
        return not bool(r)
    def __float__(self):
        if self.op == 'c':
            return float(self.val)
        raise TypeError("symbolic value has no float()")
    def __int__(self):
        if self.op == 'c':
            return int(self.val)
        return CTX.concretize_int(trunc(self))
    def __index__(self):
        if self.op == 'c' and self.val.denominator == 1:
            return int(self.val)
        raise TypeError("symbolic value used as index")
    def __floor__(self): return floor(self)
    def __trunc__(self): return int(self)
    def __ceil__(self): return neg(floor(neg(self)))
    def __divmod__(a, b):
        q = a // b
        return q, a - q*b
    def __rdivmod__(a, b):
        q = b // a
        return q, b - q*a
    def __round__(self, n=None): raise Unsupported("round of symbolic value")
    def __repr__(self): return show(self)
    def __format__(self, spec): return show(self)
    def __reduce__(self): return (_unpickle_s, (self.id,))
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    # numpy object-ufunc hooks
    def sqrt(self): return sqrt(self)
    def sin(self): return sin(self)
    def cos(self): return cos(self)
    def tan(self): return div(sin(self), cos(self))
    def hypot(self, o): return hypot(self, o)
    def arctan2(self, o): return uf('atan2', self, lift(o))
    def arcsin(self): return arcsin(self)
    def arccos(self): return arccos(self)
    def arctan(self): return uf('atan', self)
    def exp(self): return uf('exp', self)
    def floor(self): return floor(self)
    def rint(self): raise Unsupported("rint of symbolic value")
    def conjugate(self): return self
    def item(self): return self
    def copy(self): return self
    def tolist(self): return self
    def sum(self): return self
    def mean(self): return self
    def trunc(self): return trunc(self)
    def log(self): return uf('log', self)
    @property
    def size(self): return 1
    @property
    def real(self): return self
    @property
    def imag(self): return ZERO
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0


def _unpickle_s(i):
    for n in _table.values():
        if n.id == i:
            return n
    raise KeyError(i)


numbers.Real.register(S)


def const(v):
    if isinstance(v, Fraction):
        if v.denominator.bit_length() > 400 and CTX is not None and CTX.numeric:
            v = Fraction(round(v * 2**200), 2**200)
        return _mk('c', (), v)
    return _mk('c', (), Fraction(v))


def is_special(x):
    return isinstance(x, float) and not math.isfinite(x)


def lift(x):
    """Python / numpy number -> S, or a special float."""
    if isinstance(x, S):
        return x
    if isinstance(x, B):
        return const(1) if bool(x) else const(0)
    if isinstance(x, (bool, int, Fraction)):
        return const(Fraction(x))
    if isinstance(x, float):
        if math.isfinite(x):
            return const(Fraction(x))
        return x
    if hasattr(x, 'dtype') and getattr(x, 'shape', None) == ():
        return lift(x.item())
    return None


def var(name):
    return _mk('v', (), name)


def show(n, depth=6):
    if isinstance(n, float):
        return repr(n)
    if isinstance(n, B):
        return showb(n, depth)
    if n.op == 'c':
        return str(n.val)
    if n.op == 'v':
        return n.val
    if depth == 0:
        return '…'
    if n.op in '+*/':
        return '(' + f' {n.op} '.join(show(a, depth-1) for a in n.args) + ')'
    return f"{n.op if n.op != 'uf' else n.val}(" + ', '.join(show(a, depth-1) for a in n.args) + ')'


# signs: '+', '-', '0', '>=', '<=', '!=', '?'
def _sign0(n):
    op = n.op
    if op == 'c':
        return '+' if n.val > 0 else ('-' if n.val < 0 else '0')
    if op == 'sqrt':
        return '+' if n.args[0].sg == '+' else '>='
    if op == '*':
        a, b = n.args
        if a is b:
            return '+' if a.sg in '+-' or a.sg == '!=' else '>='
        return _smul(a.sg, b.sg)
    if op == '/':
        a, b = n.args
        sb = {'>=': '+', '<=': '-', '?': '!='}.get(b.sg, b.sg)
        return _smul(a.sg, sb)
    if op == '+':
        s = _sadd(n.args[0].sg, n.args[1].sg)
        return s
    if op == 'uf' and n.val == 'exp':
        return '+'
    return '?'


def _smul(a, b):
    if a == '0' or b == '0':
        return '0'
    if a == '?' or b == '?':
        return '?'
    if a == '!=' or b == '!=':
        return '!=' if a in ('+', '-', '!=') and b in ('+', '-', '!=') else '?'
    sa = 1 if a in ('+', '>=') else -1
    sb = 1 if b in ('+', '>=') else -1
    strict = a in '+-' and b in '+-'
    return ('+' if strict else '>=') if sa*sb > 0 else ('-' if strict else '<=')


def _sadd(a, b):
    if a == '0':
        return b
    if b == '0':
        return a
    P, M = ('+', '>='), ('-', '<=')
    if a in P and b in P:
        return '+' if '+' in (a, b) else '>='
    if a in M and b in M:
        return '-' if '-' in (a, b) else '<='
    return '?'


CTX = None
ZERO = const(0)
ONE = const(1)
TWO = const(2)


def binop(f, a, b):
    a2, b2 = lift(a), lift(b)
    if a2 is None or b2 is None:
        if isinstance(a, complex) or isinstance(b, complex):
            return f(to_c(a), to_c(b)) if False else _cbin(f, a, b)
        return NotImplemented
    return f(a2, b2)


def _cbin(f, a, b):
    ca, cb = SC.of(a), SC.of(b)
    return {add: ca.__add__, sub: ca.__sub__, mul: ca.__mul__, div: ca.__truediv__}[f](cb)


def cmpop(f, a, b):
    a2, b2 = lift(a), lift(b)
    if a2 is None or b2 is None:
        return NotImplemented
    return f(a2, b2)


# ---- arithmetic on lifted values (S or special float) -------------------
def add(a, b):
    fa, fb = isinstance(a, float), isinstance(b, float)
    if fa or fb:
        if fa and fb:
            return a + b
        return a if fa else b
    if a.op == 'c' and b.op == 'c':
        return const(a.val + b.val)
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if a.op == 'neg1' or b.op == 'neg1':
        pass
    # x + (-x)
    na, nb = _negof(a), _negof(b)
    if na is b or nb is a:
        return ZERO
    if a.id > b.id:
        a, b = b, a
    return _mk('+', (a, b))


def _negof(a):
    if a.op == 'c':
        return const(-a.val)
    if a.op == '*' and a.args[0].op == 'c' and a.args[0].val == -1:
        return a.args[1]
    return None


def neg(a):
    if isinstance(a, float):
        return -a
    return mul(MONE, a)


def sub(a, b):
    return add(a, neg(b))


def _sgn_decide(x):
    """sign of an S term, forking: -1, 0, 1"""
    if x.sg in '+-0':
        return {'+': 1, '-': -1, '0': 0}[x.sg]
    if bool(lt(ZERO, x)):
        return 1
    if bool(eq(x, ZERO)):
        return 0
    return -1


def mul(a, b):
    fa, fb = isinstance(a, float), isinstance(b, float)
    if fa or fb:
        if fa and fb:
            return a * b
        f, s = (a, b) if fa else (b, a)
        if f != f:
            return f
        g = _sgn_decide(s)
        return NAN if g == 0 else f * g
    if a.op == 'c' and b.op == 'c':
        return const(a.val * b.val)
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    if b.op == 'c':
        a, b = b, a
    if a.op == 'c':
        if b.op == '*' and b.args[0].op == 'c':
            return mul(const(a.val * b.args[0].val), b.args[1])
        return _mk('*', (a, b))
    # pull constants outwards
    c = None
    if a.op == '*' and a.args[0].op == 'c':
        c, a = a.args[0], a.args[1]
    if b.op == '*' and b.args[0].op == 'c':
        c = b.args[0] if c is None else const(c.val * b.args[0].val)
        b = b.args[1]
    if a is b and a.op == 'sqrt':
        r = a.args[0]
    else:
        if a.id > b.id:
            a, b = b, a
        r = _mk('*', (a, b))
    return r if c is None else mul(c, r)


MONE = const(-1)


def div(a, b):
    fa, fb = isinstance(a, float), isinstance(b, float)
    if fb:
        if b != b:
            return b
        if fa:
            return NAN          # inf/inf or nan/inf
        return ZERO
    if b.op == 'c' and b.val != 0 or b.sg in ('+', '-', '!='):
        nz = True
    else:
        nz = not bool(eq(b, ZERO))
    if not nz:
        if fa:
            return NAN if a != a else a
        g = _sgn_decide(a)
        return NAN if g == 0 else INF * g
    if fa:
        if a != a:
            return a
        return a * _sgn_decide(b)
    if a.op == 'c' and b.op == 'c':
        return const(a.val / b.val)
    if a is ZERO:
        return ZERO
    if b is ONE:
        return a
    if a is b:
        return ONE
    if b.op == 'c':
        return mul(const(1 / b.val), a)
    return _mk('/', (a, b))


def power(a, n):
    if isinstance(n, S) and n.op == 'c':
        n = n.val
    if isinstance(n, float) and n == int(n):
        n = int(n)
    if n == 0.5 or n == Fraction(1, 2):
        return sqrt(a)
    if not isinstance(n, (int, Fraction)) or Fraction(n).denominator != 1:
        if hasattr(n, 'item'):
            return power(a, n.item())
        raise Unsupported(f"power {n!r}")
    n = int(n)
    if n < 0:
        return div(ONE, power(a, -n))
    r = ONE
    for _ in range(n):
        r = mul(r, a)
    return r


def fabs(a):
    if isinstance(a, float):
        return abs(a)
    if a.sg in ('+', '>=', '0'):
        return a
    if a.sg in ('-', '<='):
        return neg(a)
    return neg(a) if bool(lt(a, ZERO)) else a


def sqrt(a):
    a = lift(a)
    if isinstance(a, float):
        return a if a != a or a > 0 else NAN
    if a.op == 'c':
        if a.val < 0:
            return NAN
        n, d = math.isqrt(a.val.numerator), math.isqrt(a.val.denominator)
        if n*n == a.val.numerator and d*d == a.val.denominator:
            return const(Fraction(n, d))
        if CTX is not None and CTX.numeric:
            return const(Fraction(math.sqrt(a.val)))
        return _mk('sqrt', (a,))
    if a.sg not in ('+', '>=', '0'):
        if bool(lt(a, ZERO)):
            return NAN
    if a.op == '*' and a.args[0] is a.args[1]:
        return fabs(a.args[0])
    if a.op == '*' and a.args[0].op == 'c' and a.args[1].op == '*' and a.args[1].args[0] is a.args[1].args[1]:
        return mul(sqrt(a.args[0]), fabs(a.args[1].args[0]))
    return _mk('sqrt', (a,))


def hypot(a, b):
    a, b = lift(a), lift(b)
    if is_special(a) or is_special(b):
        for q in (a, b):
            if isinstance(q, float) and math.isinf(q):
                return INF
        return NAN
    return sqrt(add(mul(a, a), mul(b, b)))


def _trig_canon(a):
    """(sign, canonical argument)"""
    if a.op == 'c':
        return (-1, const(-a.val)) if a.val < 0 else (1, a)
    if a.op == '*' and a.args[0].op == 'c' and a.args[0].val < 0:
        return -1, neg(a)
    return 1, a


def _multiple(a):
    """(k, t) with a = k t, t an inverse trigonometric function and k one of 2, 1/2"""
    if a.op == '*' and len(a.args) == 2 and a.args[0].op == 'c' and a.args[0].val in (2, Fraction(1, 2)):
        t = a.args[1]
        if t.op == 'uf' and t.val in ('asin', 'acos', 'atan'):
            return a.args[0].val, t
    return None


def _turn(a):
    """k when the constant a is k pi/12 to rounding, k a multiple of 2 or 3; else None"""
    if a.op != 'c' or abs(a.val) > 100:
        return None
    q = float(a.val)*12/math.pi
    k = round(q)
    return k % 24 if abs(q - k) < 1e-13*max(1, abs(k)) and (k % 2 == 0 or k % 3 == 0) else None


def _sin_turn(k):
    if k > 12:
        return neg(_sin_turn(k - 12))
    if k > 6:
        k = 12 - k
    return {0: ZERO, 2: const(Fraction(1, 2)), 3: mul(const(Fraction(1, 2)), sqrt(const(2))),
            4: mul(const(Fraction(1, 2)), sqrt(const(3))), 6: ONE}[k]


def _surd_mul(p, q):
    a, b, c, d = p
    e, f, g, k = q
    return (a*e + 2*b*f + 3*c*g + 6*d*k, a*f + b*e + 3*(c*k + d*g), a*g + c*e + 2*(b*k + d*f), a*k + d*e + b*g + c*f)


def surd(x, memo=None):
    """coefficients over (1, sqrt2, sqrt3, sqrt6) of a term without variables, or None"""
    memo = {} if memo is None else memo
    if x in memo:
        return memo[x]
    r = None
    if x.op == 'c':
        r = (x.val, 0, 0, 0)
    elif x.op == 'sqrt' and x.args[0].op == 'c' and x.args[0].val > 0:
        v = x.args[0].val
        for k, q in enumerate((1, 2, 3, 6)):
            n, d = math.isqrt((v/q).numerator), math.isqrt((v/q).denominator)
            if Fraction(n*n, d*d) == v/q:
                r = tuple(Fraction(n, d) if j == k else 0 for j in range(4))
    elif x.op == '+':
        p = [surd(y, memo) for y in x.args]
        if None not in p:
            r = tuple(sum(c) for c in zip(*p))
    elif x.op == '*':
        r = (1, 0, 0, 0)
        for y in x.args:
            q = surd(y, memo)
            if q is None:
                r = None
                break
            r = _surd_mul(r, q)
    elif x.op == '/':
        p, q = surd(x.args[0], memo), surd(x.args[1], memo)
        if p is not None and q is not None:
            a, b, c, d = q
            m = (a, -b, c, -d)                 # conjugate in sqrt2: product in Q(sqrt3)
            n = _surd_mul(q, m)
            m = _surd_mul(m, (n[0], 0, -n[2], 0))
            n = n[0]*n[0] - 3*n[2]*n[2]
            if n:
                r = tuple(v/n for v in _surd_mul(p, m))
    memo[x] = r
    return r


def tidy(x):
    """x itself, or the plain form of a number"""
    q = surd(x)
    if q is None:
        return x
    r = const(q[0])
    for k, c in zip((2, 3, 6), q[1:]):
        if c:
            r = add(r, mul(const(c), sqrt(const(k))))
    return r


def sin(a):
    a = lift(a)
    if isinstance(a, float):
        return NAN
    if a is ZERO:
        return ZERO
    k = _turn(a)
    if k is not None:
        return _sin_turn(k)
    if a.op == 'c' and CTX is not None and CTX.numeric:
        return const(Fraction(math.sin(a.val)))
    m = _multiple(a)
    if m:
        if m[0] == 2:
            return mul(const(2), mul(sin(m[1]), cos(m[1])))
        if m[1].val == 'acos':      # half angle in [0, pi/2]
            return sqrt(div(sub(ONE, cos(m[1])), const(2)))
        return div(sin(m[1]), mul(const(2), cos(a)))
    if a.op == 'uf' and a.val == 'asin':
        return a.args[0]
    if a.op == 'uf' and a.val == 'acos':
        return sqrt(sub(ONE, mul(a.args[0], a.args[0])))
    if a.op == 'uf' and a.val == 'atan':
        x = a.args[0]
        return div(x, sqrt(add(ONE, mul(x, x))))
    if a.op == 'uf' and a.val == 'atan2':
        y, x = a.args
        h = hypot(y, x)
        if bool(eq(h, ZERO)):
            return ZERO
        return div(y, h)
    s, c = _trig_canon(a)
    r = _mk('uf', (c,), 'sin')
    return r if s > 0 else neg(r)


def cos(a):
    a = lift(a)
    if isinstance(a, float):
        return NAN
    if a is ZERO:
        return ONE
    k = _turn(a)
    if k is not None:
        return _sin_turn((k + 6) % 24)
    if a.op == 'c' and CTX is not None and CTX.numeric:
        return const(Fraction(math.cos(a.val)))
    m = _multiple(a)
    if m:
        c = cos(m[1])
        if m[0] == 2:
            return sub(mul(const(2), mul(c, c)), ONE)
        return sqrt(div(add(ONE, c), const(2)))
    if a.op == 'uf' and a.val == 'acos':
        return a.args[0]
    if a.op == 'uf' and a.val == 'asin':
        return sqrt(sub(ONE, mul(a.args[0], a.args[0])))
    if a.op == 'uf' and a.val == 'atan':
        x = a.args[0]
        return div(ONE, sqrt(add(ONE, mul(x, x))))
    if a.op == 'uf' and a.val == 'atan2':
        y, x = a.args
        h = hypot(y, x)
        if bool(eq(h, ZERO)):
            return ONE
        return div(x, h)
    s, c = _trig_canon(a)
    return _mk('uf', (c,), 'cos')


def arcsin(a):
    a = lift(a)
    if is_special(a):
        return NAN
    if bool(lt(ONE, fabs(a))):
        return NAN
    return uf('asin', a)


def arccos(a):
    a = lift(a)
    if is_special(a):
        return NAN
    if a.op == 'uf' and a.val == 'cos':
        t = a.args[0]       # |cos| <= 1
        if bool(b_and(le(ZERO, t), le(t, const(Fraction(math.pi))))):
            return t
        return uf('acos', a)
    if bool(lt(ONE, fabs(a))):
        return NAN
    return uf('acos', a)


def _atan_of_tan(q):
    """t when q is identically tan(t) and |t| < pi/2"""
    sines, seen, todo = [], set(), [q]
    while todo and len(seen) < 200:
        n = todo.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op == 'uf' and n.val == 'sin':
            sines.append(n)
        todo += n.args
    if todo or not sines:
        return None
    from . import prove
    h = const(Fraction(math.pi/2))
    for n in sines[:4]:
        t = n.args[0]
        try:
            if prove.Encoder().rf(sub(mul(q, cos(t)), n))[0]:
                continue
        except Exception:
            continue
        if bool(b_and(lt(neg(h), t), lt(t, h))):
            return t
    return None


def uf(name, *args):
    args = tuple(lift(a) for a in args)
    if any(is_special(a) for a in args):
        return NAN
    if name == 'atan2' and args[0] is ZERO and args[1].sg == '+':
        return ZERO
    if name in ('asin', 'atan') and args[0] is ZERO:
        return ZERO
    if name == 'exp' and args[0] is ZERO:
        return ONE
    if name == 'atan':
        r = _atan_of_tan(args[0])
        if r is not None:
            return r
    return _mk('uf', args, name)


def floor(a):
    a = lift(a)
    if isinstance(a, float):
        return a
    if a.op == 'c':
        return const(math.floor(a.val))
    if a.op == 'floor':
        return a
    return _mk('floor', (a,))


def trunc(a):
    if a.op == 'c':
        return const(int(a.val))
    if a.op == 'floor' or is_integral(a):
        return a
    if bool(lt(a, ZERO)):
        return neg(floor(neg(a)))
    return floor(a)


def is_integral(a):
    if a.op == 'c':
        return a.val.denominator == 1
    if a.op == 'floor':
        return True
    if a.op in '+*':
        return all(is_integral(x) for x in a.args)
    return False


# --------------------------------------------------------------------- B
class B:
    __slots__ = ('op', 'args', 'id')

    def __init__(self, op, args):
        self.op, self.args = op, args
        self.id = next(_ids)

    def __bool__(self): return CTX.decide(self)
    def __and__(a, b): return b_and(a, b)
    def __rand__(a, b): return b_and(b, a)
    def __or__(a, b): return b_or(a, b)
    def __ror__(a, b): return b_or(b, a)
    def __xor__(a, b): return b_xor(a, b)
    def __rxor__(a, b): return b_xor(b, a)
    def __invert__(a): return b_not(a)
    def __eq__(a, b): return b_not(b_xor(a, _boolish(b)))
    def __ne__(a, b): return b_xor(a, _boolish(b))
    def __hash__(self): return self.id
    def __repr__(self): return showb(self)
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def logical_not(self): return b_not(self)


def _boolish(b):
    if isinstance(b, B):
        return b
    return bool(b)


TRUE, FALSE = True, False
_btable = {}


def _mkb(op, args):
    key = (op, tuple(a.id if isinstance(a, (S, B)) else a for a in args))
    n = _btable.get(key)
    if n is None:
        n = _btable[key] = B(op, args)
    return n


def showb(b, depth=6):
    if isinstance(b, bool):
        return str(b)
    if b.op == 'bv':
        return b.args[0]
    if b.op == 'not':
        return f"!({showb(b.args[0], depth)})"
    if b.op in ('and', 'or', 'xor'):
        return '(' + f' {b.op} '.join(showb(a, depth-1) for a in b.args) + ')'
    return f"({show(b.args[0], depth-1)} {b.op} {show(b.args[1], depth-1)})"


def bvar(name):
    return _mkb('bv', (name,))


def b_not(a):
    if isinstance(a, bool):
        return not a
    if a.op == 'not':
        return a.args[0]
    if a.op == '<':
        return le(a.args[1], a.args[0])
    if a.op == '<=':
        return lt(a.args[1], a.args[0])
    return _mkb('not', (a,))


def b_and(*xs):
    out = []
    for x in xs:
        if not isinstance(x, B):
            if not bool(x):
                return False
        elif x.op == 'and':
            out.extend(x.args)
        else:
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else _mkb('and', tuple(out))


def b_or(*xs):
    out = []
    for x in xs:
        if not isinstance(x, B):
            if bool(x):
                return True
        elif x.op == 'or':
            out.extend(x.args)
        else:
            out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else _mkb('or', tuple(out))


def b_implies(a, b):
    return b_or(b_not(a), b)


def b_iff(a, b):
    return b_not(b_xor(a, b))


def b_xor(a, b):
    if not isinstance(a, B):
        return b_not(b) if bool(a) else b
    if not isinstance(b, B):
        return b_not(a) if bool(b) else a
    if a is b:
        return False
    return _mkb('xor', (a, b))


def b_forall(xs):
    return b_and(*xs)


def lt(a, b):
    fa, fb = isinstance(a, float), isinstance(b, float)
    if fa or fb:
        if fa and fb:
            return a < b
        f = a if fa else b
        if f != f:
            return False
        return (a < 0) if fa else (b > 0)
    if a.op == 'c' and b.op == 'c':
        return a.val < b.val
    if a is b:
        return False
    s = sub(b, a).sg
    if s == '+':
        return True
    if s in ('-', '<=', '0'):
        return False
    if is_integral(a) and is_integral(b):
        return le(add(a, ONE), b)
    return _mkb('<', (a, b))


def le(a, b):
    fa, fb = isinstance(a, float), isinstance(b, float)
    if fa or fb:
        if fa and fb:
            return a <= b
        f = a if fa else b
        if f != f:
            return False
        return (a < 0) if fa else (b > 0)
    if a.op == 'c' and b.op == 'c':
        return a.val <= b.val
    if a is b:
        return True
    s = sub(b, a).sg
    if s in ('+', '>=', '0'):
        return True
    if s == '-':
        return False
    return _mkb('<=', (a, b))


def eq(a, b):
    fa, fb = isinstance(a, float), isinstance(b, float)
    if fa or fb:
        return (a == b) if (fa and fb) else False
    if a.op == 'c' and b.op == 'c':
        return a.val == b.val
    if a is b:
        return True
    s = sub(a, b).sg
    if s in ('+', '-', '!='):
        return False
    if s == '0':
        return True
    if a.id > b.id:
        a, b = b, a
    return _mkb('==', (a, b))


def same(a, b):
    """Bitwise-agreement in the extended reals: nan equals nan."""
    a, b = lift(a), lift(b)
    if isinstance(a, float) and isinstance(b, float):
        return (a == b) or (a != a and b != b)
    if isinstance(a, float) or isinstance(b, float):
        return False
    return eq(a, b)


class SC:
    """Symbolic complex number."""
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = lift(re), lift(im)

    @staticmethod
    def of(x):
        if isinstance(x, SC):
            return x
        if isinstance(x, complex):
            return SC(x.real, x.imag)
        return SC(lift(x), ZERO)

    def __add__(a, b):
        b = SC.of(b)
        return SC(add(a.re, b.re), add(a.im, b.im))
    __radd__ = __add__

    def __sub__(a, b):
        b = SC.of(b)
        return SC(sub(a.re, b.re), sub(a.im, b.im))

    def __rsub__(a, b): return SC.of(b) - a
    def __neg__(a): return SC(neg(a.re), neg(a.im))

    def __mul__(a, b):
        b = SC.of(b)
        return SC(sub(mul(a.re, b.re), mul(a.im, b.im)), add(mul(a.re, b.im), mul(a.im, b.re)))
    __rmul__ = __mul__

    def __truediv__(a, b):
        b = SC.of(b)
        d = add(mul(b.re, b.re), mul(b.im, b.im))
        n = a * SC(b.re, neg(b.im))
        return SC(div(n.re, d), div(n.im, d))

    def __rtruediv__(a, b): return SC.of(b) / a
    def conjugate(a): return SC(a.re, neg(a.im))
    @property
    def real(a): return a.re
    @property
    def imag(a): return a.im
    def __abs__(a): return hypot(a.re, a.im)
    def exp(a):
        return SC(cos(a.im), sin(a.im)) * SC(uf('exp', a.re), ZERO)
    def __repr__(a): return f"({a.re!r} + {a.im!r}j)"


# ------------------------------------------------------------ exploration
CTX = None


class Context:
    """One execution path of the code under test."""
    numeric = False       # irrational constants rounded to doubles
    roots = False         # Zernike basis functions with exact square roots

    def __init__(self, ex, prefix):
        self.ex = ex                 # Explorer
        self.prefix = prefix         # list of (bool) decisions to replay
        self.k = 0
        self.pc = []                 # decided formulas
        self.pcset = {}
        self.assumed = []
        self.hashed = []
        self.fresh = itertools.count()
        self.events = []

    def assume(self, b):
        if isinstance(b, bool):
            if not b:
                raise PathAbort()
            return
        self._push(b)
        self.assumed.append(b)

    def _push(self, b):
        if isinstance(b, bool):
            return
        if b.op == 'and':
            for x in b.args:
                self._push(x)
        self.pc.append(b)
        self.pcset[b.id] = True
        nb = b_not(b)
        if isinstance(nb, B):
            self.pcset[nb.id] = False
        # a strict comparison settles the matching equality and reverse
        if b.op == '<':
            x, y = b.args
            for o, v in ((eq(x, y), False), (lt(y, x), False), (le(x, y), True)):
                if isinstance(o, B):
                    self.pcset.setdefault(o.id, v)
        elif b.op == '==':
            x, y = b.args
            for o, v in ((lt(x, y), False), (lt(y, x), False), (le(x, y), True), (le(y, x), True)):
                if isinstance(o, B):
                    self.pcset.setdefault(o.id, v)

    def decide(self, b):
        if isinstance(b, bool):
            return b
        v = self.pcset.get(b.id)
        if v is not None:
            return v
        if self.k < len(self.prefix):
            v = self.prefix[self.k]
        else:
            t = self.ex.feasible(self, b)
            if t is False:
                v = False
                f = True
            else:
                f = self.ex.feasible(self, b_not(b))
                v = True
            if t is False and not self.ex.feasible(self, b_not(b)):
                # both infeasible: the path itself is infeasible
                raise PathAbort()
            if v and f:
                self.ex.todo.append(self.prefix[:self.k] + [False])
            self.prefix = self.prefix[:self.k] + [v]
        self.k += 1
        self._push(b if v else b_not(b))
        if self.k > self.ex.max_depth:
            raise Unsupported(f"path deeper than {self.ex.max_depth} decisions")
        return v

    def choose(self, name):
        """A fresh nondeterministic boolean."""
        return self.decide(bvar(name))

    def concretize_int(self, s):
        """value of an integer-valued term (the path forks over its values)"""
        if s.op == 'c':
            return int(s.val)
        fl = floors_of(s)
        if not (len(fl) == 1 and fl[0] is s) and fl:
            vals = {}
            for f in fl:
                vals[f.id] = const(self.concretize_int(f))
            r = subst_nodes(s, vals)
            if r.op == 'c':
                return int(r.val)
        for i in self.ex.int_range:
            if self.decide(eq(s, const(i))):
                return i
        # s is an integer, so it is outside the range or the path is empty
        out = b_or(le(s, const(self.ex.int_range[0] - 1)), le(const(self.ex.int_range[-1] + 1), s))
        if not self.ex.feasible(self, out):
            raise PathAbort()
        raise Unsupported(f"integer {show(s)} outside enumerated range")

    def hash_of(self, s):
        for t, i in self.hashed:
            if t is s:
                return i
        for t, i in self.hashed:
            e = eq(t, s)
            if e is True or (isinstance(e, B) and self.pcset.get(e.id) is True):
                return i
            if isinstance(e, B) and not self.ex.feasible(self, b_not(e)):
                return i
        self.hashed.append((s, s.id))
        return s.id


def floors_of(s):
    """outermost floor terms of s"""
    out, seen, st = [], set(), [s]
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op == 'floor':
            out.append(n)
        else:
            st.extend(n.args)
    return out


def subst_nodes(n, vals):
    if n.id in vals:
        return vals[n.id]
    if n.op == '+':
        return add(*[subst_nodes(a, vals) for a in n.args])
    if n.op == '*':
        return mul(*[subst_nodes(a, vals) for a in n.args])
    return n


class Explorer:
    def __init__(self, prover, max_paths=4000, max_depth=400, int_range=range(-2, 12)):
        self.prover = prover
        self.max_paths, self.max_depth = max_paths, max_depth
        self.int_range = int_range
        self.todo = []
        self.paths = 0
        self.aborted = 0

    def feasible(self, ctx, b):
        """False only when pc & b is certainly unsatisfiable."""
        if isinstance(b, bool):
            return b
        return self.prover.feasible(ctx.pc, b)

    def run(self, fn):
        """Yield (ctx, result, fault) for every feasible path of fn(ctx)."""
        global CTX
        self.todo = [[]]
        while self.todo:
            prefix = self.todo.pop()
            if self.paths >= self.max_paths:
                raise Unsupported(f"more than {self.max_paths} paths")
            ctx = Context(self, prefix)
            old, CTX = CTX, ctx
            res = fault = None
            try:
                res = fn(ctx)
            except PathAbort:
                self.aborted += 1
                CTX = old
                continue
            except Fault as f:
                fault = f
            finally:
                CTX = old
            self.paths += 1
            yield ctx, res, fault


# ------------------------------------------------------------ derivative
def diff(n, v, memo=None):
    """Symbolic derivative of S term n by variable v (away from kinks)."""
    if memo is None:
        memo = {}
    if isinstance(n, float):
        return NAN
    r = memo.get(n.id)
    if r is not None:
        return r
    o = n.op
    if o == 'c':
        r = ZERO
    elif o == 'v':
        r = ONE if n is v else ZERO
    elif o == '+':
        r = add(diff(n.args[0], v, memo), diff(n.args[1], v, memo))
    elif o == '*':
        a, b = n.args
        r = add(mul(diff(a, v, memo), b), mul(a, diff(b, v, memo)))
    elif o == '/':
        a, b = n.args
        da, db = diff(a, v, memo), diff(b, v, memo)
        r = div(da, b) if db is ZERO else div(sub(mul(da, b), mul(a, db)), mul(b, b))
    elif o == 'sqrt':
        d = diff(n.args[0], v, memo)
        r = ZERO if d is ZERO else div(d, mul(TWO, n))
    elif o == 'floor':
        r = ZERO
    elif o == 'uf' and n.val == 'sin':
        r = mul(cos(n.args[0]), diff(n.args[0], v, memo))
    elif o == 'uf' and n.val == 'cos':
        r = neg(mul(sin(n.args[0]), diff(n.args[0], v, memo)))
    else:
        raise Unsupported(f"derivative of {o} {n.val}")
    memo[n.id] = r
    return r


def substitute(n, mp, memo=None):
    if memo is None:
        memo = {}
    if isinstance(n, float):
        return n
    r = memo.get(n.id)
    if r is not None:
        return r
    if n.op == 'v':
        r = mp.get(n.val, n)
    elif n.op == 'c':
        r = n
    else:
        a = [substitute(x, mp, memo) for x in n.args]
        r = {'+': lambda: add(*a), '*': lambda: mul(*a), '/': lambda: div(*a),
             'sqrt': lambda: sqrt(*a), 'floor': lambda: floor(*a),
             'uf': lambda: {'sin': sin, 'cos': cos}.get(n.val, lambda *q: uf(n.val, *q))(*a)}[n.op]()
    memo[n.id] = r
    return r


# -------------------------------------------------------- concrete eval
def evalf(n, env, memo):
    """Evaluate a term in floats.  Raises on domain errors."""
    if isinstance(n, float):
        return n
    r = memo.get(n.id)
    if r is not None:
        return r
    o = n.op
    if o == 'c':
        r = float(n.val)
    elif o == 'v':
        r = env[n.val]
    else:
        a = [evalf(x, env, memo) for x in n.args]
        if o == '+':
            r = a[0] + a[1]
        elif o == '*':
            r = a[0] * a[1]
        elif o == '/':
            r = a[0] / a[1]
        elif o == 'sqrt':
            r = math.sqrt(a[0])
        elif o == 'floor':
            r = float(math.floor(a[0]))
        elif n.val == 'sin':
            r = math.sin(a[0])
        elif n.val == 'cos':
            r = math.cos(a[0])
        elif n.val == 'exp':
            r = math.exp(a[0])
        elif n.val == 'atan2':
            r = math.atan2(a[0], a[1])
        elif n.val == 'atan':
            r = math.atan(a[0])
        elif n.val == 'asin':
            r = math.asin(a[0])
        elif n.val == 'acos':
            r = math.acos(a[0])
        else:
            f = env.get('uf:' + n.val)
            if f is None:
                raise Unsupported(f"evalf {n.val}")
            r = f(*a)
    memo[n.id] = r
    return r


def evalb(b, env, memo, tol=0.0):
    """Evaluate a formula in floats.  tol loosens == ."""
    if isinstance(b, bool):
        return b
    o = b.op
    if o == 'bv':
        return env[b.args[0]]
    if o == 'not':
        return not evalb(b.args[0], env, memo, tol)
    if o == 'and':
        return all(evalb(x, env, memo, tol) for x in b.args)
    if o == 'or':
        return any(evalb(x, env, memo, tol) for x in b.args)
    if o == 'xor':
        return evalb(b.args[0], env, memo, tol) != evalb(b.args[1], env, memo, tol)
    x, y = evalf(b.args[0], env, memo), evalf(b.args[1], env, memo)
    if o == '<':
        return x < y
    if o == '<=':
        return x <= y
    return abs(x - y) <= tol * (1 + abs(x) + abs(y))


def atoms(xs):
    """Variable names (reals, bools) and uf nodes in a list of S/B."""
    seen, rv, bv, ufs = set(), set(), set(), []
    st = list(xs)
    while st:
        n = st.pop()
        if isinstance(n, (bool, float, str)) or n.id in seen:
            continue
        seen.add(n.id)
        if isinstance(n, B):
            if n.op == 'bv':
                bv.add(n.args[0])
                continue
        elif n.op == 'v':
            rv.add(n.val)
        elif n.op == 'uf':
            ufs.append(n)
        st.extend(n.args)
    return rv, bv, ufs
