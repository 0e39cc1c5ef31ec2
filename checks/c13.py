"""C13: polynomial surfaces evaluate the series they are given."""
import copy
from math import sqrt
from vlib.harness import harness
from checks.surf import make
from checks.c02 import normal_props


def annular(j, x, y, e):
    """Noll-ordered annular Zernike polynomials (Mahajan 1981) in Cartesian form, e the obscuration ratio"""
    e2 = e*e
    e4, e6 = e2*e2, e2*e2*e2
    r2 = x*x + y*y
    a4 = 6*r2*r2 - 6*(1 + e2)*r2 + 1 + 4*e2 + e4
    coma = lambda: sqrt(8)/((1 - e2)*sqrt((1 + e2)*(1 + 4*e2 + e4)))*(3*(1 + e2)*r2 - 2*(1 + e2 + e4))
    sec = lambda: sqrt(10)/((1 - e2)*sqrt((1 + e2 + e4)*(1 + 4*e2 + 10*e4 + 4*e6 + e4*e4)))*(4*(1 + e2 + e4)*r2 - 3*(1 + e2 + e4 + e6))
    return {1: lambda: 1,
            2: lambda: 2/sqrt(1 + e2)*x,
            3: lambda: 2/sqrt(1 + e2)*y,
            4: lambda: sqrt(3)/(1 - e2)*(2*r2 - 1 - e2),
            5: lambda: sqrt(6)/sqrt(1 + e2 + e4)*2*x*y,
            6: lambda: sqrt(6)/sqrt(1 + e2 + e4)*(x*x - y*y),
            7: lambda: coma()*y,
            8: lambda: coma()*x,
            9: lambda: sqrt(8)/sqrt(1 + e2 + e4 + e6)*(3*x*x*y - y*y*y),
            10: lambda: sqrt(8)/sqrt(1 + e2 + e4 + e6)*(x*x*x - 3*x*y*y),
            11: lambda: sqrt(5)/((1 - e2)*(1 - e2))*a4,
            12: lambda: sec()*(x*x - y*y),
            13: lambda: sec()*2*x*y,
            14: lambda: sqrt(10)/sqrt(1 + e2 + e4 + e6 + e4*e4)*(x*x*x*x - 6*x*x*y*y + y*y*y*y),
            15: lambda: sqrt(10)/sqrt(1 + e2 + e4 + e6 + e4*e4)*(4*x*x*x*y - 4*x*y*y*y)}[j]()


def zkw(R, r, o):
    kw = {}
    if R is not None:
        kw['R_outer'] = R
    if r is not None:
        kw['R_inner'] = r
    if o is not None:
        kw['x_origin'], kw['y_origin'] = o
    return kw


@harness('C13', configs=[(j, R, r) for j in range(1, 16) for R, r in ((None, None), (2.0, 0.5), (4.0, 2.5))], timeout=20, time=60)
def one_term(h, b):
    """each term alone is the documented polynomial, to rounding"""
    j, R, r = h.cfg
    x0, y0 = h.real('x0', -1, 1), h.real('y0', -1, 1)
    Ro, Ri = R or 1.0, r or 0.0
    u, v = h.real('u', -1.5, 1.5), h.real('v', -1.5, 1.5)
    c = [0.0]*j + [1.0]
    s = b.Zernike(c, **zkw(R, r, (x0, y0)))
    d = s.sag(x0 + u*Ro, y0 + v*Ro) - annular(j, u, v, Ri/Ro)
    h.check(h.both(h.le_(d, 1e-9), h.le_(-1e-9, d)), 'documented term')


def point(h):
    return h.real('x', -3, 3), h.real('y', -3, 3)


@harness('C13', configs=[(3, None, None), (11, None, None), (11, 4.0, 2.5), (21, 2.0, 0.5)], thorough=[(28, None, None), (36, 4.0, 1.0)], timeout=20, time=60)
def series(h, b):
    """any coefficients: the sum of the single terms (heights and slopes)"""
    J, R, r = h.cfg
    x, y = point(h)
    o = (h.real('x0', -1, 1), h.real('y0', -1, 1))
    c = [h.real(f'c{j}', -1, 1) for j in range(J + 1)]
    s = b.Zernike(c, **zkw(R, r, o))
    z, p, q = 0, 0, 0
    for j in range(1, J + 1):
        t = b.Zernike([0.0]*j + [1.0] + [0.0]*(J - j), **zkw(R, r, o))
        z = z + c[j]*t.sag(x, y)
        n = t.normal(x, y)
        p, q = p - c[j]*n[0]/n[2], q - c[j]*n[1]/n[2]
    h.eq(s.sag(x, y), z, 'height is the series')
    n = s.normal(x, y)
    h.eq([-n[0]/n[2], -n[1]/n[2]], [p, q], 'slopes are those of the series')


@harness('C13', configs=[(4, None, None), (11, 4.0, 2.5), (22, None, None)], timeout=20, time=60)
def slopes(h, b):
    """normals of a full series are those of its height"""
    J, R, r = h.cfg
    x, y = point(h)
    o = (h.real('x0', -1, 1), h.real('y0', -1, 1))
    s = b.Zernike([h.real(f'c{j}', -1, 1) for j in range(J + 1)], **zkw(R, r, o))
    z = s.sag(x, y)
    n = s.normal(x, y)
    zx, zy = h.grad(s.sag, x, y)
    for a, d in ((n[0], zx), (n[1], zy)):
        e = a + d*n[2]
        h.check(h.both(h.le_(e, 1e-6), h.le_(-1e-6, e)), 'perpendicular to the surface')


@harness('C13', configs=[1, 2, 4, 8], timeout=20, time=60)
def inert_coefficients(h, b):
    """coefficient zero and trailing zeros do nothing; lists, tuples and arrays are alike"""
    J = h.cfg
    x, y = point(h)
    kw = dict(R_outer=2.0, R_inner=0.5, x_origin=h.real('x0', -1, 1), y_origin=h.real('y0', -1, 1))
    c = [0.0] + [h.real(f'c{j}', -1, 1) for j in range(1, J + 1)]
    s = b.Zernike(c, **kw)
    z, n = s.sag(x, y), list(s.normal(x, y))
    for l, d in (('piston slot', [h.real('c0', -9, 9)] + c[1:]), ('trailing zero', c + [0.0]), ('trailing zeros', c + [0.0]*5),
                 ('tuple', tuple(c)), ('array', h.arr(c)), ('view', h.arr([[e, 7.0] for e in c])[:, 0])):
        t = b.Zernike(d, **kw)
        h.eq(t.sag(x, y), z, l + ': height')
        h.eq(list(t.normal(x, y)), n, l + ': normal')


@harness('C13', configs=[None], timeout=20, time=60)
def origin_and_radius(h, b):
    """moving the origin moves the surface; radius only scales the argument"""
    x, y = point(h)
    x0, y0 = h.real('x0', -1, 1), h.real('y0', -1, 1)
    c = [0.0] + [h.real(f'c{j}', -1, 1) for j in range(1, 12)]
    base = b.Zernike(c).sag(x, y)
    h.eq(b.Zernike(c, x_origin=x0, y_origin=y0).sag(x + x0, y + y0), base, 'moved')
    h.eq(b.Zernike(c, R_outer=4.0).sag(4*x, 4*y), base, 'scaled')
    h.eq(b.Zernike(c, 2.0, 0.5, x0, y0).sag(x, y), b.Zernike(c, R_outer=2.0, R_inner=0.5, x_origin=x0, y_origin=y0).sag(x, y), 'positional arguments')
    h.eq(b.Zernike(c, R_outer=4.0, R_inner=1.0).sag(2*x, 2*y), b.Zernike(c, R_outer=2.0, R_inner=0.5).sag(x, y), 'same obscuration')


@harness('C13', configs=['later', 'deepcopy', 'state'], timeout=20, time=60)
def keeps_its_coefficients(h, b):
    x, y = point(h)
    a = h.arr([h.real(f'c{j}', -1, 1) for j in range(7)])
    s = b.Zernike(a, R_outer=2.0, x_origin=h.real('x0', -1, 1))
    z, n = s.sag(x, y), list(s.normal(x, y))
    if h.cfg == 'later':
        a[...] = h.real('junk', -5, 5)
    elif h.cfg == 'deepcopy':
        s = copy.deepcopy(s)
    else:
        t = b.Zernike.__new__(b.Zernike)
        t.__setstate__(s.__getstate__())
        s = t
    h.eq(s.sag(x, y), z, 'same height')
    h.eq(list(s.normal(x, y)), n, 'same normal')


def conic(h, b):
    R = h.real('R', -8, 8)
    h.assume(h.either(h.le_(0.5, R), h.le_(R, -0.5)))
    k = h.real('conic', -3, 3)
    h.assume(h.neg(h.same(k, -1)))
    x, y = point(h)
    h.assume((x*x + y*y)*(1 + k) < R*R)
    return R, k, x, y


@harness('C13', configs=[(None, 0), (None, 1), (None, 3), (1, 2), (1, 0), (3, 2), (4, 1)], thorough=[(2, 6), (6, 3)], timeout=20, time=60)
def asphere(h, b):
    """the conic plus exactly the listed even powers"""
    imin, n = h.cfg
    R, k, x, y = conic(h, b)
    a = [h.real(f'a{i}', -1, 1) for i in range(n)]
    s = b.Asphere(R, k, a) if imin is None else b.Asphere(R, k, a, imin=imin)
    r2 = x*x + y*y
    z = b.Quadric(R, k).sag(x, y)
    for i, c in enumerate(a):
        t = c
        for _ in range(i + (imin or 2)):
            t = t*r2
        z = z + t
    h.eq(s.sag(x, y), z, 'conic plus even powers')


@harness('C13', configs=[(1, 2), (3, 1), (None, 2)], timeout=20, time=60)
def asphere_same(h, b):
    """zeros, sequence types, copies and restored states do not matter"""
    imin, n = h.cfg
    R, k, x, y = conic(h, b)
    a = [h.real(f'a{i}', -1, 1) for i in range(n)]
    kw = {} if imin is None else dict(imin=imin)
    s = b.Asphere(R, k, a, **kw)
    z, m = s.sag(x, y), list(s.normal(x, y))
    r = b.Asphere.__new__(b.Asphere)
    r.__setstate__(s.__getstate__())
    for l, t in (('trailing zeros', b.Asphere(R, k, a + [0.0, 0.0], **kw)), ('leading zero', b.Asphere(R, k, [0.0] + a, imin=(imin or 2) - 1) if (imin or 2) > 1 else s),
                 ('array', b.Asphere(R, k, h.arr(a), **kw)), ('tuple', b.Asphere(R, k, tuple(a), **kw)), ('restored', r), ('copied', copy.deepcopy(s))):
        h.eq(t.sag(x, y), z, l + ': height')
        h.eq(list(t.normal(x, y)), m, l + ': normal')


@harness('C13', configs=[None], time=60)
def asphere_rejects(h, b):
    R = h.real('R', 1, 2)
    for i in (0, -1):
        h.raises(lambda: b.Asphere(R, 0.0, [0.1], imin=i), ValueError, 'starting order below one')
    h.raises(lambda: b.Asphere(R, 0.0, [0.1], imin=1.5), TypeError, 'starting order not an integer')
    h.raises(lambda: b.Asphere(R, 0.0, ['a']), TypeError, 'coefficients not numbers')


@harness('C13', configs=[('Quadric', 'Zernike6'), ('Asphere', 'Zernike3', 'Plane'), ('Zernike6', 'Paraboloid'), ('Plane',), ('Sphere', 'Sphere', 'Zernike3')], timeout=20, time=60)
def sums(h, b):
    """heights and slopes add; tuple, list and separate arguments and nested sums are alike"""
    parts = [make(h, b, k, p=f's{i}') for i, k in enumerate(h.cfg)]
    x, y = point(h)
    for _, d in parts:
        h.assume(d(x, y))
    ss = [s for s, _ in parts]
    z = sum(s.sag(x, y) for s in ss)
    p = q = 0
    for s in ss:
        n = s.normal(x, y)
        p, q = p - n[0]/n[2], q - n[1]/n[2]
    for l, t in (('arguments', b.Sum(*ss)), ('list', b.Sum(list(ss))), ('tuple', b.Sum(tuple(ss))), ('nested', b.Sum(b.Sum(*ss[:1]), *ss[1:])), ('copied', copy.deepcopy(b.Sum(*ss)))):
        h.eq(t.sag(x, y), z, l + ': height')
        n = t.normal(x, y)
        h.eq([-n[0]/n[2], -n[1]/n[2]], [p, q], l + ': slopes')


@harness('C13', configs=[('Paraboloid', 'Zernike3'), ('Plane', 'Zernike6')], timeout=20, time=60)
def sum_outlives_parts(h, b):
    """the sum still evaluates after its parts go out of use"""
    parts = [make(h, b, k, p=f's{i}')[0] for i, k in enumerate(h.cfg)]
    x, y = point(h)
    z = sum(s.sag(x, y) for s in parts)
    t = b.Sum(parts)
    del parts
    import gc
    gc.collect()
    h.eq(t.sag(x, y), z, 'height')


@harness('C13', configs=[1, 2, 3], timeout=20, time=60)
def asphere_keeps_its_coefficients(h, b):
    """changing the array handed over afterwards changes nothing"""
    R, k, x, y = conic(h, b)
    a = h.arr([h.real('a0', -1, 1), h.real('a1', -1, 1)])
    s = b.Asphere(R, k, a, imin=h.cfg)
    z, m = s.sag(x, y), list(s.normal(x, y))
    a[...] = h.real('junk', -5, 5)
    h.eq(s.sag(x, y), z, 'same height')
    h.eq(list(s.normal(x, y)), m, 'same normal')
