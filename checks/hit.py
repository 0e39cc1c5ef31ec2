"""Rays that meet a surface: shared by the checks of reflection, refraction,
splitting and phase screens."""
from checks.c03 import cap_point, iter_surface, niter
from checks.rays import tangent, snap, FIELDS

CONICS = ['Sphere', 'Ellipsoid', 'Hyperboloid', 'Paraboloidal']
AXIAL = ['Asphere', 'Zernike6', 'SumPZ']
EASY = ['Plane', 'Tangent', 'SumPZ']     # laws from the sag's own slopes are quick
HARD = ['Paraboloid', 'Zernike6', 'Sphere', 'Ellipsoid', 'Hyperboloid', 'Paraboloidal', 'Asphere']
KINDS = ['Plane', 'Tangent', 'Paraboloid'] + CONICS + AXIAL


def ray(h, b, pos, v, w=None, flux=None, t=None):
    w = h.real('w', 0.25, 2) if w is None else w
    flux = h.real('flux', 0, 3) if flux is None else flux
    t = h.real('t', -2, 2) if t is None else t
    return b.RayVector(*[h.arr([e]) for e in pos], *[h.arr([e]) for e in v], h.arr([t]), h.arr([w]), h.arr([flux]))


def cap_normal(h, p='n'):
    """any upward unit vector, without square roots"""
    a, c = h.real(p + '.a', -1, 1), h.real(p + '.b', -1, 1)
    h.assume(a*a + c*c < 1)
    m = 1 + a*a + c*c
    return [2*a/m, 2*c/m, (1 - a*a - c*c)/m]


def aimed(h, b, kind, v=None):
    """(surface, rays, slopes): one ray aimed at an arbitrary point of the
    surface from either side; slopes(x, y, z) are the derivatives of the sag at
    a point of the surface, from the surface's defining equation.

    kinds: Plane; Tangent (a plane with any upward normal, through the generic Newton code:
    what the kernels see of any surface near one hit point);
    Paraboloid/Sphere/Ellipsoid/Hyperboloid/Paraboloidal (any point of the
    vertex branch); Asphere/Zernike6/SumPZ (rays parallel to the axis)"""
    if v is None:
        v = [h.real('vx', -1, 1), h.real('vy', -1, 1), h.real('vz', -1, 1)]
    ds = h.real('ds', -4, 4)
    if kind == 'Plane':
        s, p = b.Plane(), [h.real('px', -3, 3), h.real('py', -3, 3), 0.0]
        slopes = lambda x, y, z: (0, 0)
    elif kind == 'Tangent':
        n = cap_normal(h)
        a, tx, ty = h.real('s.h', -3, 3), -n[0]/n[2], -n[1]/n[2]
        s = b.Zernike([0, a, tx/2, ty/2])
        niter(b, 1)
        px, py = h.real('px', -3, 3), h.real('py', -3, 3)
        p = [px, py, a + tx*px + ty*py]
        slopes = lambda x, y, z: (tx, ty)
    elif kind == 'Paraboloid':
        R = h.real('s.R', -8, 8)
        h.assume(h.neg(h.same(R, 0)))
        px, py = h.real('px', -3, 3), h.real('py', -3, 3)
        s, p = b.Paraboloid(R), [px, py, (px*px + py*py)/(2*R)]
        slopes = lambda x, y, z: (x/R, y/R)
    elif kind in CONICS:
        s, p, R, k1 = cap_point(h, b, kind)
        slopes = lambda x, y, z: (x/(R - k1*z), y/(R - k1*z))
    else:
        s = iter_surface(h, b, kind)
        niter(b, 1)
        v = [0.0, 0.0, v[2]]
        px, py = h.real('px', -0.7, 0.7), h.real('py', -0.7, 0.7)
        h.assume(px*px + py*py < 0.49)
        p = [px, py, s.sag(px, py)]
        slopes = lambda x, y, z: tuple(h.grad(s.sag, px, py))
    g = slopes(*p)
    h.assume(h.dot(v, v) > 0)
    h.assume(h.neg(h.same(v[2] - g[0]*v[0] - g[1]*v[1], 0)))     # not grazing
    st = [a - ds*c for a, c in zip(p, v)]
    return s, ray(h, b, st, v), slopes


def parts(v, g):
    """components of v along the two tangents and along the upward normal (1/nz units)"""
    zx, zy = g
    return v[0] + zx*v[2], v[1] + zy*v[2], v[2] - zx*v[0] - zy*v[1]


def vel(d, i=0):
    return [d['v' + c][i] for c in 'xyz']


def pos(d, i=0):
    return [d[c][i] for c in 'xyz']
