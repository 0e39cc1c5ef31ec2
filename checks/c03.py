"""C03: intersections lie on ray and surface, or the ray is failed."""
from vlib.harness import harness
from checks.surf import make
from checks.rays import vignetted_alike, bundle, snap, tangent, frame, FIELDS


def one_ray(h, b, meridional=False, p='r0'):
    d = {}
    for f in ('x', 'y', 'z', 'vx', 'vy', 'vz', 't'):
        d[f] = h.real(f'{p}.{f}', *((-1, 1) if f[0] == 'v' else (-4, 4))) if not (meridional and f in ('y', 'vy')) else 0.0
    h.assume(d['vx']*d['vx'] + d['vy']*d['vy'] + d['vz']*d['vz'] > 0)
    rv = b.RayVector(h.arr([d['x']]), h.arr([d['y']]), h.arr([d['z']]), h.arr([d['vx']]), h.arr([d['vy']]), h.arr([d['vz']]),
                     h.arr([d['t']]), h.arr([h.real(p + '.w', 0.25, 2)]), h.arr([h.real(p + '.flux', 0, 3)]))
    return rv


def bookkeeping(h, old, new):
    """on the ray, time advanced accordingly, everything else kept"""
    dt = new['t'][0] - old['t'][0]
    for c in 'xyz':
        h.eq(new[c][0], old[c][0] + old['v' + c][0]*dt, f'{c} on the ray at the new time')
        h.eq(new['v' + c][0], old['v' + c][0], f'v{c} kept')
    for c in ('wavelength', 'flux'):
        h.eq(new[c][0], old[c][0], f'{c} kept')
    h.check(not new['vignetted'][0], 'not vignetted')
    return dt


def failure(h, old, new):
    h.check(new['vignetted'][0], 'failed implies vignetted')
    for c in ('x', 'y', 'z', 'vx', 'vy', 'vz', 't', 'wavelength', 'flux'):
        h.eq(new[c][0], old[c][0], f'{c} of a failed ray kept')


def cap_point(h, b, kind):
    """conic with a point of its vertex branch, in closed form without roots.

    Sphere and ellipsoids (1+conic = m*m) and hyperboloids (1+conic = -m*m):
    u, v cover the whole branch (for hyperboloids up to |z| < 2|R|/m**2, where
    the other sheet begins to be closer to the vertex plane)."""
    R = h.real('s.R', -8, 8)
    h.assume(h.neg(h.same(R, 0)))
    u, v = h.real('u', -1, 1), h.real('v', -1, 1)
    q = u*u + v*v
    if kind == 'Paraboloidal':
        h.assume(q < 1)
        return b.Quadric(R, -1.0), [4*u, 4*v, 8*q/R], R, 0
    if kind == 'Sphere':
        h.assume(q < 1)
        n = 1 + q
        return b.Sphere(R), [2*R*u/n, 2*R*v/n, 2*R*q/n], R, 1
    m = h.real('s.m', 0.25, 2)
    if kind == 'Ellipsoid':
        h.assume(q < 1)
        n = 1 + q
        s = b.Quadric(R, m*m - 1)
        k1 = m*m
    else:
        h.assume(q < 0.5)
        n = 1 - q
        s = b.Quadric(R, -m*m - 1)
        k1 = -m*m
    return s, [2*R*u/(m*n), 2*R*v/(m*n), 2*R*q/(m*m*n)], R, k1


def conic_branch(h, p, R, k1, label):
    """p lies on the branch of the conic through the vertex: there the height
    is the sag (lemma vertex_branch_is_sag)"""
    x, y, z = p
    h.eq(x*x + y*y - 2*R*z + k1*z*z, 0, label + ': on the conic of revolution')
    h.check(h.le_(0, (R - k1*z)*R), label + ': on the branch through the vertex')


@harness('C03', configs=['Plane', 'Tilted', 'Paraboloid'], timeout=15)
def moves_along_ray(h, b):
    """any ray with non-zero velocity; any parameters within checks/surf.py"""
    s, dom = make(h, b, h.cfg)
    rv = one_ray(h, b)
    old = snap(rv)
    out = b.intersect(s, rv)
    h.check(out is rv, 'in place')
    new = snap(rv)
    if new['failed'][0]:
        failure(h, old, new)
    else:
        bookkeeping(h, old, new)
        x, y, z = (new[c][0] for c in 'xyz')
        h.eq(z, s.sag(x, y), 'on the surface')


@harness('C03', configs=['Plane', 'Tilted', 'Paraboloid'], timeout=10, quick_timeout=2, time=100, feas='cheap')
def any_line_hits(h, b):
    """a ray whose line meets the surface, at however small an angle, is not failed"""
    s, dom = make(h, b, h.cfg)
    p = [h.real('u', -4, 4), h.real('v', -4, 4)]
    p.append(s.sag(*p))
    v = [h.real('vx', -1, 1), h.real('vy', -1, 1), h.real('vz', -1, 1)]
    if h.cfg == 'Plane':
        h.assume(h.neg(h.same(v[2], 0)))
    elif h.cfg == 'Tilted':
        h.assume(h.neg(h.same(v[2], v[0]*s.tanx + v[1]*s.tany)))
    else:
        h.assume(h.dot(v, v) > 0)
    ds = h.real('ds', -4, 4)
    rv = b.RayVector(*[h.arr([a - ds*c]) for a, c in zip(p, v)], *[h.arr([e]) for e in v], h.arr([h.real('t', -2, 2)]), h.arr([1.0]), h.arr([1.0]))
    b.intersect(s, rv)
    h.check(not rv.failed[0] and not rv.vignetted[0], 'meets the surface, so not failed')
    if h.cfg != 'Paraboloid' and not rv.failed[0]:
        for c, e in zip('xyz', p):
            h.eq(getattr(rv, c)[0], e, f'{c} of the only point on both')


@harness('C03', configs=['Sphere', 'Ellipsoid', 'Hyperboloid', 'Paraboloidal'], timeout=10)
def vertex_branch_is_sag(h, b):
    """the branch of the conic through the vertex is what sag() describes"""
    s, p, R, k1 = cap_point(h, b, h.cfg)
    h.eq(s.sag(p[0], p[1]), p[2], 'sag on the vertex branch')


@harness('C03', configs=['Sphere', 'Ellipsoid', 'Hyperboloid', 'Paraboloidal'], timeout=30, quick_timeout=3, time=200)
def conic_hit(h, b):
    """any ray whose line meets the vertex branch (anywhere on it) is not failed
    and ends on the vertex branch"""
    s, p, R, k1 = cap_point(h, b, h.cfg)
    v = [h.real('vx', -1, 1), h.real('vy', -1, 1), h.real('vz', -1, 1)]
    h.assume(h.dot(v, v) > 0)
    ds = h.real('ds', -4, 4)
    st = [a - ds*c for a, c in zip(p, v)]
    rv = b.RayVector(*[h.arr([e]) for e in st], *[h.arr([e]) for e in v], h.arr([h.real('t', -2, 2)]), h.arr([1.0]), h.arr([1.0]))
    old = snap(rv)
    b.intersect(s, rv)
    new = snap(rv)
    h.check(not new['failed'][0], 'meets the surface, so not failed')
    if not new['failed'][0]:
        conic_branch(h, [new[c][0] for c in 'xyz'], R, k1, 'hit')


@harness('C03', configs=['Sphere', 'Quadric'], timeout=30, quick_timeout=3, time=200)
def conic_any(h, b):
    """any ray: failed, or moved along itself onto the vertex branch"""
    R = h.real('s.R', -8, 8)
    h.assume(h.neg(h.same(R, 0)))
    k = 0.0 if h.cfg == 'Sphere' else h.real('s.conic', -4, 3)
    s = b.Sphere(R) if h.cfg == 'Sphere' else b.Quadric(R, k)
    rv = one_ray(h, b)
    old = snap(rv)
    b.intersect(s, rv)
    new = snap(rv)
    if new['failed'][0]:
        failure(h, old, new)
    else:
        bookkeeping(h, old, new)
        conic_branch(h, [new[c][0] for c in 'xyz'], R, 1 + k, 'hit')


ITER = ['Asphere', 'Zernike6', 'SumPZ', 'Bicubic']


def iter_surface(h, b, kind):
    if kind == 'SumPZ':
        R = h.real('s.R', 1, 8)
        a, c = h.real('s.a', -1, 1), h.real('s.c', -1, 1)
        return b.Sum(b.Paraboloid(R), b.Zernike([0.0, a, c]))
    if kind == 'Bicubic':
        z = h.arr([[h.real(f's.g{j}{i}', -1, 1) for i in range(2)] for j in range(2)])
        o = h.arr([[0.0, 0.0], [0.0, 0.0]])
        return b.Bicubic(h.arr([-1.0, 1.0]), h.arr([-1.0, 1.0]), z, dzdxs=o, dzdys=o, d2zdxdys=o, nanpolicy='nan')
    if kind == 'Asphere':
        R = h.real('s.R', 1, 8)
        return b.Asphere(R, h.real('s.conic', -0.9, 1), [h.real('s.a', -1, 1)])
    return make(h, b, kind)[0]


def niter(b, n):
    b.global_vars._batoid_niter = n


@harness('C03', configs=[(k, 1) for k in ('Asphere', 'Zernike6', 'SumPZ')], thorough=[(k, 2) for k in ('Asphere', 'Zernike6', 'SumPZ')],
         timeout=8, time=80, quick_timeout=0.5, feas='cheap')
def iterated_hit(h, b):
    """Newton surfaces with 1 or 2 iterations: a ray left unfailed is within
    1e-12 of the surface and on its own line"""
    kind, n = h.cfg
    niter(b, n)
    s = iter_surface(h, b, kind)
    rv = one_ray(h, b, meridional=True)
    old = snap(rv)
    b.intersect(s, rv)
    new = snap(rv)
    if new['failed'][0]:
        failure(h, old, new)
    else:
        bookkeeping(h, old, new)
        x, y, z = (new[c][0] for c in 'xyz')
        h.check(h.lt_(abs(s.sag(x, y) - z), 1e-12), 'within 1e-12 of the surface')


@harness('C03', configs=[(k, n) for k in ITER + ['Zernike10'] for n in (1, 3)], timeout=8, time=100)
def axial_ray_hits(h, b):
    """rays parallel to the axis of a Newton surface are never failed inside its
    domain and end exactly on it"""
    kind, n = h.cfg
    niter(b, n)
    s = iter_surface(h, b, kind)
    x, y, z = h.real('x', -0.99, 0.99), h.real('y', -0.99, 0.99), h.real('z', -4, 4)
    h.assume(x*x + y*y < 0.5)
    vz = h.real('vz', -2, 2)
    h.assume(h.neg(h.same(vz, 0)))
    t = h.real('t', -4, 4)
    rv = b.RayVector(*[h.arr([e]) for e in (x, y, z, 0.0, 0.0, vz, t)], h.arr([1.0]), h.arr([1.0]))
    old = snap(rv)
    b.intersect(s, rv)
    new = snap(rv)
    h.check(not new['failed'][0], 'meets the surface, so not failed')
    if not new['failed'][0]:
        bookkeeping(h, old, new)
        h.eq(new['z'][0], s.sag(x, y), 'on the surface')


@harness('C03', configs=[1, 3], timeout=8, time=100)
def tangent_plane_hits(h, b):
    """a Newton surface that is a plane: every ray not parallel to it is hit exactly"""
    s, (a, tx, ty) = tangent(h, b)
    niter(b, h.cfg)
    rv = one_ray(h, b)
    old = snap(rv)
    d = old['vz'][0] - tx*old['vx'][0] - ty*old['vy'][0]
    h.assume(h.neg(h.same(d, 0)))
    b.intersect(s, rv)
    new = snap(rv)
    h.check(not new['failed'][0], 'meets the surface, so not failed')
    if not new['failed'][0]:
        bookkeeping(h, old, new)
        x, y, z = (new[c][0] for c in 'xyz')
        h.eq(z, a + tx*x + ty*y, 'on the surface')


@harness('C03', configs=['function', 'method'], timeout=10, time=100)
def other_frame(h, b):
    """intersecting with a surface given in another frame: same as transforming first"""
    A, B = frame(h, b, 'A'), frame(h, b, 'B')
    s = b.Paraboloid(h.real('s.R', 1, 8)) if h.cfg == 'p' else b.Plane()
    rv = one_ray(h, b)
    rv.coordSys = A
    r2 = rv.copy()
    old = snap(rv)
    if h.cfg == 'method':
        s.intersect(rv, coordSys=B)
    else:
        b.intersect(s, rv, B)
    r2.toCoordSys(B)
    b.intersect(s, r2)
    new, ref = snap(rv), snap(r2)
    h.check(rv.coordSys == B, 'frame of the surface')
    h.check(new['failed'][0] == ref['failed'][0], 'failure agrees')
    if not new['failed'][0]:
        for f in FIELDS:
            h.eq(new[f][0], ref[f][0], f'{f} agrees')
    else:
        failure(h, old, new)


@harness('C03', configs=['Plane', 'Tilted'], thorough=['Paraboloid', 'Sphere'], timeout=10, quick_timeout=2, feas='cheap')
def vignetted_rays_too(h, b):
    """a vignetted ray is moved, or failed, like any other"""
    s, dom = make(h, b, h.cfg)
    vignetted_alike(h, b, one_ray(h, b), lambda rv: b.intersect(s, rv), 'intersect')
