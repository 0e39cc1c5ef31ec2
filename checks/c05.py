"""C05: refraction obeys Snell's law; total internal reflection fails the ray."""
from vlib.harness import harness
from checks.hit import KINDS, EASY, HARD, aimed, niter, parts, vel, pos
from checks.rays import vignetted_alike, snap, frame, tilted, FIELDS
from checks.c03 import one_ray, failure
from checks.surf import make


def cross(a, b):
    return [a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]]


def ray_of_medium(h, kind):
    """velocity of length 1/n1 without square roots: (direction)/n1"""
    d = h.unit('d', flip=True)
    n1 = h.real('n1', 1, 3)
    if kind in ('Asphere', 'Zernike6', 'SumPZ'):
        d = [0.0, 0.0, -1.0 if h.bool('down') else 1.0]
    return [e/n1 for e in d], n1


@harness('C05', configs=EASY, thorough=HARD, timeout=15, quick_timeout=2, time=150)
def snell_law(h, b):
    """a ray of speed 1/n1 aimed at any point of the surface from either side"""
    v, n1 = ray_of_medium(h, h.cfg)
    s, rv, slopes = aimed(h, b, h.cfg, v)
    ref = rv.copy()
    n2, T = h.real('n2', 1, 3), h.real('T', 0, 1)
    old = snap(rv)
    out = b.refract(s, rv, b.ConstMedium(n1), b.ConstMedium(n2), coating=b.SimpleCoating(h.real('R', 0, 1), T))
    h.check(out is rv, 'in place')
    b.intersect(s, ref)
    hit, new = snap(ref), snap(rv)
    if hit['failed'][0]:
        h.check(new['failed'][0] and new['vignetted'][0], 'fails when intersecting fails')
        return
    for f in ('x', 'y', 'z', 't', 'wavelength'):
        h.eq(new[f][0], hit[f][0], f'{f} is that of the intersection')
    h.eq(new['flux'][0], old['flux'][0]*T, 'flux times transmissivity')
    g = slopes(*pos(hit))
    v = vel(old)
    a = parts(v, g)
    N2 = 1 + g[0]*g[0] + g[1]*g[1]
    # squared length of the tangential part of v: |v|^2 - (v.N)^2/|N|^2
    vt2 = h.dot(v, v) - a[2]*a[2]/N2
    if new['failed'][0]:
        h.check(new['vignetted'][0], 'failed implies vignetted')
        h.check(h.lt_(n2*n2, vt2*n1*n1*n1*n1), 'fails only beyond the critical angle')
        return
    h.check(not new['vignetted'][0], 'not vignetted')
    h.check(h.le_(vt2*n1*n1*n1*n1, n2*n2), 'no refracted ray beyond the critical angle')
    w = vel(new)
    c = parts(w, g)
    h.eq(c[0]*n2*n2, a[0]*n1*n1, 'n2 sin2 = n1 sin1, first tangential component')
    h.eq(c[1]*n2*n2, a[1]*n1*n1, 'n2 sin2 = n1 sin1, second tangential component')
    h.eq(h.dot(w, w)*n2*n2, 1, 'speed is 1/n2')
    h.check(h.le_(0, a[2]*c[2]), 'continues to the far side')


@harness('C05', configs=['Plane', 'Tangent', 'Paraboloid', 'Zernike6', 'SumPZ'], thorough=['Sphere', 'Quadric', 'Paraboloidal', 'Zernike10'],
         timeout=10, quick_timeout=2, time=100, feas='cheap')
def plane_of_incidence(h, b):
    """any ray of any speed: n2^2 v2 - n1^2 v1 is parallel to the normal n at the hit
    point (n1 = 1/speed), speed 1/n2, no failure but for TIR"""
    if h.cfg in ('Sphere', 'Quadric'):
        s, dom = make(h, b, h.cfg)
        rv = one_ray(h, b)
    elif h.cfg == 'Zernike10':
        s, dom = make(h, b, h.cfg)
        niter(b, 1)
        rv = one_ray(h, b, meridional=True)
    else:
        s, rv, slopes = aimed(h, b, h.cfg)
    v = vel(snap(rv))
    n2 = h.real('n2', 1, 3)
    b.refract(s, rv, b.ConstMedium(1.5), b.ConstMedium(n2))
    new = snap(rv)
    if new['failed'][0]:
        return
    n = [e for e in s.normal(new['x'][0], new['y'][0])]
    w = vel(new)
    v2 = h.dot(v, v)
    for i, e in enumerate(cross([w[i]*n2*n2*v2 - v[i] for i in range(3)], n)):
        h.eq(e, 0, f'in the plane of incidence with n1 sin1 = n2 sin2 [{i}]')


@harness('C05', configs=['Const', 'Table'], timeout=10, time=60)
def own_wavelength(h, b):
    """two rays of different wavelengths: each gets the index of its own"""
    w = [h.real('w0', 0.5, 2), h.real('w1', 0.5, 2)]
    if h.cfg == 'Table':
        ns = [h.real(f'n{i}', 1, 3) for i in range(3)]
        m = b.TableMedium(h.arr([0.5, 1.0, 2.0]), h.arr(ns))
    else:
        m = b.ConstMedium(h.real('n', 1, 3))
    vz = [h.real('vz0', -1, 1), h.real('vz1', -1, 1)]
    for e in vz:
        h.assume(h.neg(h.same(e, 0)))
    zero = h.arr([0.0, 0.0])
    rv = b.RayVector(zero, zero, h.arr([h.real('z0', -4, 4), h.real('z1', -4, 4)]), zero, zero, h.arr(vz), zero, h.arr(w), h.arr([1.0, 1.0]))
    b.refract(b.Plane(), rv, b.ConstMedium(1.0), m)
    new = snap(rv)
    for i in range(2):
        h.check(not new['failed'][i], 'a ray along the normal is never failed')
        h.eq(new['vz'][i]*m.getN(w[i]), 1 if vz[i] > 0 else -1, 'speed is the reciprocal index at its own wavelength')
        h.eq(new['vx'][i], 0, 'undeviated x')
        h.eq(new['vy'][i], 0, 'undeviated y')


@harness('C05', configs=['Plane'], thorough=['Tangent'], timeout=15, time=120)
def back_again(h, b):
    """refraction into a medium and back through the same plane restores the ray"""
    v, n1 = ray_of_medium(h, h.cfg)
    s, rv, slopes = aimed(h, b, h.cfg, v)
    n2 = h.real('n2', 1, 3)
    m1, m2 = b.ConstMedium(n1), b.ConstMedium(n2)
    b.refract(s, rv, m1, m2)
    mid = snap(rv)
    if mid['failed'][0]:
        return
    h.assume(h.neg(h.same(parts(vel(mid), slopes(*pos(mid)))[2], 0)))       # not refracted along the surface itself
    b.refract(s, rv, m2, m1)
    new = snap(rv)
    h.check(not new['failed'][0], 'not failed on the way back')
    if not new['failed'][0]:
        for i, c in enumerate('xyz'):
            h.eq(new['v' + c][0], v[i], f'v{c} restored')


@harness('C05', configs=['Plane', 'Tangent'], thorough=['Sphere', 'Paraboloid', 'Quadric'], timeout=10, quick_timeout=2, time=100, feas='cheap')
def position_like_intersect(h, b):
    if h.cfg == 'Tangent':
        s, rv, slopes = aimed(h, b, h.cfg)
    else:
        s, dom = make(h, b, h.cfg)
        rv = one_ray(h, b)
    ref = rv.copy()
    old = snap(rv)
    b.refract(s, rv, b.ConstMedium(1.0), b.ConstMedium(h.real('n2', 1, 3)))
    b.intersect(s, ref)
    hit, new = snap(ref), snap(rv)
    if hit['failed'][0]:
        failure(h, old, new)
        h.check(new['failed'][0], 'fails when intersecting fails')
    else:
        for f in ('x', 'y', 'z', 't', 'wavelength', 'flux'):
            h.eq(new[f][0], hit[f][0], f'{f} is that of the intersection')
        h.check(new['failed'][0] == new['vignetted'][0], 'vignetted with failure only')


@harness('C05', configs=[('function', 'tilt'), ('method', 'tilt')], thorough=[('function', 'any'), ('method', 'any')], timeout=10, time=100, feas='cheap')
def other_frame(h, b):
    A, B = b.CoordSys(h.arr(h.vec('o', 3, -3, 3))), tilted(h, b, 'B') if h.cfg[1] == 'tilt' else frame(h, b, 'B')
    s = b.Plane()
    rv = one_ray(h, b)
    rv.coordSys = A
    ref = rv.copy()
    c = b.SimpleCoating(h.real('R', 0, 1), h.real('T', 0, 1))
    m1, m2 = b.ConstMedium(1.0), b.ConstMedium(h.real('n2', 1, 3))
    if h.cfg[0] == 'method':
        s.refract(rv, m1, m2, coordSys=B, coating=c)
    else:
        b.refract(s, rv, m1, m2, B, c)
    ref.toCoordSys(B)
    b.refract(s, ref, m1, m2, coating=c)
    new, want = snap(rv), snap(ref)
    h.check(rv.coordSys == B, 'frame of the surface')
    h.check(new['failed'][0] == want['failed'][0], 'failure agrees')
    if not new['failed'][0] and not want['failed'][0]:
        for f in FIELDS:
            h.eq(new[f][0], want[f][0], f'{f} agrees')


@harness('C05', configs=['Plane', 'Tilted'], thorough=['Paraboloid', 'Sphere'], timeout=10, quick_timeout=2, feas='cheap')
def vignetted_rays_too(h, b):
    """a vignetted ray is refracted, or failed, like any other"""
    s, dom = make(h, b, h.cfg)
    m1, m2 = b.ConstMedium(h.real('n1', 1, 3)), b.ConstMedium(h.real('n2', 1, 3))
    c = b.SimpleCoating(h.real('R', 0, 1), h.real('T', 0, 1))
    vignetted_alike(h, b, one_ray(h, b), lambda rv: b.refract(s, rv, m1, m2, coating=c), 'refract')
