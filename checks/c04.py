"""C04: reflection obeys the law of reflection."""
from vlib.harness import harness
from checks.hit import KINDS, EASY, HARD, aimed, niter, parts, vel, pos
from checks.rays import vignetted_alike, snap, frame, FIELDS
from checks.c03 import one_ray, failure
from checks.surf import make


@harness('C04', configs=EASY, thorough=HARD,
         timeout=15, quick_timeout=2, time=120)
def law_of_reflection(h, b):
    """a ray aimed at any point of the surface, from either side, with any
    speed, is reflected there"""
    s, rv, slopes = aimed(h, b, h.cfg)
    ref = rv.copy()
    R = h.real('R', 0, 1)
    old = snap(rv)
    out = b.reflect(s, rv, coating=b.SimpleCoating(R, h.real('T', 0, 1)))
    h.check(out is rv, 'in place')
    b.intersect(s, ref)
    hit, new = snap(ref), snap(rv)
    h.check(new['failed'][0] == hit['failed'][0], 'fails exactly like intersecting')
    h.check(new['vignetted'][0] == hit['vignetted'][0], 'vignetted exactly like intersecting')
    if hit['failed'][0]:
        return
    for f in ('x', 'y', 'z', 't', 'wavelength'):
        h.eq(new[f][0], hit[f][0], f'{f} is that of the intersection')
    h.eq(new['flux'][0], old['flux'][0]*R, 'flux times reflectivity')
    v, w = vel(old), vel(new)
    g = slopes(*pos(hit))
    a, c = parts(v, g), parts(w, g)
    h.eq(c[0], a[0], 'first tangential component kept')
    h.eq(c[1], a[1], 'second tangential component kept')
    h.eq(c[2], -a[2], 'normal component reversed')
    h.eq(h.dot(w, w), h.dot(v, v), 'speed kept')


@harness('C04', configs=[k for k in KINDS if k not in ('Ellipsoid', 'Hyperboloid', 'Asphere')] + ['Zernike10', 'Quadric'], timeout=10, quick_timeout=2, time=100, paths=20000, feas=False)
def mirrors_about_normal(h, b):
    """any ray whatever: where the hit point has the unit normal n (C02), the
    change of velocity is along n and n.v changes sign"""
    if h.cfg == 'Sphere' or h.cfg == 'Quadric':
        s, dom = make(h, b, h.cfg)
        rv = one_ray(h, b)
    elif h.cfg == 'Zernike10':
        s, dom = make(h, b, h.cfg)
        niter(b, 1)
        rv = one_ray(h, b, meridional=True)
    else:
        s, rv, slopes = aimed(h, b, h.cfg)
    v = vel(snap(rv))
    b.reflect(s, rv)
    new = snap(rv)
    if new['failed'][0]:
        return
    n = [e for e in s.normal(new['x'][0], new['y'][0])]
    w = vel(new)
    a = h.dot(v, n)
    for i, c in enumerate('xyz'):
        h.eq(w[i], v[i] - 2*a*n[i], f'v{c} mirrored about the plane perpendicular to n')


@harness('C04', configs=['Plane', 'Paraboloid', 'Sphere', 'Quadric'], timeout=10, quick_timeout=2, time=100, paths=20000, feas=False)
def fails_like_intersect(h, b):
    """any ray: failure, position and time as for intersecting; without coating
    the flux is kept"""
    s, dom = make(h, b, h.cfg)
    rv = one_ray(h, b)
    ref = rv.copy()
    old = snap(rv)
    b.reflect(s, rv)
    b.intersect(s, ref)
    hit, new = snap(ref), snap(rv)
    h.check(new['failed'][0] == hit['failed'][0], 'fails exactly like intersecting')
    h.check(new['vignetted'][0] == hit['vignetted'][0], 'vignetted exactly like intersecting')
    if new['failed'][0]:
        failure(h, old, new)
    else:
        for f in ('x', 'y', 'z', 't', 'wavelength', 'flux'):
            h.eq(new[f][0], hit[f][0], f'{f} is that of the intersection')


@harness('C04', configs=['Plane', 'Tangent'], thorough=['Paraboloid', 'Sphere'], timeout=15, quick_timeout=2, time=120)
def twice_is_identity(h, b):
    """reflecting again at the same point restores the direction"""
    s, rv, slopes = aimed(h, b, h.cfg)
    v = vel(snap(rv))
    b.reflect(s, rv)
    mid = snap(rv)
    if mid['failed'][0]:
        return
    b.reflect(s, rv)
    new = snap(rv)
    if new['failed'][0] or not h.holds(h.same(new['t'][0], mid['t'][0])):
        return
    for i, c in enumerate('xyz'):
        h.eq(new['v' + c][0], v[i], f'v{c} restored')


@harness('C04', configs=['function', 'method'], timeout=10, time=60)
def other_frame(h, b):
    """reflection from a surface given in another coordinate system"""
    A, B = frame(h, b, 'A'), frame(h, b, 'B', half=True)
    s = b.Plane()
    rv = one_ray(h, b)
    rv.coordSys = A
    ref = rv.copy()
    c = b.SimpleCoating(h.real('R', 0, 1), h.real('T', 0, 1))
    if h.cfg == 'method':
        s.reflect(rv, coordSys=B, coating=c)
    else:
        b.reflect(s, rv, B, c)
    ref.toCoordSys(B)
    b.reflect(s, ref, coating=c)
    new, want = snap(rv), snap(ref)
    h.check(rv.coordSys == B, 'frame of the surface')
    h.check(new['failed'][0] == want['failed'][0], 'failure agrees')
    if not new['failed'][0]:
        for f in FIELDS:
            h.eq(new[f][0], want[f][0], f'{f} agrees')


@harness('C04', configs=['Plane', 'Tilted'], thorough=['Paraboloid', 'Sphere'], timeout=10, quick_timeout=2, feas='cheap')
def vignetted_rays_too(h, b):
    """a vignetted ray is reflected, or failed, like any other"""
    s, dom = make(h, b, h.cfg)
    c = b.SimpleCoating(h.real('R', 0, 1), h.real('T', 0, 1))
    vignetted_alike(h, b, one_ray(h, b), lambda rv: b.reflect(s, rv, coating=c), 'reflect')
