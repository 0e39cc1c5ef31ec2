"""C25: phase screens add their path difference and bend rays by its gradient."""
from vlib.harness import harness
from checks.hit import aimed, cap_normal, niter, parts, vel, pos, ray
from checks.rays import vignetted_alike, snap, frame, tilted, bundle, tangent, FIELDS
from checks.c03 import one_ray, failure, iter_surface
from checks.surf import make


def linear(h, b):
    """screen with any value and any slope"""
    a, gx, gy = h.real('p.h', -1, 1), h.real('p.gx', -2, 2), h.real('p.gy', -2, 2)
    return b.Zernike([0.0, a, gx/2, gy/2]), (lambda x, y: a + gx*x + gy*y), (lambda x, y: (gx, gy))


def curved(h, b):
    R = h.real('p.R', 2, 8)
    return b.Paraboloid(R), (lambda x, y: (x*x + y*y)/(2*R)), (lambda x, y: (x/R, y/R))


def meets(h, b, kind, v):
    """carrier surface, ray of velocity v aimed at a point of it, slopes"""
    s, rv, slopes = aimed(h, b, kind, v)
    return s, rv, slopes


def speedy(h, flip=True):
    """velocity of known speed k: any direction (but the poles') times k"""
    d = h.unit('d', flip=flip)
    k = h.real('k', 0.25, 2)
    return [k*e for e in d], k


def law(h, b, kind, scr, v, k, bound=True):
    s, rv, slopes = meets(h, b, kind, v)
    screen, sag, grad = scr(h, b)
    ref = rv.copy()
    old = snap(rv)
    out = s.refractScreen(rv, screen)
    h.check(out is rv, 'in place')
    b.intersect(s, ref)
    hit, new = snap(ref), snap(rv)
    if hit['failed'][0]:
        h.check(new['failed'][0] and new['vignetted'][0], 'fails when intersecting fails')
        return
    x, y = hit['x'][0], hit['y'][0]
    g = slopes(*pos(hit))
    P = grad(x, y)
    a = parts(v, g)
    up = h.le_(0, a[2])
    # tangential components wanted: direction + gradient along the surface
    n2 = 1 + g[0]*g[0] + g[1]*g[1]
    gp = parts([P[0], P[1], 0.0], g)
    want = [a[i] + k*gp[i] for i in range(2)]
    # squared length of a vector with covariant components c along (1,0,zx),(0,1,zy)
    len2 = (want[0]*want[0]*(1 + g[1]*g[1]) - 2*want[0]*want[1]*g[0]*g[1] + want[1]*want[1]*(1 + g[0]*g[0]))
    steep = h.lt_(k*k*n2, len2)
    if new['failed'][0]:
        h.check(new['vignetted'][0], 'failed implies vignetted')
        if bound:
            h.check(steep, 'fails only if no direction has the required slope')
        for f in ('x', 'y', 'z', 'vx', 'vy', 'vz', 't', 'wavelength', 'flux'):
            h.check(not h.isnan(new[f][0]), f'{f} is a number')
        return
    if bound:
        h.check(h.le_(len2, k*k*n2), 'no ray where no direction has the required slope')
    for f in ('x', 'y', 'z', 'wavelength', 'flux'):
        h.eq(new[f][0], hit[f][0], f'{f} is that of the intersection')
    h.eq(new['t'][0], hit['t'][0] + sag(x, y), 'time gains the path difference at the hit point')
    h.check(new['vignetted'][0] == hit['vignetted'][0], 'vignetting kept')
    w = vel(new)
    c = parts(w, g)
    h.eq(c[0], want[0], 'first tangential component changes by the gradient')
    h.eq(c[1], want[1], 'second tangential component changes by the gradient')
    h.eq(h.dot(w, w), k*k, 'speed kept')
    if bound:
        h.check(h.le_(0, c[2]) if up else h.le_(c[2], 0), 'keeps crossing in the same sense')


@harness('C25', configs=[('Plane', 'linear'), ('Tangent', 'tilted'), ('Plane', 'curved')], thorough=[('Tangent', 'linear'), ('Paraboloid', 'linear'), ('Sphere', 'linear'), ('Tangent', 'curved')],
         timeout=15, quick_timeout=2, time=200, feas='cheap')
def bends_by_the_gradient(h, b):
    kind, scr = h.cfg
    v, k = speedy(h)
    law(h, b, kind, curved if scr == 'curved' else linear, v, k, scr != 'tilted')


@harness('C25', configs=['Plane', 'Tangent'], thorough=['Paraboloid', 'Sphere'], timeout=10, quick_timeout=2, time=100, feas='cheap')
def constant_screen(h, b):
    """a screen without slope leaves the direction and only delays"""
    v, k = speedy(h)
    s, rv, slopes = meets(h, b, h.cfg, v)
    ref = rv.copy()
    a = h.real('p.h', -1, 1)
    s.refractScreen(rv, b.Zernike([0.0, a]))
    b.intersect(s, ref)
    hit, new = snap(ref), snap(rv)
    h.check(new['failed'][0] == hit['failed'][0], 'fails exactly like intersecting')
    if new['failed'][0]:
        return
    for f in FIELDS:
        h.eq(new[f][0], hit[f][0] + (a if f == 't' else 0), f'{f}')


@harness('C25', configs=['Plane'], thorough=['Paraboloid', 'Sphere', 'Quadric'], timeout=10, quick_timeout=2, time=150, paths=20000, feas=False)
def position_like_intersect(h, b):
    """any ray: position as for intersecting, time later by the screen"""
    s, dom = make(h, b, h.cfg)
    rv = one_ray(h, b)
    ref = rv.copy()
    old = snap(rv)
    screen, sag, grad = linear(h, b)
    s.refractScreen(rv, screen)
    b.intersect(s, ref)
    hit, new = snap(ref), snap(rv)
    if hit['failed'][0]:
        failure(h, old, new)
        h.check(new['failed'][0], 'fails when intersecting fails')
        return
    if new['failed'][0]:
        return
    for f in ('x', 'y', 'z', 'wavelength', 'flux'):
        h.eq(new[f][0], hit[f][0], f'{f} is that of the intersection')
    h.eq(new['t'][0], hit['t'][0] + sag(hit['x'][0], hit['y'][0]), 'time')


@harness('C25', configs=['Plane'], thorough=['Tangent'], timeout=15, quick_timeout=2, time=100, feas='cheap')
def there_and_back(h, b):
    """crossing the same point backwards with the velocity reversed restores the line
    and adds the path difference again"""
    v, k = speedy(h)
    s, rv, slopes = meets(h, b, h.cfg, v)
    screen, sag, grad = linear(h, b)
    s.refractScreen(rv, screen)
    mid = snap(rv)
    if mid['failed'][0]:
        return
    w = vel(mid)
    for u in (v, w):          # clearly not along the surface
        a = parts(u, slopes(*pos(mid)))[2]
        h.assume(a*a > 0.001)
    back = ray(h, b, pos(mid), [-e for e in w], t=mid['t'][0])
    s.refractScreen(back, screen)
    new = snap(back)
    h.check(not new['failed'][0], 'reversible')
    if new['failed'][0]:
        return
    for i, c in enumerate('xyz'):
        h.eq(new['v' + c][0], -v[i], f'v{c} is the reversed incoming one')
        h.eq(new[c][0], mid[c][0], f'{c} stays')
    h.eq(new['t'][0], mid['t'][0] + sag(mid['x'][0], mid['y'][0]), 'delayed once more')


@harness('C25', configs=['tilt'], thorough=['any'], timeout=10, time=100, feas='cheap')
def other_frame(h, b):
    A = b.CoordSys(h.arr(h.vec('o', 3, -3, 3)))
    B = tilted(h, b, 'B') if h.cfg == 'tilt' else frame(h, b, 'B')
    s = b.Plane()
    rv = one_ray(h, b)
    rv.coordSys = A
    ref = rv.copy()
    screen = linear(h, b)[0]
    s.refractScreen(rv, screen, B)
    ref.toCoordSys(B)
    s.refractScreen(ref, screen)
    new, want = snap(rv), snap(ref)
    h.check(rv.coordSys == B, 'frame of the carrier surface')
    h.check(new['failed'][0] == want['failed'][0], 'failure agrees')
    if not new['failed'][0] and not want['failed'][0]:
        for f in FIELDS:
            h.eq(new[f][0], want[f][0], f'{f} agrees')


@harness('C25', configs=['trace', 'reverse', 'interact', 'refract', 'rSplit', 'traceFull'], timeout=10, time=60, feas='cheap')
def optic_element(h, b):
    """an OPDScreen in a system does just that, in its own frame, on its own surface"""
    B = b.CoordSys(h.arr(h.vec('o', 3, -3, 3)))
    s = b.Plane()
    screen = linear(h, b)[0]
    el = b.optic.OPDScreen(s, screen, name='scr', coordSys=B)
    rv = one_ray(h, b)
    ref = rv.copy()
    s.refractScreen(ref, screen, B)
    if h.cfg == 'trace':
        out = el.trace(rv)
    elif h.cfg == 'reverse':
        out = el.trace(rv, reverse=True)
    elif h.cfg == 'interact':
        out = el.interact(rv)
    elif h.cfg == 'refract':
        out = el.refract(rv)
    elif h.cfg == 'rSplit':
        out, none = el.rSplit(rv)
        h.check(none is None, 'nothing reflected')
    else:
        old = snap(rv)
        out = el.traceFull(rv)['scr']['out']
        for f in FIELDS:
            h.eq(snap(rv)[f], old[f], f'{f} of the incoming rays kept')
    new, want = snap(out), snap(ref)
    h.check(out.coordSys == B, 'frame of the element')
    h.check(new['failed'][0] == want['failed'][0], 'failure agrees')
    for f in FIELDS:
        h.eq(new[f][0], want[f][0], f'{f} agrees')


@harness('C25', timeout=10, quick_timeout=2, feas='cheap')
def vignetted_rays_too(h, b):
    """a vignetted ray is bent, or failed, like any other"""
    s, dom = make(h, b, 'Tilted')
    p = b.Tilted(h.real('p.tx', -2, 2), h.real('p.ty', -2, 2))
    vignetted_alike(h, b, one_ray(h, b), lambda rv: s.refractScreen(rv, p), 'screen')
