"""C06: splitting rays agrees with reflecting and refracting."""
from vlib.harness import harness
from checks.hit import EASY, HARD, aimed, niter, vel, pos
from checks.rays import bundle, snap, frame, tilted, FIELDS
from checks.c03 import one_ray
from checks.surf import make


def compare(h, got, want, factor, flux, label):
    h.check(got['failed'] == want['failed'], label + ': failure agrees')
    h.check(got['vignetted'] == want['vignetted'], label + ': vignetting agrees')
    for i in range(len(got['x'])):
        if want['failed'][i]:
            continue
        for f in FIELDS:
            if f != 'flux':
                h.eq(got[f][i], want[f][i], f'{label}: {f}[{i}]')
        h.eq(got['flux'][i], flux[i]*factor, f'{label}: flux[{i}]')


def split(h, b, s, rv, coordSys=None, method=False):
    R, T = h.real('R', 0, 1), h.real('T', 0, 1)
    n2 = h.real('n2', 1, 3)
    m1, m2 = b.ConstMedium(1.0), b.ConstMedium(n2)
    c = b.SimpleCoating(R, T)
    want_t, want_r = rv.copy(), rv.copy()
    flux = snap(rv)['flux']
    if method:
        x, y = s.rSplit(rv, m1, m2, c, coordSys=coordSys)
    else:
        x, y = b.rSplit(s, rv, m1, m2, c, coordSys)
    b.refract(s, want_t, m1, m2, coordSys)
    b.reflect(s, want_r, coordSys)
    cs = coordSys or want_t.coordSys
    return x, y, want_t, want_r, R, T, flux, cs


@harness('C06', configs=EASY, thorough=['Paraboloid', 'Zernike6', 'Paraboloidal'], timeout=10, quick_timeout=2, time=120)
def equals_refract_and_reflect(h, b):
    """one ray from either side at any point of the surface"""
    s, rv, slopes = aimed(h, b, h.cfg)
    x, y, wt, wr, R, T, flux, cs = split(h, b, s, rv)
    h.check(x is rv and y is not rv, 'the bundle itself refracted, a new one reflected')
    compare(h, snap(x), snap(wt), T, flux, 'refracted')
    compare(h, snap(y), snap(wr), R, flux, 'reflected')


@harness('C06', configs=['Plane'], thorough=['Sphere', 'Paraboloid', 'Quadric'], timeout=10, quick_timeout=2, time=120, feas='cheap')
def any_ray(h, b):
    """any ray, also one that misses: failure agrees with reflect and refract"""
    s, dom = make(h, b, h.cfg)
    rv = one_ray(h, b)
    x, y, wt, wr, R, T, flux, cs = split(h, b, s, rv)
    compare(h, snap(x), snap(wt), T, flux, 'refracted')
    compare(h, snap(y), snap(wr), R, flux, 'reflected')


@harness('C06', configs=[(0, 1), (1, 0), (1, 1), (0, 0)], timeout=10, time=60)
def flagged_bundle(h, b):
    """two rays along the axis with any flags: each like reflect and refract"""
    zero = h.arr([0.0, 0.0])
    vz = [h.real('vz0', -1, 1), h.real('vz1', -1, 1)]
    for e in vz:
        h.assume(h.neg(h.same(e, 0)))
    rv = b.RayVector(h.arr([h.real('x0', -3, 3), h.real('x1', -3, 3)]), zero, h.arr([h.real('z0', -3, 3), h.real('z1', -3, 3)]), zero, zero, h.arr(vz),
                     h.arr([h.real('t0', -3, 3), h.real('t1', -3, 3)]), h.arr([h.real('w0', 1, 2), h.real('w1', 1, 2)]),
                     h.arr([h.real('f0', 0, 3), h.real('f1', 0, 3)]),
                     h.np.array([h.bool('g0'), h.bool('g1')], dtype=bool), h.np.array([bool(e) for e in h.cfg], dtype=bool))
    s = b.Plane()
    old = snap(rv)
    x, y, wt, wr, R, T, flux, cs = split(h, b, s, rv)
    gx, gy = snap(x), snap(y)
    compare(h, gx, snap(wt), T, flux, 'refracted')
    compare(h, gy, snap(wr), R, flux, 'reflected')
    for i in range(2):
        if h.cfg[i]:
            for f in FIELDS:
                h.eq(gx[f][i], old[f][i], f'already failed ray kept, refracted: {f}')
                h.eq(gy[f][i], old[f][i], f'already failed ray kept, reflected: {f}')


@harness('C06', configs=['function', 'method'], timeout=10, time=90, feas='cheap')
def other_frame(h, b):
    B = tilted(h, b, 'B')
    s = b.Plane()
    rv = one_ray(h, b)
    x, y, wt, wr, R, T, flux, cs = split(h, b, s, rv, B, h.cfg == 'method')
    h.check(x.coordSys == B and y.coordSys == B, 'both in the frame of the surface')
    compare(h, snap(x), snap(wt), T, flux, 'refracted')
    compare(h, snap(y), snap(wr), R, flux, 'reflected')


@harness('C06', timeout=10, time=60)
def no_shared_storage(h, b):
    """changing one output leaves the other alone"""
    rv = bundle(h, b, 2)
    for e in rv.vz:
        h.assume(e > 0)
    x, y = b.rSplit(b.Plane(), rv, b.ConstMedium(1.0), b.ConstMedium(1.0), b.SimpleCoating(h.real('R', 0, 1), h.real('T', 0, 1)))
    before = snap(y)
    first = snap(x)
    for f in FIELDS:
        getattr(x, f)[:] = h.real('new.' + f, -1, 1)
    x.vignetted[:] = True
    x.failed[:] = True
    after = snap(y)
    for f in FIELDS:
        h.eq(after[f], before[f], f'{f} of the other bundle kept')
        h.eq(snap(x)[f], [h.real('new.' + f, -1, 1)]*2, f'{f} written')
    h.check(after['vignetted'] == before['vignetted'] and after['failed'] == before['failed'], 'flags of the other bundle kept')
    for f in FIELDS:
        getattr(y, f)[:] = h.real('newer.' + f, -1, 1)
    for f in FIELDS:
        h.eq(snap(x)[f], [h.real('new.' + f, -1, 1)]*2, f'{f} kept when the reflected bundle changes')
