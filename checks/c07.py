"""C07: failed and vignetted rays stay so, and dead rays are never altered."""
from vlib.harness import harness
from checks.hit import EASY, HARD, aimed, niter, vel, pos
from checks.rays import bundle, snap, frame, tilted, tangent, FIELDS
from checks.c03 import one_ray, iter_surface
from checks.surf import make

OPS = ['intersect', 'reflect', 'refract', 'rSplit', 'screen']


def coating(h, b):
    return b.SimpleCoating(h.real('R', 0, 1), h.real('T', 0, 1))


def screen(h, b):
    return b.Zernike([0.0, h.real('p0', -1, 1), h.real('p1', -1, 1), h.real('p2', -1, 1)])


def interact(h, b, op, s, rv, cs=None, coat=None):
    """list of resulting bundles"""
    m1, m2 = b.ConstMedium(1.0), b.ConstMedium(h.real('n2', 1, 3))
    if op == 'intersect':
        return [b.intersect(s, rv, cs, coat)]
    if op == 'reflect':
        return [b.reflect(s, rv, cs, coat)]
    if op == 'refract':
        return [b.refract(s, rv, m1, m2, cs, coat)]
    if op == 'rSplit':
        return list(b.rSplit(s, rv, m1, m2, coat or coating(h, b), cs))
    return [s.refractScreen(rv, screen(h, b), cs)]


def finite(h, d, i, label, fields=FIELDS):
    for f in fields:
        h.check(not h.isnan(d[f][i]), f'{label}: {f} is a number')
        h.check(not h.isinf(d[f][i]), f'{label}: {f} is finite')


def monotone(h, old, new, i):
    h.check(not old['failed'][i] or new['failed'][i], 'failed stays failed')
    h.check(not old['vignetted'][i] or new['vignetted'][i], 'vignetted stays vignetted')
    h.check(not new['failed'][i] or old['failed'][i] or new['vignetted'][i], 'newly failed is vignetted')


@harness('C07', configs=[(o, k) for o in OPS for k in ('Plane', 'Tangent')], timeout=10, quick_timeout=2, time=90, feas='cheap')
def any_flags(h, b):
    """any ray with any combination of flags"""
    op, kind = h.cfg
    s = b.Plane() if kind == 'Plane' else tangent(h, b)[0]
    niter(b, 1)
    rv = bundle(h, b, 1, flags=True)
    h.assume(rv.vx[0]*rv.vx[0] + rv.vy[0]*rv.vy[0] + rv.vz[0]*rv.vz[0] > 0)
    coat = coating(h, b) if op not in ('screen', 'rSplit') and h.bool('coated') else None
    old = snap(rv)
    for k, r in enumerate(interact(h, b, op, s, rv, None, coat)):
        new = snap(r)
        monotone(h, old, new, 0)
        if old['failed'][0]:
            h.check(new['vignetted'][0] == old['vignetted'][0], 'vignetting of a failed ray kept')
            for f in FIELDS:
                h.eq(new[f][0], old[f][0], f'{f} of an already failed ray kept')
        elif not new['failed'][0]:
            finite(h, new, 0, 'not failed')
            h.check(new['vignetted'][0] == old['vignetted'][0], 'vignetting changes only by failing')


@harness('C07', configs=[('intersect', 'Paraboloid'), ('intersect', 'Sphere'), ('intersect', 'Quadric')], thorough=[(o, k) for o in OPS for k in ('Sphere', 'Paraboloid', 'Quadric', 'Asphere', 'Bicubic', 'Zernike6')],
         timeout=5, quick_timeout=1, time=100, paths=20000, feas=False)
def nothing_undefined(h, b):
    """any ray and curved surface: not failed means every number defined"""
    op, kind = h.cfg
    if kind in ('Asphere', 'Bicubic', 'Zernike6'):
        s = iter_surface(h, b, kind)
        niter(b, 1)
        rv = one_ray(h, b, meridional=True)
    else:
        s, dom = make(h, b, kind)
        rv = one_ray(h, b)
    if op == 'screen':
        h.assume(rv.vz[0] < 0)
    old = snap(rv)
    for r in interact(h, b, op, s, rv):
        new = snap(r)
        h.check(not new['failed'][0] or new['vignetted'][0], 'newly failed is vignetted')
        if not new['failed'][0]:
            finite(h, new, 0, 'not failed')
            h.check(not new['vignetted'][0], 'vignetted only with failure')


@harness('C07', configs=['all', 'first', 'second'], timeout=10, time=60)
def failed_kept_beside_others(h, b):
    """a failed ray among others, also when the surface is in another frame: bit for bit kept"""
    B = tilted(h, b, 'B')
    n = 2
    d = {f: [h.real(f'{f}{i}', -2, 2) for i in range(n)] for f in FIELDS}
    fail = [h.cfg in ('all', 'first'), h.cfg in ('all', 'second')]
    vig = [h.bool('g0'), h.bool('g1')]
    op = OPS[h.choice('op', 5)]
    rv = b.RayVector(*[h.arr(d[f]) for f in FIELDS], h.np.array(vig, dtype=bool), h.np.array(fail, dtype=bool))
    for i in range(n):
        if not fail[i]:
            # an axial ray of the surface's frame, through its origin
            for k, c in enumerate('xyz'):
                getattr(rv, c)[i] = B.origin[k] + B.rot[k][2]*2
                getattr(rv, 'v' + c)[i] = -B.rot[k][2]
    old = snap(rv)
    for r in interact(h, b, op, b.Plane(), rv, B):
        new = snap(r)
        for i in range(n):
            if fail[i]:
                h.check(new['failed'][i] and new['vignetted'][i] == vig[i], 'flags kept')
                for f in FIELDS:
                    h.eq(new[f][i], old[f][i], f'{f} of an already failed ray kept')
            elif op != 'screen':
                h.check(not new['failed'][i], 'other ray not failed')


@harness('C07', configs=['propagate', 'forward', 'reverse', 'copy', 'obscure', 'frame'], timeout=10, time=60)
def other_operations_keep_flags(h, b):
    rv = bundle(h, b, 2, flags=True)
    old = snap(rv)
    hit = [False, False]
    if h.cfg == 'propagate':
        new = snap(rv.propagate(h.real('t', -4, 4)))
    elif h.cfg == 'copy':
        new = snap(rv.copy())
    elif h.cfg == 'obscure':
        r = h.real('rad', 0, 3)
        new = snap(b.obscure(b.ObscCircle(r), rv))
        hit = [old['x'][i]*old['x'][i] + old['y'][i]*old['y'][i] < r*r for i in range(2)]
    elif h.cfg == 'frame':
        new = snap(rv.toCoordSys(tilted(h, b, 'B')))
    else:
        ct = b.CoordTransform(b.CoordSys(), tilted(h, b, 'B'))
        new = snap(b.applyForwardTransform(ct, rv) if h.cfg == 'forward' else b.applyReverseTransform(ct, rv.copy()))
    for i in range(2):
        h.check(new['failed'][i] == old['failed'][i], 'failed flag kept')
        h.check(h.iff(new['vignetted'][i], h.either(old['vignetted'][i], hit[i])), 'vignetted only by the obscuration')


@harness('C07', configs=['Interface', 'Mirror', 'Detector', 'Baffle', 'Lens'], timeout=10, time=60, feas='cheap')
def optics_keep_flags(h, b):
    """tracing through each kind of element, with an obscuration"""
    k = h.cfg
    obsc = b.ObscCircle(h.real('rad', 0, 3))
    cs = b.CoordSys(h.arr([0.0, 0.0, h.real('oz', -2, 2)]))
    A, G = b.ConstMedium(1.0), b.ConstMedium(h.real('n', 1, 2))
    if k == 'Interface':
        o = b.RefractiveInterface(b.Plane(), name='o', coordSys=cs, obscuration=obsc, inMedium=A, outMedium=G)
    elif k == 'Lens':
        o = b.Lens([b.RefractiveInterface(b.Plane(), name='a', coordSys=cs, inMedium=A, outMedium=G, obscuration=obsc),
                    b.RefractiveInterface(b.Plane(), name='b', coordSys=cs.shiftGlobal([0, 0, -1]), inMedium=G, outMedium=A)], name='o')
    else:
        o = getattr(b, k)(b.Plane(), name='o', coordSys=cs, obscuration=obsc)
    zero = h.arr([0.0])
    vx = h.real('vx', -1, 1)
    rv = b.RayVector(h.arr([h.real('x', -3, 3)]), h.arr([h.real('y', -3, 3)]), h.arr([h.real('z', -3, 3)]), h.arr([vx]), zero, h.arr([-1.0]),
                     h.arr([h.real('t', -1, 1)]), h.arr([1.0]), h.arr([h.real('f', 0, 1)]),
                     h.np.array([h.bool('g')], dtype=bool), h.np.array([h.bool('bad')], dtype=bool))
    old = snap(rv)
    new = snap(o.trace(rv, reverse=h.bool('rev')))
    monotone(h, old, new, 0)
    if old['failed'][0]:
        for f in FIELDS:
            h.eq(new[f][0], old[f][0], f'{f} of an already failed ray kept')
    elif not new['failed'][0]:
        finite(h, new, 0, 'not failed')
