"""C08: rays of a bundle never affect each other, under any threading.

The modules are compiled with OpenMP on; every parallel region is executed by a
team whose threads' accesses to shared memory are recorded.  Threads that touch
no common location (other than under one lock, or reading) commute, so the one
order executed stands for every schedule."""
from vlib.harness import harness
from checks.rays import bundle, snap, same_rays, frame, tilted, tangent, FIELDS
from checks.c03 import niter
from checks.c07 import OPS, interact, coating
from checks.c14 import moving

ASSUMPTIONS = ['threads are taken to interleave at memory accesses as written (sequential consistency); with no conflicting '
               'accesses found, weaker memory orders allow nothing more']


def single(h, b, rv, i):
    """ray i alone"""
    kw = {f: h.arr([getattr(rv, f)[i]]) for f in FIELDS}
    return b.RayVector(kw['x'], kw['y'], kw['z'], kw['vx'], kw['vy'], kw['vz'], kw['t'], kw['wavelength'], kw['flux'],
                       h.np.array([bool(rv.vignetted[i])]), h.np.array([bool(rv.failed[i])]), coordSys=rv.coordSys)


def mixed(h, b, n, p='r'):
    """n rays, some (any one, or none) failed, some vignetted"""
    rv = bundle(h, b, n, p=p)
    f, v = h.choice('failed', n + 1), h.choice('vignetted', n + 1)
    fail = [i == f for i in range(n)]
    vig = [i == v for i in range(n)]
    for i in range(n):
        h.assume(rv.vx[i]*rv.vx[i] + rv.vy[i]*rv.vy[i] + rv.vz[i]*rv.vz[i] > 0)
    return b.RayVector(*[getattr(rv, k) for k in FIELDS], h.np.array(vig, dtype=bool), h.np.array(fail, dtype=bool), coordSys=rv.coordSys)


def surfaces(h, b, kind):
    if kind == 'Plane':
        return b.Plane()
    if kind == 'Tangent':
        niter(b, 1)
        return tangent(h, b)[0]
    R = h.real('R', 1, 8)
    return b.Paraboloid(R) if kind == 'Paraboloid' else b.Sphere(R)


def alone(h, b, rv, outs, op, label):
    """every resulting ray is what processing it alone gives"""
    d = snap(rv)
    n = len(d['x'])
    for i in range(n):
        for k, (whole, one) in enumerate(zip(outs, op(single(h, b, rv, i)))):
            same_rays(h, {f: (v[i:i+1] if f != 'coordSys' else v) for f, v in snap(whole).items()}, one, f'{label} {k} ray {i}')


KERNELS = [(o, k, 2, 3) for o in OPS for k in ('Plane', 'Tangent')] + \
          [(o, k, 4, 3) for o in OPS for k in ('Plane',)] + [(o, 'Tangent', 2, 1) for o in OPS]


@harness('C08', configs=KERNELS, thorough=[(o, k, 2, 2) for o in OPS for k in ('Paraboloid', 'Sphere')],
         feas='cheap', time=90, timeout=5, paths=3000, omp=True)
def interactions(h, b):
    """n rays (two on a plane: any direction, any one failed, any one vignetted) meeting a surface, in a team of m threads"""
    op, kind, n, m = h.cfg
    h.team(b, m)
    if kind == 'Plane' and n < 4:
        rv = mixed(h, b, n)
    else:
        rv = bundle(h, b, n)
        for i in range(n):
            rv.vx[i], rv.vy[i], rv.vz[i] = [(0.0, 0.0, -1.0), (0.25, 0.0, -0.5), (0.0, -0.25, 0.5), (0.5, 0.0, 0.0)][i]
    s = surfaces(h, b, kind)
    coat = coating(h, b)
    use = coat if op == 'rSplit' else None
    f = lambda r: interact(h, b, op, s, r, None, use)
    outs = f(rv.copy())
    h.race_free()
    alone(h, b, rv, outs, f, op)


@harness('C08', configs=[(o, n, m) for o in OPS for n, m in ((2, 3), (2, 1))], feas='cheap', time=90, timeout=5, paths=3000, omp=True)
def coated_elsewhere(h, b):
    """the same with a coating and the surface in another frame"""
    op, n, m = h.cfg
    h.team(b, m)
    rv = bundle(h, b, n)
    for i in range(n):
        h.assume(rv.vx[i]*rv.vx[i] + rv.vy[i]*rv.vy[i] + rv.vz[i]*rv.vz[i] > 0)
    o = h.vec('o', 3, -3, 3)
    B = b.CoordSys(h.arr(o), h.arr([[0.6, 0.0, 0.8], [0.0, 1.0, 0.0], [-0.8, 0.0, 0.6]]))
    coat = coating(h, b)
    f = lambda r: interact(h, b, op, b.Plane(), r, B, coat if op != 'screen' else None)
    outs = f(rv.copy())
    h.race_free()
    alone(h, b, rv, outs, f, op)


@harness('C08', configs=[(o, n, m) for o in ('forward', 'reverse', 'propagate', 'toCoordSys') for n, m in ((3, 3), (4, 3), (3, 1))],
         feas='cheap', time=60, timeout=5, omp=True)
def moves(h, b):
    op, n, m = h.cfg
    h.team(b, m)
    rv = bundle(h, b, n)
    B = tilted(h, b, 'B')
    ct = b.CoordTransform(rv.coordSys, B)
    T = h.real('T', -4, 4)
    f = dict(forward=lambda r: b.applyForwardTransform(ct, r),
             reverse=lambda r: b.applyReverseTransform(ct, r),
             toCoordSys=lambda r: r.toCoordSys(B),
             propagate=lambda r: r.propagate(T))[op]
    g = lambda r: [f(r)]
    outs = g(rv.copy())
    h.race_free()
    alone(h, b, rv, outs, g, op)


@harness('C08', configs=[(o, n, m) for o in ('forward', 'reverse') for n, m in ((3, 3), (5, 3), (3, 1))], feas='cheap', time=60, timeout=5, omp=True)
def point_arrays(h, b):
    op, n, m = h.cfg
    h.team(b, m)
    B = tilted(h, b, 'B')
    ct = b.CoordTransform(b.CoordSys(), B)
    x, y, z = (h.vec(c, n, -4, 4) for c in 'xyz')
    f = ct.applyForwardArray if op == 'forward' else ct.applyReverseArray
    r = f(h.arr(x), h.arr(y), h.arr(z))
    h.race_free()
    for i in range(n):
        one = f(h.arr([x[i]]), h.arr([y[i]]), h.arr([z[i]]))
        for k in range(3):
            h.eq(r[k][i], one[k][0], f'point {i}')


SHAPES = ['Circle', 'Annulus', 'Rectangle', 'Ray', 'Polygon', 'Union', 'Intersection', 'Negation']


def shape(h, b, kind):
    X, Y = h.real('X', -2, 2), h.real('Y', -2, 2)
    if kind == 'Circle':
        return b.ObscCircle(h.real('rad', 0.25, 3), X, Y)
    if kind == 'Annulus':
        a = h.real('inner', 0.25, 2)
        return b.ObscAnnulus(a, a + h.real('w', 0.25, 2), X, Y)
    if kind == 'Rectangle':
        return b.ObscRectangle(h.real('w', 0.5, 3), h.real('h', 0.5, 3), X, Y, 0.0)
    if kind == 'Ray':
        return b.ObscRay(h.real('w', 0.5, 3), 0.0, X, Y)
    if kind == 'Polygon':
        return b.ObscPolygon(h.arr([X, X + 2, X]), h.arr([Y, Y, Y + h.real('dy', 1, 2)]))
    a, c = b.ObscCircle(h.real('rad', 0.25, 3)), b.ObscCircle(1.0, X, Y)
    if kind == 'Union':
        return b.ObscUnion([a, c])
    if kind == 'Intersection':
        return b.ObscIntersection([a, c])
    return b.ObscNegation(a)


@harness('C08', configs=[(s, 2, 3) for s in SHAPES] + [(s, 2, 1) for s in SHAPES] + [('Circle', 4, 3), ('Negation', 4, 3)], feas='cheap', time=60, timeout=5, omp=True, paths=3000)
def obscuring(h, b):
    kind, n, m = h.cfg
    h.team(b, m)
    rv = mixed(h, b, n) if n < 4 else bundle(h, b, n)
    s = shape(h, b, kind)
    g = lambda r: [b.obscure(s, r)]
    outs = g(rv.copy())
    h.race_free()
    alone(h, b, rv, outs, g, 'obscure')
    c = s.contains(rv.x, rv.y)
    for i in range(n):
        h.check(bool(c[i]) == bool(s.contains(rv.x[i], rv.y[i])), 'contains of an array')


@harness('C08', configs=[(o, n, m) for o in ('position', 'phase', 'amplitude', 'sum', 'sum all') for n, m in ((2, 3), (4, 3), (3, 1))],
         feas='cheap', time=60, timeout=5, omp=True, paths=3000)
def waves(h, b):
    """positions, phases, amplitudes; the summed amplitude is the sum over rays"""
    op, n, m = h.cfg
    h.team(b, m)
    if n <= 3:
        rv = mixed(h, b, n)
    else:
        rv = bundle(h, b, n)
        for i in range(n):
            h.assume(rv.vx[i]*rv.vx[i] + rv.vy[i]*rv.vy[i] + rv.vz[i]*rv.vz[i] > 0)
    r, T = h.arr(h.vec('r', 3, -4, 4)), h.real('T', -4, 4)
    f = dict(position=lambda v: v.positionAtTime(T), phase=lambda v: v.phase(r, T), amplitude=lambda v: v.amplitude(r, T),
             sum=lambda v: v.sumAmplitude(r, T), **{'sum all': lambda v: v.sumAmplitude(r, T, ignoreVignetted=False)})[op]
    d = snap(rv)
    w = f(rv)
    h.race_free()
    ones = [f(single(h, b, rv, i)) for i in range(n)]
    if op.startswith('sum'):
        t = ones[0]
        for o in ones[1:]:
            t = t + o
        h.eq(w, t, 'sum over the rays', tol=1e-6)
    else:
        for i in range(n):
            h.eq(list(w[i]) if op == 'position' else w[i], list(ones[i][0]) if op == 'position' else ones[i][0], f'ray {i}')
    same_rays(h, rv, d, 'bundle left alone')


def system(h, b, kind):
    d, n2 = h.real('d', 1, 3), h.real('n2', 1.25, 2)
    g = b.ConstMedium(n2)
    stop = b.Interface(b.Plane(), name='stop', coordSys=b.CoordSys([0, 0, 4]))
    if kind == 'lens':
        return b.CompoundOptic((
            b.RefractiveInterface(b.Plane(), name='A', inMedium=b.ConstMedium(1.0), outMedium=g, coordSys=b.CoordSys([0, 0, 2])),
            b.RefractiveInterface(b.Plane(), name='B', inMedium=g, outMedium=b.ConstMedium(1.0), coordSys=b.CoordSys(h.arr([0, 0, 2-d]))),
            b.Detector(b.Plane(), name='D', coordSys=b.CoordSys([0, 0, -2]))), name='T')
    return b.CompoundOptic((
        b.Baffle(b.Plane(), name='O', obscuration=b.ObscCircle(h.real('rad', 0.5, 2)), coordSys=b.CoordSys([0, 0, 2])),
        b.Mirror(b.Plane(), name='M', coordSys=b.CoordSys(h.arr([0, 0, 1-d]))),
        b.Detector(b.Plane(), name='D', coordSys=b.CoordSys([0, 0, 5]))), name='T')


@harness('C08', configs=[(k, o, n, m) for k in ('lens', 'mirror') for o in ('trace', 'path', 'split') for n, m in ((2, 3), (3, 1))],
         feas='cheap', time=90, timeout=5, paths=3000, omp=True)
def tracing(h, b):
    """a bundle through an optic: ray by ray the same; bundles of a split trace too"""
    kind, op, n, m = h.cfg
    h.team(b, m)
    rays = bundle(h, b, n, lo=-3, hi=3)
    for i in range(n):
        rays.vz[i] = -0.5
        rays.vx[i], rays.vy[i] = 0.0, rays.vy[i]/4
        h.assume(rays.z[i] > 2)
    t = system(h, b, kind)
    if op == 'trace':
        f = lambda r: [t.trace(r)]
    elif op == 'path':
        names = [i.name for i in t.items]
        f = lambda r: [t.trace(r, path=names[:2])]
    else:
        f = lambda r: flatten(t.traceSplit(r, minFlux=1e9))
    outs = f(rays.copy())
    h.race_free()
    alone(h, b, rays, outs, f, op)


def flatten(r):
    fwd, rev = r
    return list(fwd or []) + list(rev or [])


def medium(h, b, kind):
    if kind == 'Sellmeier':
        return b.SellmeierMedium(0.6961663, 0.4079426, 0.8974794, 0.00467914, 0.01351206, 97.9340025)
    if kind == 'Sumita':
        return b.SumitaMedium(2.0, -0.01, 0.01, 0.0005, 0.0, 0.0)
    if kind == 'Air':
        return b.Air()
    if kind == 'Table':
        return b.TableMedium(h.arr([0.25, 0.75, 1.5, 4.0]), h.arr([1.5, 1.4, 1.375, 1.3]))
    return b.ConstMedium(1.5)


@harness('C08', configs=[(k, n, m) for k in ('Sellmeier', 'Sumita', 'Air', 'Table') for n, m in ((2, 3), (2, 1))],
         feas='cheap', time=60, timeout=5, paths=3000, omp=True)
def media(h, b):
    """refraction and splitting with an index that depends on each ray's own wavelength"""
    kind, n, m = h.cfg
    h.team(b, m)
    g = medium(h, b, kind)
    a = b.ConstMedium(1.0)
    s = b.Plane()
    ws = [h.real(f'w{i}', 0.5, 2) for i in range(n)]
    if kind != 'Table':
        # the formula at a few wavelengths per ray, in any combination
        ws = [[0.5, 0.625, 1.0][h.choice(f'w{i}', 3)] for i in range(n)]
    z = [0.0]*n
    one = [1.0]*n
    rv = b.RayVector(h.arr(h.vec('x', n)), h.arr(h.vec('y', n)), h.arr([h.real(f'z{i}', 1, 4) for i in range(n)]),
                     h.arr(z), h.arr(z), h.arr([-1.0]*n), h.arr(z), h.arr(ws), h.arr(one))
    f = lambda r: [b.refract(s, r, a, g)] if h.bool('in') else list(b.rSplit(s, r, a, g, b.SimpleCoating(0.25, 0.75)))
    outs = f(rv.copy())
    h.race_free()
    alone(h, b, rv, outs, f, 'refract')
    N = g.getN(rv.wavelength)
    for i in range(n):
        h.eq(N[i], g.getN(rv.wavelength[i]), 'index for an array')


def fixed(h, b, kind):
    """one surface of each kind, with numbers for parameters"""
    niter(b, 3)
    if kind == 'Bicubic':
        z = h.arr([[0.0, 0.125, 0.25], [0.125, 0.0, -0.125], [0.25, 0.125, 0.5]])
        return b.Bicubic(h.arr([-4.0, 0.0, 4.0]), h.arr([-4.0, 0.0, 4.0]), z)
    return {'Quadric': lambda: b.Quadric(16.0, -0.5), 'Asphere': lambda: b.Asphere(16.0, 0.0, [0.001]),
            'Zernike': lambda: b.Zernike([0.0, 0.25, 0.125, 0.125, 0.0625, 0.03125, 0.0625], R_outer=4.0),
            'Sum': lambda: b.Sum([b.Paraboloid(16.0), b.Tilted(0.125, 0.25)]), 'Tilted': lambda: b.Tilted(0.125, 0.25),
            'Paraboloid': lambda: b.Paraboloid(16.0), 'Sphere': lambda: b.Sphere(16.0)}[kind]()


@harness('C08', configs=[(k, n, m) for k in ('Bicubic', 'Quadric', 'Asphere', 'Zernike', 'Sum', 'Tilted', 'Paraboloid', 'Sphere') for n, m in ((2, 3), (2, 1))],
         feas='cheap', time=60, timeout=5, paths=3000, omp=True)
def every_surface(h, b):
    """any points; rays along the axis.  Arrays against single values too"""
    kind, n, m = h.cfg
    h.team(b, m)
    s = fixed(h, b, kind)
    z = [0.0]*n
    x, y = h.vec('x', n, -3, 3), h.vec('y', n, -3, 3)
    if kind == 'Bicubic':
        # the middle of either kind of cell, or beside the grid
        P = [-3.0, 1.0, 5.0]
        x = [P[h.choice(f'X{i}', 3)] for i in range(n)]
        y = [P[h.choice(f'Y{i}', 2)] for i in range(n)]
    rv = b.RayVector(h.arr(x), h.arr(y), h.arr([8.0]*n), h.arr(z), h.arr(z), h.arr([-1.0]*n), h.arr(z), h.arr([0.5]*n), h.arr([1.0]*n))
    f = lambda r: [b.intersect(s, r)]
    outs = f(rv.copy())
    h.race_free()
    alone(h, b, rv, outs, f, 'intersect')
    g = s.sag(h.arr(x), h.arr(y))
    N = s.normal(h.arr(x), h.arr(y))
    for i in range(n):
        h.eq(g[i], s.sag(x[i], y[i]), 'sag of an array')
        h.eq(list(N[i]), list(s.normal(x[i], y[i])), 'normal of an array')
