"""C16: ray factories build the requested wavefront."""
from vlib.harness import harness
from checks.rays import snap, same_rays, frame, tilted, FIELDS
from checks.c15 import apart
from checks.surf import make

SURF = ['Plane', 'Tangent', 'Paraboloid']


def stop(h, b, kind='Tangent', cs=None):
    """a stop: (interface, sag as a function)"""
    if kind == 'Tangent':
        a, bx, by = (h.real(f's.{c}', -1, 1) for c in 'abc')
        s = b.Zernike([0, a, bx/2, by/2])
        f = lambda x, y: a + bx*x + by*y
    elif kind == 'Paraboloid':
        R = h.real('s.R', 2, 9)
        s, f = b.Paraboloid(R), lambda x, y: (x*x + y*y)/(2*R)
    else:
        s, f = b.Plane(), lambda x, y: 0.0
    return b.Interface(s, name='stop', coordSys=cs if cs is not None else b.globalCoordSys), f


def to_global(cs, p):
    return [cs.origin[i] + sum(cs.rot[i][j]*p[j] for j in range(3)) for i in range(3)]


def to_local(cs, p):
    d = [p[i] - cs.origin[i] for i in range(3)]
    return [sum(cs.rot[j][i]*d[j] for j in range(3)) for i in range(3)]


def move(a, c, p):
    return to_local(c, to_global(a, p))


def cross(a, b):
    return [a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]]


def direction(h):
    """a direction of any length and its unit vector"""
    u = h.unit('dir', flip=True)
    s = h.real('len', 0.25, 4)
    return [e*s for e in u], u


def common(h, rv, n, lam, flux, cs, label=''):
    d = snap(rv)
    h.check(len(rv) == n, label + 'number of rays')
    h.check(d['coordSys'] == cs, label + 'frame')
    for i in range(len(rv)):
        h.eq(d['t'][i], 0, label + 'time')
        h.eq(d['wavelength'][i], lam, label + 'wavelength')
        h.eq(d['flux'][i], flux[i] if isinstance(flux, list) else flux, label + 'flux')
        h.check(not d['failed'][i] and not d['vignetted'][i], label + 'neither failed nor vignetted')
    return d


def plane_wave(h, d, pts, vertex, u, index, back):
    """rays of snapshot d run along u and meet the points"""
    for i, p in enumerate(pts):
        r, v = [d[f][i] for f in 'xyz'], [d[f][i] for f in ('vx', 'vy', 'vz')]
        for k in range(3):
            h.eq(v[k]*index, u[k], 'velocity is the direction over the index')
        # r = p - s u with (r - vertex).u = -back
        s = back + h.dot([p[k] - vertex[k] for k in range(3)], u)
        for k in range(3):
            h.eq(r[k], p[k] - s*u[k], 'starts on the plane backDist before the vertex, on the line through the stop point', tol=1e-6)


def point_source(h, d, pts, src, index):
    for i, p in enumerate(pts):
        r, v = [d[f][i] for f in 'xyz'], [d[f][i] for f in ('vx', 'vy', 'vz')]
        for k in range(3):
            h.eq(r[k], src[k], 'starts at the source')
        w = [p[k] - src[k] for k in range(3)]
        L = h.np.sqrt(h.dot(w, w))
        for k in range(3):
            h.eq(v[k]*index*L, w[k], 'runs towards the stop point at one over the index')


class Optic:
    """what a factory reads from an optic"""
    def __init__(self, **kw):
        self.__dict__.update(kw)


@harness('C16', configs=[(s, c) for s in SURF for c in ('global', 'given')], time=100, quick_timeout=2, feas='cheap')
def parallel(h, b):
    kind, where = h.cfg
    scs = tilted(h, b, 'sc')
    st, f = stop(h, b, kind, scs)
    cs = b.globalCoordSys if where == 'global' else tilted(h, b, 'c')
    raw, u = direction(h)
    back, n, lam, flux = h.real('back', -9, 50), h.real('n', 1, 3), h.real('lam', 0.25, 2), h.real('flux', 0, 3)
    xy = [(h.real(f'x{i}', -2, 2), h.real(f'y{i}', -2, 2)) for i in range(2)]
    x, y, dc = h.arr([p[0] for p in xy]), h.arr([p[1] for p in xy]), h.arr(raw)
    kw = {} if where == 'global' else {'coordSys': cs}
    rv = b.RayVector.fromStop(x, y, backDist=back, medium=b.ConstMedium(n), stopSurface=st, wavelength=lam, dirCos=dc, flux=flux, **kw)
    d = common(h, rv, 2, lam, flux, cs)
    pts = [move(scs, cs, [px, py, f(px, py)]) for px, py in xy]
    plane_wave(h, d, pts, move(scs, cs, [0.0, 0.0, f(0.0, 0.0)]), u, n, back)
    for i in range(2):
        h.eq(x[i], xy[i][0], 'x not modified')
        h.eq(y[i], xy[i][1], 'y not modified')
    for k in range(3):
        h.eq(dc[k], raw[k], 'dirCos not modified')


@harness('C16', configs=[(s, c) for s in SURF for c in ('global', 'given')], time=100, quick_timeout=2)
def finite_source(h, b):
    kind, where = h.cfg
    scs = tilted(h, b, 'sc')
    st, f = stop(h, b, kind, scs)
    cs = b.globalCoordSys if where == 'global' else tilted(h, b, 'c')
    n, lam, flux = h.real('n', 1, 3), h.real('lam', 0.25, 2), [h.real('flux0', 0, 3), h.real('flux1', 0, 3)]
    src = h.vec('src', 3, -9, 9)
    xy = [(h.real(f'x{i}', -2, 2), h.real(f'y{i}', -2, 2)) for i in range(2)]
    x, y, so = h.arr([p[0] for p in xy]), h.arr([p[1] for p in xy]), h.arr(src)
    loc = to_local(cs, src)
    pts = [move(scs, cs, [px, py, f(px, py)]) for px, py in xy]
    for p in pts:
        dd = [p[k] - loc[k] for k in range(3)]
        h.assume(h.lt_(0.01, h.dot(dd, dd)))
    kw = {} if where == 'global' else {'coordSys': cs}
    fl = h.arr(flux)
    rv = b.RayVector.fromStop(x, y, medium=b.ConstMedium(n), stopSurface=st, wavelength=lam, source=so, flux=fl, **kw)
    d = common(h, rv, 2, lam, flux, cs)
    point_source(h, d, pts, loc, n)
    for k in range(3):
        h.eq(so[k], src[k], 'source not modified')
    rv.flux[...] = 7.0
    for i in range(2):
        h.eq(fl[i], flux[i], 'fluxes not shared')


@harness('C16', configs=[None], time=60, feas='cheap')
def reference_axis(h, b):
    """any direction, also close to the x axis"""
    raw, u = direction(h)
    near = h.bool('near x')
    h.assume(h.lt_(0.81, u[0]*u[0]) if near else h.lt_(u[0]*u[0], 0.81))
    x, y = h.real('x', -2, 2), h.real('y', -2, 2)
    rv = b.RayVector.fromStop(x, y, wavelength=1.0, dirCos=raw)
    d = common(h, rv, 1, 1.0, 1.0, b.globalCoordSys)
    plane_wave(h, d, [[x, y, 0.0]], [0.0, 0.0, 0.0], u, 1.0, 40.0)


def settings(h, b, kind='Paraboloid', layout=False):
    """non-default options given in full or through the optic, possibly overridden"""
    if layout:
        how = h.choice('how', 3)
        ref = dict(wavelength=1.0, dirCos=[0.0, 0.0, -1.0], coordSys=b.CoordSys(), stopSurface=b.Interface(b.Plane(), name='p'), medium=b.ConstMedium(1.0), backDist=40.0)
        kw = dict(wavelength=1.0, dirCos=[0.0, 0.0, -1.0])
        opt = Optic()
        if how:
            opt = Optic(backDist=40.0, inMedium=ref['medium'], stopSurface=ref['stopSurface'], coordSys=ref['coordSys'])
            kw['optic'] = opt
        if how == 2:        # every setting of the optic overridden
            kw.update(coordSys=ref['coordSys'], stopSurface=ref['stopSurface'], medium=ref['medium'], backDist=40.0)
            opt.__dict__.update(backDist=3.0, inMedium=b.ConstMedium(1.7), stopSurface=b.Interface(b.Paraboloid(9.0), name='o'), coordSys=b.CoordSys([1.0, 2, 3]))
        return kw, ref, opt, how
    scs, cs = tilted(h, b, 'sc'), tilted(h, b, 'c')
    st, f = stop(h, b, kind, scs)
    good = dict(backDist=h.real('back', -9, 50), medium=b.ConstMedium(h.real('n', 1, 3)), stopSurface=st, coordSys=cs)
    how = h.choice('how', 3)
    oname = dict(backDist='backDist', medium='inMedium', stopSurface='stopSurface', coordSys='coordSys')
    wave = dict(wavelength=h.real('lam', 0.25, 2))
    if h.bool('finite'):
        wave['source'] = h.arr(h.vec('src', 3, 5, 9))
    else:
        wave['dirCos'] = h.arr([h.real('dx', -1, 1), h.real('dy', -1, 1), -1.0])
    if how == 0:
        kw = dict(good)
        opt = Optic()
    elif how == 1:
        opt = Optic(**{oname[k]: v for k, v in good.items()})
        kw = {'optic': opt}
    else:
        other = dict(backDist=3.0, medium=b.ConstMedium(1.7), stopSurface=b.Interface(b.Plane(), name='o'), coordSys=b.CoordSys([1.0, 2, 3]))
        opt = Optic(**{oname[k]: v for k, v in other.items()})
        kw = dict(good, optic=opt)
    kw.update(wave)
    ref = dict(good, **wave)
    return kw, ref, opt, how


def expect(h, b, rv, xy, ref, flux, label):
    """same rays as fromStop at the points listed"""
    x, y = h.arr([p[0] for p in xy]), h.arr([p[1] for p in xy])
    fl = h.arr(flux) if isinstance(flux, list) else flux
    same_rays(h, rv, b.RayVector.fromStop(x, y, flux=fl, **ref), label)
    h.check(rv.coordSys == ref['coordSys'], label + ': frame')
    for f in FIELDS:
        h.check(getattr(rv, f).dtype.kind in 'fO', label + ': floating point')


def defaults(h, b, call, xy, flux=1, label=''):
    """options left out: vacuum, global x-y plane, 40 m"""
    u = [h.real('dx', -1, 1), h.real('dy', -1, 1), -1.0]
    lam = h.real('lam', 0.25, 2)
    kw = dict(wavelength=lam, dirCos=h.arr(u))
    rv = call(**kw)
    ref = dict(kw, backDist=40.0, medium=b.ConstMedium(1.0), stopSurface=b.Interface(b.Plane(), name='p'), coordSys=b.CoordSys())
    expect(h, b, rv, xy, ref, flux, label + 'defaults')


def coords(n, span):
    """n evenly spaced coordinates, entry n//2 at zero; span of all but the outermost
    negative one for even n"""
    if n == 1:
        return [0.0]
    step = span/(n - 1) if n % 2 else span/max(n - 2, 2)
    return [(i - n//2)*step for i in range(n)]


GRID = ['nx dx', 'nx dx vec', 'nx lx', 'nx lx vec', 'lx dx', 'lx ly dx dy', 'lx dx dy', 'nx ny dx dy', 'nx ny lx ly', 'nx ny vec']


@harness('C16', configs=[(g, n) for g in GRID for n in ((2, 3, 4, 5) if ' ny' not in g and g[:2] != 'lx' else (3, 5) if ' dy' in g else (2, 5))], time=60, paths=600, feas='cheap')
def grid(h, b):
    how, n = h.cfg
    kw, ref, opt, src = settings(h, b, layout=True)
    fl = h.real('flux', 0, 3)
    ny = n
    a, c = h.real('a', 0.1, 2), h.real('c', 0.1, 2)
    va, vc = [a, h.real('a2', -1, 1)], [h.real('c2', -1, 1), c]
    rot = lambda v: [-v[1], v[0]]
    steps = lambda k: [i - k//2 for i in range(k)]
    div = lambda k: (k - 1 if k % 2 else max(k - 2, 2))
    if how == 'nx dx':
        g, ex, ey = dict(nx=n, dx=a), [a, 0.0], [0.0, a]
    elif how == 'nx dx vec':
        g, ex, ey = dict(nx=n, dx=h.arr(va)), va, rot(va)
    elif how == 'nx lx':
        g = dict(nx=n, lx=a)
        ex, ey = [a/div(n), 0.0], [0.0, a/div(n)]
    elif how == 'nx lx vec':
        g = dict(nx=n, lx=h.arr(va))
        ex = [e/div(n) for e in va]
        ey = rot(ex)
    elif how == 'lx dx':
        m = (n - 1)*2
        g = dict(lx=a*m, dx=a)
        n = ny = m + 2
        ex, ey = [a, 0.0], [0.0, a]
    elif how in ('lx ly dx dy', 'lx dx dy'):
        m = (n - 1)*2
        g = dict(lx=a*m, dx=a, dy=c)
        if 'ly' in how:
            k = 12 - m
            g['ly'] = c*k
        else:
            k, c = m//2, a*2
            g['dy'] = c
        n, ny = m + 2, k + 2
        ex, ey = [a, 0.0], [0.0, c]
    elif how == 'nx ny dx dy':
        ny = 3
        g, ex, ey = dict(nx=n, ny=ny, dx=a, dy=c), [a, 0.0], [0.0, c]
    elif how == 'nx ny lx ly':
        ny = 4
        g, ex, ey = dict(nx=n, ny=ny, lx=a, ly=c), [a/div(n), 0.0], [0.0, c/div(ny)]
    else:
        ny = 3
        g, ex, ey = dict(nx=n, ny=ny, dx=h.arr(va), dy=h.arr(vc)), va, vc
    if opt.__dict__:
        opt.pupilSize = 7.0
        if how.startswith('nx lx') and how == 'nx lx' and src == 1:
            opt.pupilSize = g.pop('lx')
    if how[:5] == "lx dx" and src:
        if src == 1:
            opt.pupilSize = g.pop('lx')
    xy = [(i*ex[0] + j*ey[0], i*ex[1] + j*ey[1]) for j in steps(ny) for i in steps(n)]
    keep = {k: [e for e in v] for k, v in g.items() if 'vec' in how and k[0] in 'dl'}
    rv = b.RayVector.asGrid(flux=fl, **g, **kw)
    expect(h, b, rv, xy, ref, fl, how)
    for k, v in keep.items():
        for i in range(2):
            h.eq(g[k][i], v[i], k + ' not modified')


class Rng:
    """generator returning given fractions of the interval asked for"""
    def __init__(self, h, n):
        self.f, self.calls = [[h.real(f'u{j}{i}', 0, 1) for i in range(n)] for j in range(2)], []
        self.h = h

    def uniform(self, lo=0.0, hi=1.0, size=None):
        f = self.f[len(self.calls) % 2]
        self.calls.append((lo, hi, size))
        return self.h.arr([lo + (hi - lo)*e for e in f])

    def random(self, size=None):
        return self.uniform(0.0, 1.0, size)


@harness('C16', configs=['grid', 'grid vec', 'polar'], time=60, feas='cheap')
def random(h, b):
    """points drawn uniformly from the region"""
    if h.cfg != 'polar':
        a, c = [h.real('a', 0.1, 2), h.real('a2', -1, 1)], [h.real('c2', -1, 1), h.real('c', 0.1, 2)]
        if h.cfg == 'grid':
            a[1] = c[0] = 0.0
        g = dict(nx=3, lx=h.arr(a), ly=h.arr(c)) if h.cfg == 'grid vec' else dict(nx=3, lx=a[0], ly=c[1])
    else:
        outer, fr = h.real('outer', 0.5, 4), h.real('fr', 0, 0.9)
        g = dict(outer=outer, inner=outer*fr)
    rng = Rng(h, 2)
    fn = b.RayVector.asPolar if h.cfg == 'polar' else b.RayVector.asGrid
    rv = fn(wavelength=1.0, dirCos=[0.0, 0.0, -1.0], nrandom=2, rng=rng, **g)
    d = common(h, rv, 2, 1.0, 1, b.globalCoordSys)
    for i in range(2):
        x, y = d['x'][i], d['y'][i]
        if h.cfg == 'polar':
            h.check(h.both(h.le_(outer*outer*fr*fr, x*x + y*y), h.le_(x*x + y*y, outer*outer)), 'inside the annulus')
        else:
            det = a[0]*c[1] - a[1]*c[0]
            h.assume(h.lt_(0.001, det))
            p, q = x*c[1] - y*c[0], y*a[0] - x*a[1]
            for e in (p, q):
                h.check(h.both(h.le_(-det, 2*e), h.le_(2*e, det)), 'inside the parallelogram')
    if h.cfg == 'polar':
        # uniform per area: the drawn fraction is that of the area
        for i in range(2):
            r2 = d['x'][i]*d['x'][i] + d['y'][i]*d['y'][i]
            area = outer*outer*(1 - fr*fr)
            us = [rng.f[j][i] for j in range(2)]
            h.check(h.either(*[h.same(r2 - outer*outer*fr*fr, u*area) for u in us]), 'uniform per area')


@harness('C16', configs=[(4, 3), (1, 3), (5, 1), (2, 2)], time=60, feas='cheap')
def fan(h, b):
    nx, ny = h.cfg
    kw, ref, opt, src = settings(h, b, layout=True)
    fl, a = h.real('flux', 0, 3), h.real('a', 0.1, 2)
    div = lambda k: (k - 1 if k % 2 else max(k - 2, 2))
    opt.pupilSize = a
    g = {} if src == 1 else dict(lx=a)
    rv = b.RayVector.asFan(nx=nx, ny=ny, flux=fl, **g, **kw)
    xy = []
    if nx > 1:
        xy += [((i - nx//2)*a/div(nx), 0.0) for i in range(nx)]
    if ny > 1:
        xy += [(0.0, (i - ny//2)*a/div(ny)) for i in range(ny)]
    expect(h, b, rv, xy, ref, fl, 'fan')


PI = 3.141592653589793


@harness('C16', configs=[(2, 6, 6), (3, 12, 6), (2, 8, 4), (3, 5, 3), (1, 6, 6)], time=100, feas='cheap')
def polar(h, b):
    nrad, naz, kfold = h.cfg
    import math
    kw, ref, opt, src = settings(h, b, layout=True)
    fl, outer = h.real('flux', 0, 3), h.real('outer', 0.5, 4)
    eps = [0.0, 0.5, 0.61][h.choice('eps', 3)] if nrad > 1 else 0.5
    g = dict(outer=outer, inner=outer*eps)
    if src:
        opt.pupilSize = 2*outer if src == 1 else 17.0
        if src == 2:
            opt.pupilObscuration = 0.125
        elif eps and h.bool('obscuration from optic'):
            opt.pupilObscuration = eps
            g = {}
        elif eps == 0.0:
            if src == 1:
                g = {}
        elif src == 1:
            g = dict(inner=outer*eps)
    elif eps == 0.0:
        g = dict(outer=outer)
    rv = b.RayVector.asPolar(nrad=nrad, naz=naz, kfold=kfold, flux=fl, **g, **kw)
    xy = []
    for i in range(nrad):
        f = 1.0 if nrad == 1 else 1 + (eps - 1)*i/(nrad - 1)
        if f == 0.0:
            xy.append((0.0, 0.0))
            continue
        m = max(int(naz*f/kfold + 1e-9), 1)*kfold
        for j in range(m):
            r = outer*f
            xy.append((r*math.cos(2*PI*j/m), r*math.sin(2*PI*j/m)))
    near(h, b, rv, xy, ref, fl, 'polar')


@harness('C16', configs=[(2, 6, 6), (3, 12, 6), (2, 8, 4), (3, 5, 3)], time=60, feas='cheap')
def rings(h, b):
    """the hexapolar layout as points or as radii and angles"""
    import math
    nrad, naz, kfold = h.cfg
    outer = h.real('outer', 0.5, 4)
    eps = [0.0, 0.5, 0.61, 0.0625][h.choice('eps', 4)]
    kw = dict(outer=outer, inner=outer*eps if eps else 0.0, nrad=nrad, naz=naz, kfold=kfold)
    r, th = b.utils.hexapolar(rth=True, **kw)
    x, y = b.utils.hexapolar(**kw)
    want = []
    for i in range(nrad):
        f = 1 + (eps - 1)*i/(nrad - 1)
        m = max(int(naz*f/kfold + 1e-9), 1)*kfold if f else 1
        want += [(f, 2*PI*j/m) for j in range(m)]
    h.check(len(r) == len(th) == len(x) == len(y) == len(want), 'number of points')
    if not len(r) == len(th) == len(x) == len(y) == len(want):
        return
    for i, (f, a) in enumerate(want):
        for got, exp in ((r[i], outer*f), (th[i], a), (x[i], outer*f*math.cos(a)), (y[i], outer*f*math.sin(a))):
            h.check(h.both(h.le_(got - exp, 1e-9), h.le_(-1e-9, got - exp)), 'point')


def near(h, b, rv, xy, ref, flux, label):
    """as expect, up to rounding of constants: recover the stop points and weights"""
    h.check(len(rv) == len(xy), label + ': number of rays')
    if len(rv) != len(xy):
        return
    x, y = h.arr([p[0] for p in xy]), h.arr([p[1] for p in xy])
    fl = h.arr(flux) if isinstance(flux, list) else flux
    w = snap(b.RayVector.fromStop(x, y, flux=fl, **ref))
    d = snap(rv)
    finite = 'source' in ref
    for f in FIELDS:
        for i in range(len(xy)):
            if finite and f in ('vx', 'vy', 'vz'):
                continue
            e = d[f][i] - w[f][i]
            h.check(h.both(h.le_(e, 1e-9), h.le_(-1e-9, e)), f'{label}: {f}')
    if finite:
        n = ref['medium'].n
        for i in range(len(xy)):
            v, u = [[g[f][i] for f in ('vx', 'vy', 'vz')] for g in (d, w)]
            for c in cross(v, u):
                h.check(h.both(h.le_(c, 1e-9), h.le_(-1e-9, c)), label + ': direction')
            h.check(h.lt_(0, h.dot(v, u)), label + ': sense')
            h.eq(h.dot(v, v)*n*n, 1, label + ': speed')
    h.check(d['coordSys'] == ref['coordSys'], label + ': frame')
    for f in FIELDS:
        h.check(getattr(rv, f).dtype.kind in 'fO', label + ': floating point')
    for i in range(len(xy)):
        h.check(not d['failed'][i] and not d['vignetted'][i], label + ': flags')


GAUSS = {1: ([0.0], [2.0]), 2: ([-3**-0.5, 3**-0.5], [1.0, 1.0]), 3: ([-0.6**0.5, 0.0, 0.6**0.5], [5/9, 8/9, 5/9])}


@harness('C16', configs=['counts', 'radii', 'angles', 'both', 'GQ', 'GQ angles', 'GQ default'], time=60, feas='cheap')
def spokes(h, b):
    import math
    kw, ref, opt, src = settings(h, b, layout=True)
    fl, outer, eps = h.real('flux', 0, 3), h.real('outer', 0.5, 4), [0.0, 0.5][h.choice('eps', 2)]
    g = dict(outer=outer, inner=outer*eps)
    if src == 1:
        opt.pupilSize = 2*g.pop('outer')
    elif src == 2:
        opt.pupilSize = 17.0
    if eps == 0.0:
        g.pop('inner')
    m = h.choice('rings', 3) + 1 if h.cfg != 'GQ default' else h.choice('rings', 2) + 1
    k = h.choice('spokes', 3) + 1
    rad = [outer*eps + outer*(1 - eps)*i/(m - 1) if m > 1 else outer*eps for i in range(m)]
    ang = [2*PI*i/k for i in range(k)]
    sp, ri = k, m
    if h.cfg in ('radii', 'both'):
        rad = [h.real(f'r{i}', 0, 4) for i in range(m)]
        ri = h.arr(rad)
    if h.cfg in ('angles', 'both', 'GQ angles'):
        ang = [0.1 + i*i*0.7 for i in range(k)]
        sp = h.arr(ang)
    g['spacing'] = 'GQ' if h.cfg.startswith('GQ') else 'uniform'
    weights = None
    if g['spacing'] == 'GQ':
        L, w = GAUSS[m]
        if h.cfg == 'GQ default':
            sp, k = None, 2*m + 1
            ang = [2*PI*i/k for i in range(k)]
        import numpy
        f = [(eps**2 + (1 + e)*(1 - eps**2)/2)**0.5 for e in L]
        rad = [e*outer for e in f]
        weights = [e*PI*(1 - eps**2)/(2*k) for e in w]*k
    rv = b.RayVector.asSpokes(spokes=sp, rings=ri, flux=fl, **g, **kw)
    xy = [(r*math.cos(a), r*math.sin(a)) for a in ang for r in rad]
    near(h, b, rv, xy, ref, weights if weights else fl, 'spokes')


@harness('C16', configs=['global', 'given'], time=60, feas='cheap')
def field_angles(h, b):
    """one stop point, many field angles"""
    st, f = stop(h, b, 'Paraboloid', tilted(h, b, 'sc'))
    back, n, lam, flux = h.real('back', -9, 50), h.real('n', 1, 3), h.real('lam', 0.25, 2), h.real('flux', 0, 3)
    if h.cfg == 'global':
        st, f, back, n = b.Interface(b.Plane(), name='p'), (lambda x, y: 0.0), 40.0, 1.0
        kw = {}
    elif h.bool('optic'):
        kw = dict(optic=Optic(backDist=back, inMedium=b.ConstMedium(n), stopSurface=st))
    else:
        kw = dict(backDist=back, medium=b.ConstMedium(n), stopSurface=st)
        if h.bool('other optic'):
            kw['optic'] = Optic(backDist=3.0, inMedium=b.ConstMedium(1.7), stopSurface=b.Interface(b.Plane(), name='o'))
    th = [(h.real(f'tx{i}', -1, 1), h.real(f'ty{i}', -1, 1)) for i in range(2)]
    tx, ty = h.arr([t[0] for t in th]), h.arr([t[1] for t in th])
    px, py = h.real('px', -2, 2), h.real('py', -2, 2)
    proj = ['gnomonic', 'stereographic'][h.choice('proj', 2)]
    rv = b.RayVector.fromFieldAngles(tx, ty, projection=proj, wavelength=lam, x=px, y=py, flux=flux, **kw)
    d = snap(rv)
    h.check(d['coordSys'] == st.coordSys, 'frame of the stop')
    h.check(len(rv) == 2, 'one ray per angle')
    for i, (a, c) in enumerate(th):
        if proj == 'gnomonic':
            s2, g = 1 + a*a + c*c, None
            v = [d[k][i] for k in ('vx', 'vy', 'vz')]
            h.eq(h.dot(v, v)*n*n, 1, 'speed')
            h.eq(v[0] + a*v[2], 0, 'direction x')
            h.eq(v[1] + c*v[2], 0, 'direction y')
        else:
            r2 = (a*a + c*c)/4
            u = [a/(1 + r2), c/(1 + r2), -(1 - r2)/(1 + r2)]
            v = [d[k][i] for k in ('vx', 'vy', 'vz')]
            for j in range(3):
                h.eq(v[j]*n, u[j], 'direction over the index')
        h.check(h.lt_(v[2], 0), 'downwards')
        for j, (k, q) in enumerate(zip('xyz', [px, py, f(px, py)])):
            h.eq(d[k][i], q - v[j]*n*back, 'backDist before the stop point')
        h.eq(d['t'][i], -back*n, 'time')
        h.eq(d['wavelength'][i], lam, 'wavelength')
        h.eq(d['flux'][i], flux, 'flux')
        h.check(not d['failed'][i] and not d['vignetted'][i], 'flags')
    for i in range(2):
        h.eq(tx[i], th[i][0], 'angles not modified')
        h.eq(ty[i], th[i][1], 'angles not modified')


@harness('C16', configs=['grid', 'polar', 'spokes', 'stop'], time=60, feas='cheap')
def angles(h, b):
    """theta_x, theta_y with a projection are the direction it maps them to"""
    fn = {'grid': lambda **k: b.RayVector.asGrid(nx=2, dx=0.5, **k), 'polar': lambda **k: b.RayVector.asPolar(outer=1.0, nrad=2, naz=6, **k),
          'spokes': lambda **k: b.RayVector.asSpokes(outer=1.0, rings=2, spokes=2, **k),
          'stop': lambda **k: b.RayVector.fromStop(0.5, 0.25, **k)}[h.cfg]
    a, c = h.real('tx', -1, 1), h.real('ty', -1, 1)
    proj = ['gnomonic', 'stereographic', 'lambert', 'orthographic'][h.choice('proj', 4)]
    if proj == 'orthographic':
        h.assume(h.lt_(a*a + c*c, 0.99))
    rv = fn(theta_x=a, theta_y=c, projection=proj, wavelength=1.0)
    want = fn(dirCos=b.utils.fieldToDirCos(a, c, projection=proj), wavelength=1.0)
    same_rays(h, rv, want, 'same direction')
    # the source takes precedence
    s = h.vec('src', 3, 4, 9)
    got = fn(theta_x=a, theta_y=c, source=s, wavelength=1.0)
    same_rays(h, got, fn(source=s, wavelength=1.0), 'angles ignored with a source')


@harness('C16', configs=[None], time=30)
def contradictions(h, b):
    R = b.RayVector
    kw = dict(dirCos=[0.0, 0.0, -1.0])
    a, c = h.real('a', 0.1, 2), h.real('c', 0.1, 2)
    for g in (dict(), dict(nx=3), dict(dx=a), dict(lx=c), dict(nx=3, dx=a, lx=c)):
        h.raises(lambda: R.asGrid(wavelength=1.0, **kw, **g), ValueError, 'grid: two of nx, dx, lx')
    h.raises(lambda: R.asGrid(nx=3, dx=a, **kw), ValueError, 'grid: wavelength')
    h.raises(lambda: R.asPolar(outer=a, nrad=2, naz=6, **kw), ValueError, 'polar: wavelength')
    h.raises(lambda: R.asSpokes(outer=a, rings=2, spokes=3, **kw), ValueError, 'spokes: wavelength')
    h.raises(lambda: R.fromStop(a, c, **kw), ValueError, 'stop: wavelength')
    h.raises(lambda: R.fromFieldAngles(h.arr([a]), h.arr([c])), ValueError, 'angles: wavelength')


@harness('C16', configs=['array', 'list', 'mixed'], time=40, feas='cheap')
def stop_inputs(h, b):
    """arrays are not modified, not kept; scalars broadcast"""
    vals = [h.real(f'x{i}', -2, 2) for i in range(3)]
    y0 = h.real('y0', -2, 2)
    x = h.arr(vals)
    y = {'array': h.arr([y0, y0, y0]), 'list': [y0, y0, y0], 'mixed': y0}[h.cfg]
    xin = [e for e in vals] if h.cfg == 'list' else x
    dc = h.arr([0.0, 0.0, -2.0])
    cs = tilted(h, b, 'c')
    kw = dict(wavelength=1.0, dirCos=dc, coordSys=cs)
    rv = b.RayVector.fromStop(xin, y, **kw)
    ref = b.RayVector.fromStop(h.arr(vals), h.arr([y0]*3), **kw)
    same_rays(h, rv, ref, 'broadcast')
    before = snap(rv)
    x[...] = 5.0
    dc[...] = 7.0
    same_rays(h, rv, before, 'later changes of the inputs')


FACTORIES = {
    'stop': (lambda b, **k: b.RayVector.fromStop([0.5, -0.25], [0.25, 1.0], **k), [(0.5, 0.25), (-0.25, 1.0)]),
    'grid': (lambda b, **k: b.RayVector.asGrid(nx=1, dx=0.5, **k), [(0.0, 0.0)]),
    'grid2': (lambda b, **k: b.RayVector.asGrid(nx=2, ny=1, dx=0.5, dy=0.5, **k), [(-0.5, 0.0), (0.0, 0.0)]),
    'polar': (lambda b, **k: b.RayVector.asPolar(outer=1.0, inner=0.0, nrad=2, naz=1, kfold=1, **k), [(1.0, 0.0), (0.0, 0.0)]),
    'spokes': (lambda b, **k: b.RayVector.asSpokes(outer=1.0, inner=0.25, rings=2, spokes=1, **k), [(0.25, 0.0), (1.0, 0.0)]),
    'fan': (lambda b, **k: b.RayVector.asFan(nx=2, ny=1, lx=1.0, **k), [(-0.5, 0.0), (0.0, 0.0)]),
}


@harness('C16', configs=sorted(FACTORIES), time=60, feas='cheap')
def options(h, b):
    """every layout treats the options as fromStop does"""
    fn, xy = FACTORIES[h.cfg]
    kw, ref, opt, how = settings(h, b)
    opt.pupilSize = 3.0
    fl = h.real('flux', 0, 3)
    expect(h, b, fn(b, flux=fl, **kw), xy, ref, fl, 'options')
    if h.cfg == 'fan':
        expect(h, b, fn(b, **kw), xy, ref, 1.0, 'flux left out')
    else:
        fs = [h.real(f'f{i}', 0, 3) for i in range(len(xy))]
        arr = h.arr(fs)
        expect(h, b, fn(b, flux=arr, **kw), xy, ref, fs, 'fluxes')
        expect(h, b, fn(b, **kw), xy, ref, 1.0, 'flux left out')


@harness('C16', configs=sorted(FACTORIES), time=60, feas='cheap')
def left_out(h, b):
    fn, xy = FACTORIES[h.cfg]
    defaults(h, b, lambda **k: fn(b, **k), xy)
