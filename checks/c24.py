"""C24: derived image quantities follow from the traced rays."""
from vlib.harness import harness
from checks.rays import snap

LAM = 0.25       # long waves: phases stay small enough to compare


def optic(h, b, kind='flat', blocked=True, sphere=True):
    """a stop, perhaps a mirror, and a detector a little off and inclined"""
    half = h.real('half', 0, 2)
    x, y, z = (h.real(f'd{c}', -1, 1) for c in 'xyz')
    items = [b.Baffle(b.Plane(), name='stop', obscuration=b.ObscRectangle(half, 9.0, -1.5, 0.0) if blocked else None)]
    kw = dict(sphereRadius=h.real('SR', 5, 9)) if sphere else {}
    if kind == 'parabola':
        R = h.real('R', 8, 16)
        items += [b.Mirror(b.Paraboloid(R), name='M'), b.Detector(b.Plane(), name='D', coordSys=b.CoordSys(h.arr([x, y, R/2 + z])))]
    elif kind == 'screen':
        # outgoing directions are affine in the pupil coordinates
        items += [b.OPDScreen(b.Plane(), b.Zernike([0.0, 0.0, h.real('q2', -1/64, 1/64), 1/128, 0.0, h.real('q5', -1/64, 1/64), 1/64]), name='P'),
                  b.Detector(b.Plane(), name='D', coordSys=b.CoordSys(h.arr([x, y, z - 3])))]
    else:
        items += [b.Detector(b.Plane(), name='D', coordSys=b.CoordSys(h.arr([x, y, z - 3])))]
    return b.CompoundOptic(items, backDist=4.0, pupilSize=2.0, stopSurface=b.Interface(b.Plane()), name='S', **kw)


FIELDS = {'axis': (0.0, 0.0), 'off': (0.75, 0.0), 'skew': (-1.0, 0.5)}       # tangents with rational cosines


def field(h, kind='free'):
    return FIELDS[kind] if kind in FIELDS else (h.real('tx', -0.25, 0.25), h.real('ty', -0.25, 0.25))


def grid(b, o, f, nx, projection='gnomonic'):
    return b.RayVector.asGrid(optic=o, wavelength=LAM, nx=nx, theta_x=f[0], theta_y=f[1], projection=projection)


def centre(nx):
    return (nx//2)*nx + nx//2


def reference(h, d, nx, ref):
    """the point that an image is centred on"""
    if ref == 'chief':
        k = centre(nx)
        return [d[c][k] for c in 'xyz']
    ok = [i for i in range(nx*nx) if not d['vignetted'][i]]
    return [sum(d[c][i] for i in ok)/len(ok) for c in 'xyz'] if ok else None


@harness('C24', configs=[(n, r, f) for n in (3, 4) for r in ('chief', 'mean', 'zero') for f in ('off', 'skew')] + [(3, 'zero', 'free'), (3, 'chief', 'free')], time=120, feas='cheap')
def spot(h, b):
    """a spot diagram holds the clear rays' positions about the reference point"""
    nx, ref, fld = h.cfg
    o, f = optic(h, b), field(h, fld)
    d = snap(o.trace(grid(b, o, f, nx)))
    p = [0, 0, 0] if ref == 'zero' else reference(h, d, nx, ref)
    if p is None:
        return
    x, y = b.analysis.spot(o, *f, LAM, projection='gnomonic', nx=nx, reference=ref)
    ok = [i for i in range(nx*nx) if not d['vignetted'][i]]
    h.check(len(x) == len(y) == len(ok), 'only clear rays')
    if len(x) == len(ok):
        for k, i in enumerate(ok):
            h.eq(x[k], d['x'][i] - p[0], 'x')
            h.eq(y[k], d['y'][i] - p[1], 'y')


@harness('C24', time=30)
def reciprocal(h, b):
    """b_i . a_j is 2 pi / N for i = j and zero otherwise"""
    a = [h.vec('a1', 2), h.vec('a2', 2)]
    n = h.real('N', 1, 64)
    det = a[0][0]*a[1][1] - a[0][1]*a[1][0]
    h.assume(h.either(h.le_(0.1, det), h.le_(det, -0.1)))
    r = b.analysis._reciprocalLatticeVectors(a[0], a[1], n)
    for i in range(2):
        for j in range(2):
            h.eq(h.dot(r[i], a[j])*n, 2*h.np.pi if i == j else 0, 'dual')


def close(h, a, b, label, tol):
    d = a - b
    h.check(h.both(h.le_(d, tol), h.le_(-tol, d)), label)


def to_sphere(h, p, v, q, R):
    """distance along v (unit, in vacuum) from p to the sphere about q, on the side light comes from"""
    w = [p[i] - q[i] for i in range(3)]
    a = h.dot(w, v)
    return -a - h.np.sqrt(a*a - h.dot(w, w) + R*R)


@harness('C24', configs=[(3, r, f, 'own') for r in ('chief', 'mean') for f in ('axis', 'off', 'skew')] + [(3, 'chief', 'off', 'given'), (4, 'chief', 'axis', 'own'), (4, 'mean', 'axis', 'own')],
         thorough=[(4, r, f, 'own') for r in ('chief', 'mean') for f in ('off', 'skew')], time=120, feas='cheap')
def wavefront(h, b):
    """waves of path from the reference sphere, relative to the reference ray; blocked samples masked"""
    nx, ref, fld, own = h.cfg
    o, f = optic(h, b), field(h, fld)
    kw = {} if own == 'own' else {'sphereRadius': h.real('R', 5, 9)}
    R = kw.get('sphereRadius', o.sphereRadius)
    d = snap(o.trace(grid(b, o, f, nx)))
    q = reference(h, d, nx, ref)
    if q is None:
        return
    w = b.analysis.wavefront(o, *f, LAM, projection='gnomonic', nx=nx, reference=ref, **kw)
    h.check(w.array.shape == (nx, nx), 'shape')
    step = 2.0/(nx - 2 + nx % 2)
    for i in range(2):
        for j in range(2):
            h.eq(w.primitiveVectors[i][j], step if i == j else 0, 'pupil lattice')
    ts = {}
    for i in range(nx*nx):
        h.check(bool(h.np.ma.getmaskarray(w.array)[i//nx][i % nx]) == bool(d['vignetted'][i]), 'masked exactly where blocked')
        if not d['vignetted'][i]:
            ts[i] = d['t'][i] + to_sphere(h, [d[c][i] for c in 'xyz'], [d['v' + c][i] for c in 'xyz'], q, R)
    W = {i: w.array.data[i//nx][i % nx]*LAM for i in ts}
    if ref == 'mean':
        h.eq(sum(W.values()), 0, 'relative to the mean')
        k = min(ts)
        for i in ts:
            h.eq(W[i] - W[k], ts[k] - ts[i], 'path difference')
    else:
        for i, t in ts.items():
            h.eq(W[i], d['t'][centre(nx)] - R - t, 'path difference')


def free_points(h, n, lo=-2, hi=2, p='u'):
    return h.arr([h.real(f'{p}{i}', lo, hi) for i in range(n)])


@harness('C24', configs=[3, 4], thorough=[5], time=60, feas='cheap')
def fit(h, b):
    """a linear map of the plane is recovered exactly; any other data leave a residual orthogonal to the map's terms"""
    n = h.cfg
    pts = [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (-1.0, 0.5), (0.5, -2.0)][:n]
    u, v = h.arr([p[0] for p in pts]), h.arr([p[1] for p in pts])
    sx, sy = h.real('sx', 0.5, 2), h.real('sy', 0.5, 2)
    u, v = u*sx, v*sy
    c = [h.vec(f'c{i}', 2) for i in range(3)]
    exact = h.bool('exact')
    k = [c[0][j] + c[1][j]*u + c[2][j]*v for j in range(2)] if exact else [free_points(h, n, p='kx'), free_points(h, n, p='ky')]
    s = b.utils.bilinear_fit(u, v, *k)
    for j in range(2):
        if exact:
            for i in range(3):
                h.eq(s[i][j], c[i][j], 'coefficient')
        r = [k[j][i] - s[0][j] - s[1][j]*u[i] - s[2][j]*v[i] for i in range(n)]
        for w in ([1]*n, u, v):
            h.eq(sum(r[i]*w[i] for i in range(n)), 0, 'residual')


@harness('C24', configs=[(2, 6, 'skew', False), (2, 6, 'off', False), (2, 6, 'off', True), (2, 6, 'skew', True)], time=100, feas='cheap')
def pupil_map(h, b):
    """the rate at which outgoing wavevectors change with pupil position: exact where they are linear in it"""
    nrad, naz, fld, blocked = h.cfg
    o, f = optic(h, b, 'screen', blocked=blocked), field(h, fld)
    r = b.RayVector.asPolar(optic=o, wavelength=LAM, theta_x=f[0], theta_y=f[1], projection='gnomonic', nrad=nrad, naz=naz)
    u = [[x for x in r.x], [y for y in r.y]]
    o.trace(r)
    ok = [i for i in range(len(r)) if not r.vignetted[i]]
    if len(ok) < 4:
        return
    J = b.analysis.dkdu(o, *f, LAM, projection='gnomonic', nrad=nrad, naz=naz)
    h.check(J.shape == (2, 2), 'shape')
    for j, k in enumerate((r.kx, r.ky)):
        for i in ok[1:]:
            h.eq((k[i] - k[ok[0]])*LAM, sum(J[a][j]*(u[a][i] - u[a][ok[0]]) for a in range(2))*LAM, 'linear in the pupil')


@harness('C24', configs=['skew', 'off'], time=100, feas='cheap')
def pupil_fit(h, b):
    """where outgoing wavevectors are not linear in the pupil, the residuals of the clear rays' are orthogonal to 1 and the pupil coordinates"""
    h.numeric()
    f = field(h, h.cfg)
    z = b.Zernike([0.0, 0.0, h.real('q2', -1/64, 1/64), 1/128, 0.0, 0.0, 1/64, h.real('q7', -1/256, 1/256), 1/256])
    o = b.CompoundOptic([b.Baffle(b.Plane(), name='stop', obscuration=b.ObscRectangle(1.25, 9.0, -1.5, 0.0)), b.OPDScreen(b.Plane(), z, name='P'),
                         b.Detector(b.Plane(), name='D', coordSys=b.CoordSys([0.0, 0.0, -3.0]))], backDist=4.0, pupilSize=2.0, stopSurface=b.Interface(b.Plane()), name='S')
    kw = dict(projection='gnomonic', nrad=2, naz=6)
    r = b.RayVector.asPolar(optic=o, wavelength=LAM, theta_x=f[0], theta_y=f[1], **kw)
    u = [[x for x in r.x], [y for y in r.y]]
    o.trace(r)
    ok = [i for i in range(len(r)) if not r.vignetted[i]]
    h.check(3 < len(ok) < len(r), 'some blocked')
    J = b.analysis.dkdu(o, *f, LAM, **kw)
    m = [sum(u[a][i] for i in ok)/len(ok) for a in range(2)]
    for j, k in enumerate((r.kx, r.ky)):
        km = sum(k[i] for i in ok)/len(ok)
        res = [k[i] - km - sum(J[a][j]*(u[a][i] - m[a]) for a in range(2)) for i in ok]
        for a in range(2):
            close(h, sum(e*(u[a][i] - m[a]) for e, i in zip(res, ok)), 0, 'residual', 1e-9)


def square(z):
    return z.real*z.real + z.imag*z.imag


@harness('C24', configs=[(3, 'chief', 'off', 'number', None), (3, 'mean', 'off', 'number', None), (3, 'chief', 'skew', 'vectors', 2), (4, 'chief', 'off', 'pair', 1), (3, 'mean', 'skew', 'vectors', 1), (3, 'chief', 'off', 'pair', 4)],
         time=120, feas='cheap')
def huygens(h, b):
    """the intensity at each lattice point about the reference point is that of the clear rays' summed amplitudes"""
    nx, ref, fld, steps, out = h.cfg
    o, f = optic(h, b), field(h, fld)
    r = o.trace(grid(b, o, f, nx))
    d = snap(r)
    q = reference(h, d, nx, ref)
    if q is None:
        return
    if steps == 'number':
        s = h.real('dx', 0.01, 1)
        kw, A = dict(dx=s), [[s, 0], [0, s]]
    elif steps == 'pair':
        s, t = h.real('dx', 0.01, 1), h.real('dy', 0.01, 1)
        kw, A = dict(dx=s, dy=t), [[s, 0], [0, t]]
    else:
        A = [h.vec('dx', 2, -1, 1), h.vec('dy', 2, -1, 1)]
        kw = dict(dx=h.arr(A[0]), dy=h.arr(A[1]))
    if out:
        kw['nxOut'] = out
    n = out or nx
    p = b.analysis.huygensPSF(o, *f, LAM, projection='gnomonic', nx=nx, reference=ref, **kw)
    h.check(p.array.shape == (n, n), 'shape')
    for i in range(2):
        for j in range(2):
            h.eq(p.primitiveVectors[i][j], A[i][j], 'lattice')
    if p.array.shape == (n, n):
        for iy in range(n):
            for ix in range(n):
                at = [q[j] + (ix - n//2)*A[0][j] + (iy - n//2)*A[1][j] for j in range(2)] + [0.0]
                h.eq(p.array[iy][ix], square(r.sumAmplitude(at, r.t[0])), 'intensity')


def number_optic(h, b):
    """as 'screen', with numbers except for the detector's place and the sphere's radius"""
    x, y = h.real('dx', -1, 1), h.real('dy', -1, 1)
    items = [b.Baffle(b.Plane(), name='stop', obscuration=b.ObscRectangle(1.25, 9.0, -1.5, 0.0)),
             b.OPDScreen(b.Plane(), b.Zernike([0.0, 0.0, 1/64, 0.0, 1/128, 1/256, -1/64]), name='P'),
             b.Detector(b.Plane(), name='D', coordSys=b.CoordSys(h.arr([x, y, -3.0])))]
    return b.CompoundOptic(items, backDist=4.0, pupilSize=2.0, stopSurface=b.Interface(b.Plane()), name='S', sphereRadius=h.real('SR', 5, 9))


def transform(h, v):
    """discrete Fourier transform of complex pairs, None for zero"""
    N, out = len(v), []
    w = [(h.np.cos(2*h.np.pi*k/N), -h.np.sin(2*h.np.pi*k/N)) for k in range(N)]
    for j in range(N):
        t = None
        for k in range(N):
            if v[k] is not None:
                (c, s), (x, y) = w[j*k % N], v[k]
                u = (c*x - s*y, c*y + s*x)
                t = u if t is None else (t[0] + u[0], t[1] + u[1])
        out.append(t)
    return out


@harness('C24', configs=[(3, 1, 'off'), (3, 2, 'off'), (4, 1, 'off'), (4, 2, 'off')], time=120, feas='cheap')
def fourier(h, b):
    """the squared transform of the padded pupil field, zero where blocked, on the lattice reciprocal to the pupil's wavevectors"""
    h.numeric()
    nx, pad, fld = h.cfg
    o, f = number_optic(h, b), field(h, fld)
    kw = dict(projection='gnomonic', nx=nx)
    p = b.analysis.fftPSF(o, *f, LAM, pad_factor=pad, **kw)
    w = b.analysis.wavefront(o, *f, LAM, **kw)
    N = nx*pad
    h.check(p.array.shape == (N, N), 'shape')
    m = h.np.ma.getmaskarray(w.array)
    E = {}
    for i in range(nx):
        for j in range(nx):
            if not m[i][j]:
                a = 2*h.np.pi*w.array.data[i][j]
                E[i, j] = (h.np.cos(a), h.np.sin(a))
    s = N//2 - nx//2
    F = [[E.get((i - s, j - s)) for j in range(N)] for i in range(N)]
    F = list(zip(*[transform(h, r) for r in F]))        # rows, then columns
    F = list(zip(*[transform(h, c) for c in F]))
    if p.array.shape == (N, N):
        for ky in range(N):
            for kx in range(N):
                z = F[(ky - N//2) % N][(kx - N//2) % N] or (0, 0)
                h.eq(p.array[ky][kx], z[0]*z[0] + z[1]*z[1], 'intensity', 1e-9)
    K = b.analysis.dkdu(o, *f, LAM, projection='gnomonic').dot(w.primitiveVectors)
    for i in range(2):
        for j in range(2):
            close(h, h.dot(p.primitiveVectors[i], K[j])*N, 2*h.np.pi if i == j else 0, 'dual', 1e-9)


@harness('C24', configs=[(k, f, w) for w in ('jacobian', 'inverse') for k, f in (('plain', 'free'), ('blocked', 'off'), ('turned', 'skew')) if (w, f) != ('inverse', 'free')] + [('plain', 'off', 'focal'), ('turned', 'skew', 'focal')],
         time=120, feas='cheap')
def plate(h, b):
    """image motion per field angle: exact for a pinhole, whose image is the tangent plane"""
    kind, fld, what = h.cfg
    x, y, D = h.real('dx', -1, 1), h.real('dy', -1, 1), h.real('D', 1, 9)
    Q = [[1, 0], [0, 1]]
    kw = {}
    if kind == 'turned':
        c, s = 0.6, 0.8
        Q = [[c, -s], [s, c]]
        kw['rot'] = h.arr([[c, -s, 0.0], [s, c, 0.0], [0.0, 0.0, 1.0]])
    ob = b.ObscRectangle(h.real('half', 0, 1), 9.0, -1.5, 0.0) if kind == 'blocked' else None
    o = b.CompoundOptic([b.Baffle(b.Plane(), name='stop', obscuration=ob), b.Detector(b.Plane(), name='D', coordSys=b.CoordSys(h.arr([x, y, -D]), **kw))],
                        backDist=4.0, pupilSize=2.0, stopSurface=b.Interface(b.Plane()), name='S')
    f = FIELDS[fld] if fld in FIELDS else (h.real('tx', -0.25, 0.25), 0.0)
    h.numeric()
    fn = {'jacobian': b.analysis.drdth, 'inverse': b.analysis.dthdr, 'focal': b.analysis.focalLength}[what]
    kw = dict(nrad=2, naz=6, projection='gnomonic')
    r = fn(o, *f, LAM, **kw)
    J = b.analysis.drdth(o, *f, LAM, **kw)
    if what == 'focal':
        h.eq(r, h.np.sqrt(J[0][0]*J[1][1] - J[0][1]*J[1][0]), 'root of the determinant')
        return
    for i in range(2):
        for j in range(2):
            if what == 'jacobian':
                close(h, r[i][j], D*Q[j][i], 'jacobian', 1e-6)
            else:
                close(h, sum(r[i][k]*J[k][j] for k in range(2)), 1 if i == j else 0, 'inverse', 1e-6)


@harness('C24', configs=['any', 'parallel'], time=60)
def nearest(h, b):
    """the point of one line nearest another; parallel lines are refused"""
    P, Q, u = h.arr(h.vec('P', lo=-2, hi=2)), h.arr(h.vec('Q', lo=-2, hi=2)), h.unit('u')
    if h.cfg == 'parallel':
        u = [2.0, 1.0, -2.0]
        k = [1.0, -1.0, 0.5][h.choice('k', 3)]
        h.raises(lambda: b.analysis._closestApproach(P, h.arr(u), Q, h.arr([k*c for c in u])), ValueError, 'parallel')
        return
    v = h.unit('v')
    c = h.dot(u, v)
    h.assume(h.le_(c*c, 0.9))
    X = b.analysis._closestApproach(P, h.arr(u), Q, h.arr(v))
    s = [X[i] - P[i] for i in range(3)]
    for i, j in ((0, 1), (1, 2), (2, 0)):
        h.eq(s[i]*u[j], s[j]*u[i], 'on the first line')
    # the connection to the foot on the second line is perpendicular to both
    m = h.dot([X[i] - Q[i] for i in range(3)], v)
    w = [X[i] - Q[i] - m*v[i] for i in range(3)]
    h.eq(h.dot(w, u), 0, 'perpendicular')


def roots(h):
    r3, r2 = h.np.sqrt(3.0), h.np.sqrt(2.0)
    return r3, r2*r3


def zern(h, j, x, y, e=0.0):
    """annular Zernike polynomials 1 to 6 of the unit disk"""
    r3, r6 = roots(h)
    if e:
        n = (1 + e*e)**0.5
        m = (1 + e**2 + e**4)**0.5
    else:
        n = m = 1.0
    return [None, 1.0 + 0*x, 2*x/n, 2*y/n, r3*(2*(x*x + y*y) - 1 - e*e)/(1 - e*e), 2*r6*x*y/m, r6*(x*x - y*y)/m][j]


def slope(h, j, x, y):
    r3, r6 = roots(h)
    return [None, (0, 0), (2, 0), (0, 2), (4*r3*x, 4*r3*y), (2*r6*y, 2*r6*x), (2*r6*x, -2*r6*y)][j]


def pinhole(h, b):
    """a partly blocked stop and a detector anywhere behind it"""
    x, y, z = (h.real(f'd{c}', -1, 1) for c in 'xyz')
    items = [b.Baffle(b.Plane(), name='stop', obscuration=b.ObscRectangle(1.25, 9.0, -1.5, 0.0)), b.Detector(b.Plane(), name='D', coordSys=b.CoordSys(h.arr([x, y, z - 3.0])))]
    return b.CompoundOptic(items, backDist=4.0, pupilSize=2.0, stopSurface=b.Interface(b.Plane()), name='S', sphereRadius=h.real('SR', 5, 9))


@harness('C24', configs=[(3, 3, 0.0, 'chief', 'off'), (3, 3, 0.0, 'mean', 'off'), (4, 3, 0.0, 'chief', 'axis'), (4, 4, 0.0, 'mean', 'off'), (4, 3, 0.5, 'chief', 'off')], time=120, feas='cheap')
def zernike(h, b):
    """the fitted terms leave a residual orthogonal to every term over the clear samples"""
    h.exact_roots()
    nx, jmax, eps, ref, fld = h.cfg
    if eps:
        h.numeric()
    o, f = pinhole(h, b), field(h, fld)
    kw = dict(projection='gnomonic', nx=nx, reference=ref)
    w = b.analysis.wavefront(o, *f, LAM, **kw).array
    m = h.np.ma.getmaskarray(w)
    n = sum(not m[i][j] for i in range(nx) for j in range(nx))
    c = b.analysis.zernike(o, *f, LAM, jmax=jmax, eps=eps, **kw)
    h.check(len(c) == jmax + 1, 'length')
    h.eq(c[0], 0, 'unused entry')
    at = {}
    for i in range(nx):
        for j in range(nx):
            if not m[i][j]:
                s = 2.0/(nx - 2 + nx % 2)
                at[i, j] = ((j - nx//2)*s, (i - nx//2)*s)
    res = {k: w.data[k] - sum(c[j]*zern(h, j, *p, eps) for j in range(1, jmax + 1)) for k, p in at.items()}
    for j in range(1, jmax + 1):
        r = sum(res[k]*zern(h, j, *p, eps) for k, p in at.items())*LAM
        if eps:
            close(h, r, 0, 'residual', 1e-9)
        else:
            h.eq(r, 0, 'residual', 1e-9)


@harness('C24', configs=[(1, 3, 3, 0.0, 'chief'), (2, 5, 6, 0.0, 'chief'), (1, 3, 3, 0.5, 'mean'), (2, 3, 4, 0.25, 'chief'), (2, 6, 6, 0.5, 'chief')], time=120, feas='cheap')
def quadrature(h, b):
    """each term is the wavefront's mean product with it, by quadrature over the unblocked pupil"""
    h.exact_roots()
    h.numeric()
    rings, spokes, jmax, eps, ref = h.cfg
    o, f = number_optic(h, b), field(h, 'off')
    r = b.RayVector.asSpokes(optic=o, wavelength=LAM, inner=eps, theta_x=f[0], theta_y=f[1], projection='gnomonic', rings=rings, spokes=spokes, spacing='GQ')
    ep = r.copy()
    ep.toCoordSys(b.globalCoordSys)
    b.Plane().intersect(ep)
    xy = [(x, y) for x, y in zip(ep.x, ep.y)]
    wt = [x for x in r.flux]
    d = snap(o.trace(r))
    c = b.analysis.zernikeGQ(o, *f, LAM, projection='gnomonic', rings=rings, spokes=spokes, jmax=jmax, eps=eps, reference=ref)
    n = len(wt)
    if ref == 'chief':
        ch = o.trace(b.RayVector.fromStop(0.0, 0.0, optic=o, wavelength=LAM, theta_x=f[0], theta_y=f[1], projection='gnomonic'))
        q = [ch.x[0], ch.y[0], ch.z[0]]
    else:
        ok = [i for i in range(n) if not d['vignetted'][i]]
        q = [sum(d[k][i] for i in ok)/len(ok) for k in 'xyz']
    R = o.sphereRadius
    S, cs = b.Sphere(-R), r.coordSys.shiftLocal(h.arr([q[0] + 0, q[1] + 0, q[2] + R]))
    t = [x for x in S.intersect(r.toCoordSys(cs)).t]
    t0 = S.intersect(ch.toCoordSys(cs)).t[0] if ref == 'chief' else sum(t[i] for i in ok)/len(ok)
    h.check(len(c) == jmax + 1, 'length')
    Z = h.zernike_basis(jmax, h.arr([p[0] for p in xy]), h.arr([p[1] for p in xy]), R_outer=1.0, R_inner=eps)
    for j in range(1, jmax + 1):
        want = sum((t0 - t[i])*wt[i]*Z[j][i] for i in range(n))/(h.np.pi*(1 - eps*eps))
        h.eq(c[j]*LAM, want, 'coefficient', 1e-9)


@harness('C24', configs=[('TA', 3, 'chief', 'given'), ('TA', 6, 'mean', 'given'), ('TA', 3, 'chief', 'own'), ('XY', 3, 'chief', True), ('XY', 6, 'mean', False), ('XY', 6, 'chief', False)], time=120, feas='cheap')
def aberrations(h, b):
    """fits to the displacements of the clear rays leave residuals orthogonal to the terms fitted"""
    h.exact_roots()
    kind, jmax, ref, opt = h.cfg
    if opt == 'own':
        h.numeric()
    o, f = pinhole(h, b), field(h, 'off')
    kw = dict(projection='gnomonic', nrad=3, naz=6)
    r = b.RayVector.asPolar(optic=o, wavelength=LAM, theta_x=f[0], theta_y=f[1], **kw)
    ep = r.copy()
    ep.toCoordSys(b.globalCoordSys)
    b.Plane().intersect(ep)
    u = [(x, y) for x, y in zip(ep.x, ep.y)]
    d = snap(o.trace(r))
    ok = [i for i in range(len(u)) if not d['vignetted'][i]]
    if ref == 'mean':
        q = [sum(d[k][i] for i in ok)/len(ok) for k in 'xy']
    else:
        ch = snap(o.trace(b.RayVector.fromStop(0.0, 0.0, optic=o, wavelength=LAM, theta_x=f[0], theta_y=f[1], projection='gnomonic')))
        q = [ch[k][0] for k in 'xy']
    use = range(len(u)) if opt is True else ok
    X = {i: (d['x'][i] - q[0], d['y'][i] - q[1]) for i in use}
    if kind == 'XY':
        cs = b.analysis.zernikeXYAberrations(o, *f, LAM, jmax=jmax, reference=ref, include_vignetted=opt, **kw)
        for k in range(2):
            h.check(len(cs[k]) == jmax + 1, 'length')
            res = {i: X[i][k] - sum(cs[k][j]*zern(h, j, *u[i]) for j in range(1, jmax + 1)) for i in use}
            for j in range(1, jmax + 1):
                h.eq(sum(res[i]*zern(h, j, *u[i]) for i in use), 0, 'residual', 1e-9)
        return
    fl = h.real('fl', 2, 9) if opt == 'given' else b.analysis.focalLength(o, *f, LAM, projection='gnomonic')
    c = b.analysis.zernikeTA(o, *f, LAM, jmax=jmax, reference=ref, **(dict(focal_length=fl) if opt == 'given' else {}), **kw)
    h.check(len(c) == jmax + 1, 'length')
    # displacement = - focal length * gradient of the wavefront
    res = {i: [X[i][k] + fl*LAM*sum(c[j]*slope(h, j, *u[i])[k] for j in range(2, jmax + 1)) for k in range(2)] for i in use}
    for j in range(2, jmax + 1):
        r = sum(h.dot(res[i], slope(h, j, *u[i])) for i in use)
        if opt == 'own':
            close(h, r, 0, 'residual', 1e-6)
        else:
            h.eq(r, 0, 'residual', 1e-9)


@harness('C24', configs=[(1, 3, 3), (1, 4, 1)], time=120, feas='cheap')
def double(h, b):
    """field dependence: quadrature over the field of the pupil coefficients at each field point"""
    h.numeric()
    rings, spokes, kmax = h.cfg
    o = pinhole(h, b)
    fr = 0.25
    kw = dict(rings=rings, spokes=spokes, jmax=3, projection='gnomonic')
    D = b.analysis.doubleZernike(o, fr, LAM, kmax=kmax, **kw)
    h.check(D.shape == (kmax + 1, 4), 'shape')
    import numpy
    nodes, w = numpy.polynomial.legendre.leggauss(rings)
    pts = []
    for s in range(spokes):
        for x, wt in zip(nodes, w):
            r, a = float(((1 + x)/2)**0.5*fr), 2*3.141592653589793*s/spokes
            pts.append((r*h.np.cos(a), r*h.np.sin(a), float(wt)*h.np.pi/(2*spokes)))
    c = [b.analysis.zernikeGQ(o, p[0], p[1], LAM, **kw) for p in pts]
    Z = h.zernike_basis(kmax, h.arr([p[0] for p in pts]), h.arr([p[1] for p in pts]), R_outer=fr)
    for k in range(1, kmax + 1):
        for j in range(1, 4):
            h.eq(D[k][j]*LAM, sum(Z[k][i]*c[i][j]*pts[i][2] for i in range(len(pts)))/h.np.pi*LAM, 'coefficient', 1e-9)


@harness('C24', configs=[None], time=120, feas='cheap')
def exit_pupil(h, b):
    """where chief rays of small angle seem to come from: a pinhole's is the pinhole"""
    h.numeric()
    z, D = h.real('z', -1, 1), h.real('D', 2, 9)
    st = b.Interface(b.Plane(), coordSys=b.CoordSys(h.arr([0.0, 0.0, z])))
    o = b.CompoundOptic([b.Baffle(b.Plane(), name='stop', coordSys=b.CoordSys(h.arr([0.0, 0.0, z]))), b.Detector(b.Plane(), name='D', coordSys=b.CoordSys(h.arr([0.0, 0.0, z - D])))],
                        backDist=4.0, pupilSize=2.0, stopSurface=st, name='S')
    p = b.analysis.exitPupilPos(o, LAM, smallAngle=0.0625, projection='gnomonic')
    for i, want in enumerate((0, 0, z)):
        close(h, p[i], want, 'position', 1e-6)


@harness('C24', configs=[(3, None), (3, 1), (4, 2)], time=120, feas='cheap')
def huygens_lattice(h, b):
    """without steps the image lattice is the one reciprocal to the pupil's wavevectors at twice the samples"""
    h.numeric()
    nx, out = h.cfg
    o, f = number_optic(h, b), field(h, 'off')
    kw = dict(nxOut=out) if out else {}
    p = b.analysis.huygensPSF(o, *f, LAM, projection='gnomonic', nx=nx, **kw)
    n = 2*(out or nx)
    h.check(p.array.shape == (n, n), 'shape')
    K = b.analysis.dkdu(o, *f, LAM, projection='gnomonic')*(2.0/(nx - 2 + nx % 2))
    for i in range(2):
        for j in range(2):
            close(h, h.dot(p.primitiveVectors[i], K[j])*2*nx, 2*h.np.pi if i == j else 0, 'dual', 1e-9)
