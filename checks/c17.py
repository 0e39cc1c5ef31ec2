"""C17: field-angle projections are unit, invertible and mutually consistent."""
import math
from vlib.harness import harness

PROJ = ('postel', 'zemax', 'gnomonic', 'stereographic', 'lambert', 'orthographic')
NAMES = {'postel': 'Postel', 'zemax': 'Zemax', 'gnomonic': 'Gnomonic', 'stereographic': 'Stereographic', 'lambert': 'Lambert', 'orthographic': 'Orthographic'}
# largest radius with the ray still coming from above
RMAX = {'postel': 1.5707, 'stereographic': 1.9999, 'lambert': 1.4142, 'orthographic': 0.9999, 'gnomonic': 50, 'zemax': 1.5707}
FULL = {'postel': 3.14159, 'stereographic': 50, 'lambert': 1.99999, 'orthographic': 1, 'gnomonic': 50, 'zemax': 1.5707}


def angles(h, p, lim, tag=''):
    m = lim[p]
    u, v = h.real('u' + tag, -m, m), h.real('v' + tag, -m, m)
    if p in ('postel', 'stereographic', 'lambert', 'orthographic'):
        h.assume(h.le_(u*u + v*v, m*m))
    return u, v


def fwd(b, p):
    return getattr(b.utils, p + 'ToDirCos')


def inv(b, p):
    return getattr(b.utils, 'dirCosTo' + NAMES[p])


@harness('C17', configs=PROJ, time=60)
def unit_vector(h, b):
    """unit, from above, on the side of the field angle, with the named radial law"""
    p = h.cfg
    u, v = angles(h, p, FULL)
    a, c, g = fwd(b, p)(u, v)
    h.eq(a*a + c*c + g*g, 1, 'unit')
    if p == 'zemax':
        np = h.np
        h.eq(a, -g*np.tan(u), 'angle in the x-z plane')
        h.eq(c, -g*np.tan(v), 'angle in the y-z plane')
        h.lt(g, 0, 'from above')
        return
    h.eq(a*v, c*u, 'azimuth')
    h.le(0, a*u + c*v, 'towards the field angle')
    r2 = u*u + v*v
    if p == 'gnomonic':
        h.eq(a, -g*u, 'tangent of the angle')
        h.lt(g, 0, 'from above')
    elif p == 'stereographic':
        h.eq(r2*(1 - g), 4*(1 + g), 'twice the tangent of half the angle')
    elif p == 'lambert':
        h.eq(r2, 2*(1 + g), 'twice the sine of half the angle')
    elif p == 'orthographic':
        h.eq(a, u, 'sine of the angle')
        h.eq(c, v, 'sine of the angle')
        h.le(g, 0, 'from above')
    else:
        h.eq(-g, h.np.cos(h.np.sqrt(r2)), 'the angle itself')


@harness('C17', configs=[(p, w) for p in PROJ for w in ('scalar', 'array')], time=30)
def centre(h, b):
    p, w = h.cfg
    z = 0.0 if w == 'scalar' else h.np.array([0.0])
    a, c, g = fwd(b, p)(z, z)
    u, v = inv(b, p)(z, z, z - 1.0)
    if w == 'array':
        h.check(all(x.shape == (1,) for x in (a, c, g, u, v)), 'stays an array')
        a, c, g, u, v = a[0], c[0], g[0], u[0], v[0]
    for x, e in ((a, 0), (c, 0), (g, -1), (u, 0), (v, 0)):
        h.eq(x, e, 'field centre')


@harness('C17', configs=PROJ, time=60)
def round_trip(h, b):
    """the inverse gives the field angle back"""
    p = h.cfg
    u, v = angles(h, p, RMAX if p not in ('stereographic', 'lambert') else FULL)
    if p == 'postel':       # beyond the horizon too
        u, v = angles(h, p, FULL, '2')
    d = fwd(b, p)(u, v)
    x, y = inv(b, p)(*d)
    h.eq(x, u, 'first angle', tol=1e-5)
    h.eq(y, v, 'second angle', tol=1e-5)


@harness('C17', configs=PROJ, time=60)
def back_and_forth(h, b):
    """a direction from above comes back from its field angle"""
    p = h.cfg
    d = h.unit('d')
    h.assume(h.lt_(d[2], -1e-3))
    x, y = inv(b, p)(*d)
    if p == 'postel':   # the direction at that angle: see unit_vector
        h.eq(x*x + y*y, h.np.arccos(-d[2])**2, 'angle from the axis', tol=1e-5)
        h.eq(x*d[1], y*d[0], 'azimuth')
        h.le(0, x*d[0] + y*d[1], 'towards the direction')
        return
    for got, want, n in zip(fwd(b, p)(x, y), d, 'xyz'):
        h.eq(got, want, 'direction cosine ' + n, tol=1e-5)


@harness('C17', configs=[(p, s) for p in PROJ for s in ('pair', 'centre', 'column')], time=60, feas='cheap')
def elementwise(h, b):
    """an array of angles is projected entry by entry, and not written to"""
    p, s = h.cfg
    np = h.np
    pts = [angles(h, p, RMAX, str(i)) for i in range(2)]
    if s == 'centre':
        pts[1] = (0.0, 0.0)
    u, v = h.arr([q[0] for q in pts]), h.arr([q[1] for q in pts])
    sh = (2, 1) if s == 'column' else (2,)
    u, v = u.reshape(sh), v.reshape(sh)
    d = fwd(b, p)(u, v)
    ds = [fwd(b, p)(*q) for q in pts]
    w = inv(b, p)(*d)
    ws = [inv(b, p)(*q) for q in ds]
    h.check(all(x.shape == sh for x in (*d, *w)), 'shape')
    for i in range(2):
        for k in range(3):
            h.eq(d[k].ravel()[i], ds[i][k], 'direction')
        for k in range(2):
            h.eq(w[k].ravel()[i], ws[i][k], 'angle')
        h.eq(u.ravel()[i], pts[i][0], 'input left alone')
        h.eq(v.ravel()[i], pts[i][1], 'input left alone')


@harness('C17', configs=PROJ, time=60)
def dispatch(h, b):
    """the generic functions are the named ones"""
    p = h.cfg
    u, v = angles(h, p, RMAX)
    d = fwd(b, p)(u, v)
    for x, y in zip(b.utils.fieldToDirCos(u, v, projection=p), d):
        h.eq(x, y, 'named projection')
    for x, y in zip(b.utils.dirCosToField(*d, projection=p), inv(b, p)(*d)):
        h.eq(x, y, 'named inverse')
    if p == 'postel':
        for x, y in zip(b.utils.fieldToDirCos(u, v), d):
            h.eq(x, y, 'default projection')
        for x, y in zip(b.utils.dirCosToField(*d), inv(b, p)(*d)):
            h.eq(x, y, 'default inverse')
    for bad in (p.upper(), p[:-1], None):
        h.raises(lambda: b.utils.fieldToDirCos(u, v, projection=bad), ValueError, 'unknown projection')
        h.raises(lambda: b.utils.dirCosToField(*d, projection=bad), ValueError, 'unknown projection')


@harness('C17', configs=[1, 2, 3], time=30)
def normalised(h, b):
    """a vector keeps its direction and gets length one"""
    n = h.cfg
    x = [h.real(f'x{i}', -3, 3) for i in range(n)]
    h.assume(h.lt_(1e-3, sum(e*e for e in x)))
    a = h.arr(x)
    r = b.utils.normalized(a)
    h.eq(sum(e*e for e in r), 1, 'unit')
    for i in range(n):
        h.eq(a[i], x[i], 'input left alone')
        for j in range(i):
            h.eq(r[i]*x[j], r[j]*x[i], 'same direction')
    h.lt(0, sum(r[i]*x[i] for i in range(n)), 'same sense')
