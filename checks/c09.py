"""C09: obscurations mean exactly their region and Boolean combination."""
from vlib.harness import harness
from checks.rays import bundle, snap, FIELDS

SHAPES = ['Circle', 'Annulus', 'Rectangle', 'Ray']


def shape(h, b, kind, p='o'):
    """(obscuration, point(u, v) at local coordinates, inside(u, v), outside(u, v))"""
    x0, y0 = h.real(p + '.x', -3, 3), h.real(p + '.y', -3, 3)
    if kind == 'Circle':
        r = h.real(p + '.r', 0.25, 3)
        o = b.ObscCircle(r, x0, y0)
        at = lambda u, v: (x0 + u, y0 + v)
        ins = lambda u, v: h.lt_(u*u + v*v, r*r)
        out = lambda u, v: h.lt_(r*r, u*u + v*v)
    elif kind == 'Annulus':
        r, R = h.real(p + '.r', 0.25, 3), h.real(p + '.R', 0.25, 3)
        h.assume(r < R)
        o = b.ObscAnnulus(r, R, x0, y0)
        at = lambda u, v: (x0 + u, y0 + v)
        ins = lambda u, v: h.both(h.lt_(r*r, u*u + v*v), h.lt_(u*u + v*v, R*R))
        out = lambda u, v: h.either(h.lt_(u*u + v*v, r*r), h.lt_(R*R, u*u + v*v))
    else:
        w = h.real(p + '.w', 0.25, 3)
        th = h.real(p + '.th', -6, 6)
        c, s = h.np.cos(th), h.np.sin(th)
        at = lambda u, v: (x0 + u*c - v*s, y0 + u*s + v*c)       # rotated counter-clockwise
        if kind == 'Rectangle':
            q = h.real(p + '.h', 0.25, 3)
            o = b.ObscRectangle(w, q, x0, y0, th)
            ins = lambda u, v: h.both(h.lt_(-w/2, u), h.lt_(u, w/2), h.lt_(-q/2, v), h.lt_(v, q/2))
            out = lambda u, v: h.either(h.lt_(u, -w/2), h.lt_(w/2, u), h.lt_(v, -q/2), h.lt_(q/2, v))
        else:
            o = b.ObscRay(w, th, x0, y0)
            ins = lambda u, v: h.both(h.lt_(0, u), h.lt_(-w/2, v), h.lt_(v, w/2))
            out = lambda u, v: h.either(h.lt_(u, 0), h.lt_(v, -w/2), h.lt_(w/2, v))
    return o, at, ins, out


@harness('C09', configs=SHAPES, timeout=10, quick_timeout=2, time=60)
def region(h, b):
    """every point, centre, size and angle (boundaries excepted)"""
    o, at, ins, out = shape(h, b, h.cfg)
    u, v = h.real('u', -5, 5), h.real('v', -5, 5)
    got = o.contains(*at(u, v))
    if got:
        h.check(h.neg(out(u, v)), 'contained points are inside')
    else:
        h.check(h.neg(ins(u, v)), 'points not contained are outside')


@harness('C09', configs=SHAPES, timeout=10, quick_timeout=2, time=60)
def stored_parameters(h, b):
    """restoring the state gives the same region"""
    o, at, ins, out = shape(h, b, h.cfg)
    p = type(o).__new__(type(o))
    p.__setstate__(o.__getstate__())
    u, v = h.real('u', -5, 5), h.real('v', -5, 5)
    got = p.contains(*at(u, v))
    if got:
        h.check(h.neg(out(u, v)), 'contained points are inside')
    else:
        h.check(h.neg(ins(u, v)), 'points not contained are outside')


@harness('C09', configs=['Circle', 'Annulus'], timeout=10, time=60)
def centred_by_default(h, b):
    r, R = h.real('r', 0.25, 3), h.real('R', 0.25, 3)
    x, y = h.real('x', -4, 4), h.real('y', -4, 4)
    if h.cfg == 'Circle':
        h.check(b.ObscCircle(r).contains(x, y) == b.ObscCircle(r, 0.0, 0.0).contains(x, y), 'centre at the origin')
        w = h.real('w', 0.25, 3)
        h.check(b.ObscRectangle(r, R).contains(x, y) == b.ObscRectangle(r, R, 0.0, 0.0, 0.0).contains(x, y), 'rectangle: centre, no rotation')
        h.check(b.ObscRay(w, 0.0).contains(x, y) == b.ObscRay(w, 0.0, 0.0, 0.0).contains(x, y), 'ray: from the origin')
    else:
        h.assume(r < R)
        h.check(b.ObscAnnulus(r, R).contains(x, y) == b.ObscAnnulus(r, R, 0.0, 0.0).contains(x, y), 'centre at the origin')


@harness('C09', configs=['union', 'intersection'], timeout=10, time=60)
def documented_equivalences(h, b):
    """circle + annulus = larger circle; larger circle without the smaller = annulus: at
    every point, boundaries included"""
    r, R = h.real('r', 0.25, 3), h.real('R', 0.25, 3)
    h.assume(r < R)
    x, y = h.real('x', -4, 4), h.real('y', -4, 4)
    small, big, ann = b.ObscCircle(r), b.ObscCircle(R), b.ObscAnnulus(r, R)
    if h.cfg == 'union':
        for o in (b.ObscUnion(small, ann), b.ObscUnion([small, ann]), b.ObscUnion((ann, small))):
            h.check(o.contains(x, y) == big.contains(x, y), 'union of circle and annulus')
    else:
        for o in (b.ObscIntersection(b.ObscNegation(small), big), b.ObscIntersection([big, b.ObscNegation(small)])):
            h.check(o.contains(x, y) == ann.contains(x, y), 'circle without its middle')


def nest(h, b, d, leaves, p):
    """obscuration tree of depth d over the leaves with its meaning"""
    if d == 0:
        k = h.cfg_leaf[0]
        h.cfg_leaf[0] = (k + 1) % len(leaves)
        return leaves[k], (lambda ms: ms[k])
    op = h.choice(p, 3)
    if op == 0:
        o, m = nest(h, b, d - 1, leaves, p + 'n')
        return b.ObscNegation(o), (lambda ms: not m(ms))
    n = 1 + h.choice(p + '#', 3)
    sub = [nest(h, b, d - 1, leaves, f'{p}{i}') for i in range(n)] if d < 2 else \
        [nest(h, b, d - 1 if i == 0 else 0, leaves, f'{p}{i}') for i in range(n)]
    if op == 1:
        return b.ObscUnion([o for o, m in sub]), (lambda ms: any([m(ms) for o, m in sub]))
    return b.ObscIntersection(*[o for o, m in sub]), (lambda ms: all([m(ms) for o, m in sub]))


@harness('C09', configs=[1, 2], thorough=[3], timeout=10, time=120, paths=20000, feas=False)
def boolean_combinations(h, b):
    """nests of negations, unions and intersections of 1 to 3 items"""
    x, y = h.real('x', -4, 4), h.real('y', -4, 4)
    leaves = [b.ObscCircle(h.real('r', 0.25, 3), h.real('a', -1, 1)), b.ObscAnnulus(1.0, h.real('R', 1.5, 3)),
              b.ObscRectangle(h.real('w', 0.25, 3), 2.0)]
    h.cfg_leaf = [0]
    o, m = nest(h, b, h.cfg, leaves, 'k')
    ms = [bool(l.contains(x, y)) for l in leaves]
    h.check(bool(o.contains(x, y)) == m(ms), 'Boolean meaning')


@harness('C09', timeout=10, time=60)
def combination_arguments(h, b):
    c = b.ObscCircle(1.0)
    for k in (b.ObscUnion, b.ObscIntersection):
        h.raises(lambda: k(), ValueError, 'no items')
        h.raises(lambda: k(3.0), TypeError, 'not an obscuration')
        h.raises(lambda: k(c, 3.0), TypeError, 'not all obscurations')
        h.raises(lambda: k([c, None]), TypeError, 'list with something else')
        h.check(k(c).contains(0.0, 0.0) == c.contains(0.0, 0.0), 'single item')


@harness('C09', configs=['method', 'function', 'trace'], timeout=10, time=60, feas=False, paths=2000)
def obscuring_rays(h, b):
    """two rays with any flags: exactly those whose x, y lie in the region get vignetted"""
    o = b.ObscCircle(h.real('r', 0.25, 3), h.real('cx', -1, 1), h.real('cy', -1, 1))
    rv = bundle(h, b, 2, flags=True)
    old = snap(rv)
    if h.cfg == 'method':
        o.obscure(rv)
    elif h.cfg == 'function':
        h.check(b.obscure(o, rv) is rv, 'in place')
    else:
        b.trace.obscure(o, rv)
    new = snap(rv)
    for i in range(2):
        for f in FIELDS:
            h.eq(new[f][i], old[f][i], f'{f} kept')
        h.check(new['failed'][i] == old['failed'][i], 'failed kept')
        h.check(new['vignetted'][i] == (old['vignetted'][i] or bool(o.contains(old['x'][i], old['y'][i]))), 'vignetted iff it was or lies in the region')
    h.check(new['coordSys'] == old['coordSys'], 'frame kept')


CLEAR = {'ClearCircle': 'ObscCircle', 'ClearAnnulus': 'ObscAnnulus', 'ClearRectangle': 'ObscRectangle', 'ClearRay': 'ObscRay'}


@harness('C09', configs=sorted(CLEAR), timeout=10, time=60)
def clear_variants(h, b):
    """Clear… obscures exactly what Obsc… leaves clear"""
    d = {'ObscCircle': dict(radius=h.real('r', 0.25, 3)), 'ObscAnnulus': dict(inner=h.real('r', 0.25, 1), outer=h.real('R', 1, 3)),
         'ObscRectangle': dict(width=h.real('w', 0.25, 3), height=h.real('q', 0.25, 3), theta=h.real('th', -60, 60)),
         'ObscRay': dict(width=h.real('w', 0.25, 3), theta=h.real('th', -60, 60))}[CLEAR[h.cfg]]
    d = dict(d, x=h.real('x0', -3, 3), y=h.real('y0', -3, 3))
    clear = b.parse.parse_obscuration(dict(d, type=h.cfg))
    plain = b.parse.parse_obscuration(dict(d, type=CLEAR[h.cfg]))
    x, y = h.real('x', -4, 4), h.real('y', -4, 4)
    h.check(bool(clear.contains(x, y)) != bool(plain.contains(x, y)), 'complement')
