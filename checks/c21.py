"""C21: equality, hashing, pickling and repr respect value semantics."""
import copy, pickle
from vlib.harness import harness

# kind -> (number of free parameters, constructor from (b, values, arr))
TABLE = {
    'Plane': (0, lambda b, p, arr: b.Plane()),
    'Tilted': (2, lambda b, p, arr: b.Tilted(*p)),
    'Paraboloid': (1, lambda b, p, arr: b.Paraboloid(*p)),
    'Sphere': (1, lambda b, p, arr: b.Sphere(*p)),
    'Quadric': (2, lambda b, p, arr: b.Quadric(*p)),
    'Asphere': (4, lambda b, p, arr: b.Asphere(p[0], p[1], list(p[2:]))),
    'AsphereArray': (3, lambda b, p, arr: b.Asphere(p[0], p[1], arr(p[2:]), imin=3)),
    'Zernike': (5, lambda b, p, arr: b.Zernike(arr([0.0, *p[:3]]), R_outer=2.0, R_inner=0.5, x_origin=p[3], y_origin=p[4])),
    'ZernikeList': (3, lambda b, p, arr: b.Zernike([0.0, *p])),
    'Bicubic': (6, lambda b, p, arr: b.Bicubic([0.0, 1.0], [0.0, p[5]], arr([[p[0], p[1]], [p[2], 0.5]]), dzdxs=arr([[p[3], 0.0], [0.0, 0.0]]),
                                               dzdys=arr([[0.0, p[4]], [0.0, 0.0]]), d2zdxdys=arr([[0.0, 0.0], [0.25, p[0]]]))),
    'BicubicDefault': (4, lambda b, p, arr: b.Bicubic([0.0, 1.0], [0.0, 1.0], arr([[p[0], p[1]], [p[2], p[3]]]), nanpolicy='zero')),
    'Sum': (3, lambda b, p, arr: b.Sum([b.Paraboloid(p[0]), b.Tilted(p[1], p[2])])),
    'ConstMedium': (1, lambda b, p, arr: b.ConstMedium(*p)),
    'TableMedium': (3, lambda b, p, arr: b.TableMedium(arr([p[0], 5.0]), arr([p[1], p[2]]))),
    'SellmeierMedium': (6, lambda b, p, arr: b.SellmeierMedium(*p)),
    'SumitaMedium': (6, lambda b, p, arr: b.SumitaMedium(*p)),
    'Air': (3, lambda b, p, arr: b.Air(*p)),
    'SimpleCoating': (2, lambda b, p, arr: b.SimpleCoating(*p)),
    'ObscCircle': (3, lambda b, p, arr: b.ObscCircle(*p)),
    'ObscAnnulus': (4, lambda b, p, arr: b.ObscAnnulus(*p)),
    'ObscRectangle': (5, lambda b, p, arr: b.ObscRectangle(*p)),
    'ObscRay': (4, lambda b, p, arr: b.ObscRay(*p)),
    'ObscPolygon': (6, lambda b, p, arr: b.ObscPolygon(arr(p[:3]), arr(p[3:]))),
    'ObscNegation': (3, lambda b, p, arr: b.ObscNegation(b.ObscCircle(*p))),
    'ObscUnion': (4, lambda b, p, arr: b.ObscUnion(b.ObscCircle(p[0]), b.ObscRay(*p[1:]))),
    'ObscIntersection': (4, lambda b, p, arr: b.ObscIntersection([b.ObscCircle(p[0]), b.ObscRectangle(*p[1:])])),
    'CoordSys': (5, lambda b, p, arr: b.CoordSys(arr([p[0], p[1], p[2]]), arr([[1.0, 0.0, p[3]], [0.0, p[4], 0.0], [0.0, 0.0, 1.0]]))),
}
SURF = ('Plane', 'Tilted', 'Paraboloid', 'Sphere', 'Quadric', 'Asphere', 'AsphereArray', 'Zernike', 'ZernikeList', 'Bicubic', 'BicubicDefault', 'Sum')
MED = ('ConstMedium', 'TableMedium', 'SellmeierMedium', 'SumitaMedium', 'Air')
OBSC = tuple(k for k in TABLE if k.startswith('Obsc'))


def params(h, kind, tag):
    return [h.real(f'{tag}{i}', 1, 3) for i in range(TABLE[kind][0])]


def make(h, b, kind, p):
    return TABLE[kind][1](b, p, h.arr)


def value(h, b, kind, o):
    """what the object does at a free point"""
    if kind in SURF:
        x, y = h.real('x', 0.0625, 0.75), h.real('y', 0.0625, 0.75)
        return [o.sag(x, y), *o.normal(x, y)]
    if kind in MED:
        return [o.getN(h.real('w', 3.5, 4.5) if kind in ('TableMedium', 'ConstMedium') else 500e-9)]
    if kind in OBSC:
        return [bool(o.contains(1.5 if kind == 'ObscPolygon' else h.real('x', 0, 2), h.real('y', 0, 2)))]
    if kind == 'SimpleCoating':
        return list(o.getCoefs(1.0, 0.5))
    return [*o.origin, *o.rot.ravel()]


def behaves(h, b, kind, o, q, label):
    for u, v in zip(value(h, b, kind, o), value(h, b, kind, q)):
        if isinstance(u, bool):
            h.check(u is v, label + ': behaviour')
        else:
            h.eq(u, v, label + ': behaviour')


def is_equal(h, x, y, label):
    """x == y, with the operators consistent"""
    r = x == y
    h.check(bool(x != y) is (not r), label + ': != is the negation')
    h.check(bool(y == x) is bool(r), label + ': symmetric')
    return bool(r)


@harness('C21', configs=list(TABLE), time=60, feas='cheap')
def equality(h, b):
    """equal exactly when every parameter is; equal objects have equal hashes"""
    k = h.cfg
    p, q = params(h, k, 'p'), params(h, k, 'q')
    x, y = make(h, b, k, p), make(h, b, k, q)
    r = is_equal(h, x, y, k)
    h.check(h.iff(r, h.both(True, *[h.same(u, v) for u, v in zip(p, q)])), 'equal iff the parameters are')
    z = make(h, b, k, list(p))
    h.check(is_equal(h, x, z, k), 'twins are equal')
    h.check(hash(x) == hash(z), 'twins have equal hashes')
    h.check(hash(x) == hash(x), 'hash is stable')
    h.check(len({x, z}) == 1 and {x: 1}[z] == 1, 'usable in sets and dictionaries')


@harness('C21', configs=list(TABLE), time=60, feas='cheap')
def unlike(h, b):
    """objects of different kinds differ, and anything may be compared"""
    p = params(h, h.cfg, 'p') + [h.real(f'r{i}', 1, 3) for i in range(6)]
    n = TABLE[h.cfg][0]
    x = make(h, b, h.cfg, p[:n])
    same = [('Asphere', 'AsphereArray'), ('Zernike', 'ZernikeList'), ('Bicubic', 'BicubicDefault')]
    for k in TABLE:
        if k == h.cfg or any(k in s and h.cfg in s for s in same):
            continue
        h.check(not is_equal(h, x, make(h, b, k, p[:TABLE[k][0]]), k), f'not a {k}')
    for o in (None, 1, 'x', (), b.RayVector([0.0], [0.0], [0.0], [0.0], [0.0], [1.0])):
        h.check(not (x == o) and (x != o), 'not something else')


VARIANTS = {
    'imin': lambda b, p, arr: (b.Asphere(p[0], p[1], [p[2]], imin=2), b.Asphere(p[0], p[1], [p[2]], imin=3)),
    'fewer coefs': lambda b, p, arr: (b.Asphere(p[0], p[1], [p[2]]), b.Asphere(p[0], p[1], [p[2], p[0]])),
    'fewer terms': lambda b, p, arr: (b.Zernike([0.0, p[0]]), b.Zernike([0.0, p[0], p[1]])),
    'R_outer': lambda b, p, arr: (b.Zernike([0.0, p[0]], R_outer=1.0), b.Zernike([0.0, p[0]], R_outer=2.0)),
    'R_inner': lambda b, p, arr: (b.Zernike([0.0, p[0]], R_inner=0.25), b.Zernike([0.0, p[0]], R_inner=0.5)),
    'nanpolicy': lambda b, p, arr: tuple(b.Bicubic([0.0, 1.0], [0.0, 1.0], [[p[0], 0.0], [0.0, 1.0]], nanpolicy=n) for n in ('nan', 'zero')),
    'order of surfaces': lambda b, p, arr: (b.Sum(b.Paraboloid(p[0]), b.Sphere(p[1])), b.Sum(b.Sphere(p[1]), b.Paraboloid(p[0]))),
    'fewer surfaces': lambda b, p, arr: (b.Sum(b.Paraboloid(p[0])), b.Sum(b.Paraboloid(p[0]), b.Plane())),
    'table size': lambda b, p, arr: (b.TableMedium([1.0, 2.0], [p[0], p[1]]), b.TableMedium([1.0, 2.0, 3.0], [p[0], p[1], p[2]])),
    'vertices': lambda b, p, arr: (b.ObscPolygon([0.0, 1.0, p[0]], [0.0, 0.0, 1.0]), b.ObscPolygon([0.0, 1.0, p[0], 0.0], [0.0, 0.0, 1.0, 1.0])),
    'negated': lambda b, p, arr: (b.ObscNegation(b.ObscCircle(p[0])), b.ObscNegation(b.ObscNegation(b.ObscCircle(p[0])))),
    'members': lambda b, p, arr: (b.ObscUnion(b.ObscCircle(p[0])), b.ObscUnion(b.ObscCircle(p[0]), b.ObscRay(p[1], p[2]))),
    'union or intersection': lambda b, p, arr: (b.ObscUnion(b.ObscCircle(p[0]), b.ObscRay(p[1], p[2])), b.ObscIntersection(b.ObscCircle(p[0]), b.ObscRay(p[1], p[2]))),
}


@harness('C21', configs=list(VARIANTS), time=30, feas='cheap')
def structure(h, b):
    """a differing discrete parameter makes objects unequal"""
    x, y = VARIANTS[h.cfg](b, [h.real(f'p{i}', 1, 3) for i in range(3)], h.arr)
    h.check(not is_equal(h, x, y, h.cfg), 'differ')


SAME = {    # one shape described in two ways
    'leading zero': lambda b, p, arr: (b.Asphere(p[0], p[1], [0.0, p[2]], imin=2), b.Asphere(p[0], p[1], [p[2]], imin=3)),
    'trailing zero': lambda b, p, arr: (b.Asphere(p[0], p[1], [p[2]]), b.Asphere(p[0], p[1], [p[2], 0.0])),
    'zernike': lambda b, p, arr: (b.Zernike([0.0, p[0]]), b.Zernike([0.0, p[0], 0.0])),
    'nested sum': lambda b, p, arr: (b.Sum(b.Paraboloid(p[0]), b.Sphere(p[1]), b.Plane()), b.Sum(b.Sum(b.Paraboloid(p[0]), b.Sphere(p[1])), b.Plane())),
    'quadric': lambda b, p, arr: (b.Quadric(p[0], 0.0), b.Sphere(p[0])),
    'twice negated': lambda b, p, arr: (b.ObscCircle(p[0]), b.ObscNegation(b.ObscNegation(b.ObscCircle(p[0])))),
    'repeated member': lambda b, p, arr: (b.ObscUnion(b.ObscCircle(p[0])), b.ObscUnion(b.ObscCircle(p[0]), b.ObscCircle(p[0]))),
    'constant index': lambda b, p, arr: (b.ConstMedium(p[0]), b.TableMedium([1.0, 2.0], [p[0], p[0]])),
    'member order': lambda b, p, arr: (b.ObscUnion(b.ObscCircle(p[0]), b.ObscRay(p[1], p[2])), b.ObscUnion(b.ObscRay(p[1], p[2]), b.ObscCircle(p[0]))),
}


@harness('C21', configs=list(SAME), time=30, feas='cheap')
def hashes(h, b):
    """whatever compares equal has equal hashes"""
    x, y = SAME[h.cfg](b, [h.real(f'p{i}', 1, 3) for i in range(3)], h.arr)
    h.check(not is_equal(h, x, y, h.cfg) or hash(x) == hash(y), 'equal hashes')


@harness('C21', time=60, feas='cheap')
def transforms(h, b):
    """coordinate transforms are equal exactly when both ends are"""
    import copy
    import pickle
    p, q = [h.real(f'p{i}', 1, 3) for i in range(6)], [h.real(f'q{i}', 1, 3) for i in range(6)]
    mk = lambda v: b.CoordTransform(b.CoordSys(h.arr(v[:3])), b.CoordSys(h.arr(v[3:])))
    x, y = mk(p), mk(q)
    r = is_equal(h, x, y, 'transform')
    h.check(h.iff(r, h.both(True, *[h.same(u, v) for u, v in zip(p, q)])), 'equal iff the ends are')
    rot = b.CoordSys(h.arr(p[:3]), h.np.array([[0.0, -1, 0], [1, 0, 0], [0, 0, 1]]))
    h.check(not is_equal(h, b.CoordTransform(rot, rot), mk(p[:3]*2), 'transform'), 'rotation of both ends')
    for z in (copy.copy(x), copy.deepcopy(x), pickle.loads(pickle.dumps(x))):
        h.check(is_equal(h, x, z, 'copy'), 'copies are equal')
        for got, want in zip(z.applyForwardArray(1.0, 2.0, 3.0), x.applyForwardArray(1.0, 2.0, 3.0)):
            h.eq(got, want, 'behaves the same')
    h.check(x != 1 and not x == None and x != x.fromSys, 'not something else')


@harness('C21', configs=[(k, w) for k in TABLE for w in ('pickle', 'deepcopy', 'copy')], time=60, feas='cheap')
def copies(h, b):
    """a copy equals the original, hashes like it and does the same"""
    k, w = h.cfg
    p = params(h, k, 'p')
    if k == 'ObscPolygon':      # keeps the behaviour of moderate size
        p[3:], p[0] = [1.0, 1.5, 3.0], 1.0
    x = make(h, b, k, p)
    y = {'pickle': lambda: pickle.loads(pickle.dumps(x)), 'deepcopy': lambda: copy.deepcopy(x), 'copy': lambda: copy.copy(x)}[w]()
    h.check(type(x) is type(y), 'same kind')
    h.check(is_equal(h, x, y, w), 'equal')
    h.check(hash(x) == hash(y), 'equal hashes')
    behaves(h, b, k, x, y, w)


# arrays or lists an object is built from: (free values, constructor, kind)
HELD = {
    'Asphere': (2, lambda b, a: b.Asphere(2.0, 0.5, a[0]), 'Asphere'),
    'Asphere imin': (2, lambda b, a: b.Asphere(2.0, 0.5, a[0], imin=1), 'Asphere'),
    'Zernike': (3, lambda b, a: b.Zernike(a[0]), 'Zernike'),
    'Bicubic': (4, lambda b, a: b.Bicubic([0.0, 1.0], [0.0, 1.0], a[0].reshape(2, 2), dzdxs=a[1].reshape(2, 2), dzdys=a[2].reshape(2, 2), d2zdxdys=a[3].reshape(2, 2)), 'Bicubic'),
    'Bicubic x': (2, lambda b, a: b.Bicubic(a[0], a[1], [[0.0, 1.0], [2.0, 3.5]]), 'none'),
    'TableMedium': (2, lambda b, a: b.TableMedium(h_sorted(a[0]), a[1]), 'TableMedium'),
    'ObscPolygon': (3, lambda b, a: b.ObscPolygon(a[0], a[1]), 'ObscPolygon'),
    'Sellmeier': (6, lambda b, a: b.SellmeierMedium(a[0]), 'SellmeierMedium'),
    'Sumita': (6, lambda b, a: b.SumitaMedium(a[0]), 'SumitaMedium'),
    'CoordSys': (9, lambda b, a: b.CoordSys(a[0][:3], a[1].reshape(3, 3)), 'CoordSys'),
    'Sum': (1, lambda b, a: b.Sum(a[0]), 'Sum'),
    'Union': (1, lambda b, a: b.ObscUnion(a[0]), 'ObscUnion'),
    'Intersection': (1, lambda b, a: b.ObscIntersection(a[0]), 'ObscIntersection'),
}


def h_sorted(a):
    a[0], a[1] = 3.0, 5.0
    return a


@harness('C21', configs=[(k, w) for k in HELD for w in ('array', 'list') if not (w == 'list' and k in ('Bicubic', 'CoordSys', 'TableMedium'))], time=60, feas='cheap')
def independent(h, b):
    """later changes of what was passed in do not reach the object"""
    k, w = h.cfg
    n, f, kind = HELD[k]
    vals = [[h.real(f'v{j}_{i}', 1, 3) for i in range(n)] for j in range(4)]
    if k == 'Bicubic x':
        vals = [[0.0, 1.0], [0.0, 2.0], [], []]
    if k == 'ObscPolygon':
        vals[1] = [1.0, 1.5, 3.0]
    if k == 'Sum':
        vals = [[b.Paraboloid(2.0), b.Sphere(3.0)]]
    if k in ('Union', 'Intersection'):
        vals = [[b.ObscCircle(1.0), b.ObscRectangle(1.0, 0.5)]]
    ls = k in ('Sum', 'Union', 'Intersection')
    a = [h.arr(v) if w == 'array' and not ls else list(v) for v in vals]
    x, twin = f(b, a), f(b, [h.arr(v) if w == 'array' and not ls else list(v) for v in vals])
    before = value(h, b, kind, x) if kind != 'none' else []
    hx = hash(x)
    for e in a:
        if ls:
            e.pop()
        else:
            for i in range(len(e)):
                e[i] = 7.0 + i
    h.check(is_equal(h, x, twin, k), 'still equal to its twin')
    h.check(hash(x) == hx, 'hash unchanged')
    if kind != 'none':
        for q, label in ((x, 'later'), (pickle.loads(pickle.dumps(x)), 'its pickle')):
            for u, v in zip(value(h, b, kind, q), before):
                if isinstance(u, bool):
                    h.check(u is v, label + ': behaviour unchanged')
                else:
                    h.eq(u, v, label + ': behaviour unchanged')


# ------------------------------------------------------------------ optics
KINDS = ('RefractiveInterface', 'Mirror', 'Baffle', 'Detector', 'OPDScreen', 'CompoundOptic', 'Lens')
PARTS = ('surface', 'obscuration', 'name', 'inMedium', 'outMedium', 'coordSys')


def optic(h, b, kind, p, **kw):
    d = dict(name='A', coordSys=b.CoordSys(h.arr([p[0], 0.0, 1.0])), inMedium=b.ConstMedium(p[1]), outMedium=b.ConstMedium(p[2]))
    d.update(kw)
    extra = d.pop('extra', {})
    if kind in ('CompoundOptic', 'Lens'):
        s = d.pop('surface', None) or b.Paraboloid(p[3])
        o = d.pop('obscuration', b.ObscCircle(p[4]))
        items = [b.RefractiveInterface(s, obscuration=o, name='x', outMedium=b.ConstMedium(1.5)),
                 b.RefractiveInterface(b.Plane(), name='y', inMedium=b.ConstMedium(1.5))]
        return getattr(b, kind)(items, **d, **extra)
    s = d.pop('surface', None) or b.Paraboloid(p[3])
    d.setdefault('obscuration', b.ObscCircle(p[4]))
    if kind == 'OPDScreen':
        d['outMedium'] = d['inMedium']
        return b.optic.OPDScreen(s, d.pop('screen', None) or b.Tilted(p[3], 0.5), **d, **extra)
    return getattr(b, kind)(s, **d, **extra)


@harness('C21', configs=KINDS, time=60, feas='cheap')
def optic_equality(h, b):
    k = h.cfg
    p, q = [h.real(f'p{i}', 1, 3) for i in range(5)], [h.real(f'q{i}', 1, 3) for i in range(5)]
    x, y = optic(h, b, k, p), optic(h, b, k, q)
    n = [0, 1, 3, 4] if k == 'OPDScreen' else range(5)
    r = is_equal(h, x, y, k)
    h.check(h.iff(r, h.both(*[h.same(p[i], q[i]) for i in n])), 'equal iff the parameters are')
    # things that are no part of the value change neither equality nor hash
    z = optic(h, b, k, p, extra=dict(skip=True, colour='blue'))
    h.check(is_equal(h, x, z, k), 'twins are equal')
    h.check(hash(x) == hash(z), 'twins have equal hashes')


@harness('C21', configs=[(k, w) for k in KINDS for w in (*PARTS, 'kind', 'screen', 'no obscuration', 'no name', 'order', 'fewer') if (w in ('order', 'fewer')) <= (k == 'CompoundOptic') and (w == 'screen') <= (k == 'OPDScreen')
                          and not (k == 'OPDScreen' and w == 'outMedium')], time=30, feas='cheap')
def optic_parts(h, b):
    """any one differing part makes optics unequal"""
    k, w = h.cfg
    p = [h.real(f'p{i}', 1, 3) for i in range(5)]
    x = optic(h, b, k, p)
    new = {'surface': dict(surface=b.Sphere(p[3])), 'obscuration': dict(obscuration=b.ObscNegation(b.ObscCircle(p[4]))), 'name': dict(name='B'),
           'inMedium': dict(inMedium=b.Air()), 'outMedium': dict(outMedium=b.Air()), 'coordSys': dict(coordSys=b.CoordSys(h.arr([p[0], 0.0, 1.0]), b.RotX(0.5))),
           'screen': dict(screen=b.Plane()), 'no obscuration': dict(obscuration=None), 'no name': dict(name=None)}
    if w in new:
        y = optic(h, b, k, p, **new[w])
    elif w == 'kind':
        y = optic(h, b, KINDS[(KINDS.index(k) + 1) % len(KINDS)], p)
    else:
        y = copy.copy(x)
        y.items = x.items[::-1] if w == 'order' else x.items[:1]
    h.check(not is_equal(h, x, y, w), 'differ')


@harness('C21', configs=[(k, w) for k in KINDS for w in ('pickle', 'deepcopy')], time=60, feas='cheap')
def optic_copies(h, b):
    k, w = h.cfg
    p = [h.real(f'p{i}', 1, 3) for i in range(5)]
    kw = dict(skip=True, pupilSize=p[0], stopSurface=b.Mirror(b.Sphere(p[1]), name='stop'))
    if k not in ('CompoundOptic', 'Lens', 'OPDScreen'):
        kw.update(forwardCoating=b.SimpleCoating(p[0], p[1]), reverseCoating=b.SimpleCoating(p[1], p[2]))
    x = optic(h, b, k, p, extra=kw)
    if hasattr(x, 'items') and h.bool('used before'):
        x['x'], x.itemDict
    y = pickle.loads(pickle.dumps(x)) if w == 'pickle' else copy.deepcopy(x)
    h.check(is_equal(h, x, y, w), 'equal')
    h.check(hash(x) == hash(y), 'equal hashes')
    h.check(type(x) is type(y), 'same kind')
    for a in kw:
        u, v = getattr(x, a), getattr(y, a)
        if a == 'pupilSize':
            h.eq(u, v, 'attribute ' + a)
        else:
            h.check(u == v, 'attribute ' + a)
    if hasattr(x, 'items'):
        h.check(y['x'] is y.items[0] and y['x'] == x['x'], 'looked up in the copy')
    h.check(x.path == y.path, 'default path')


@harness('C21', configs=[*TABLE, *KINDS], time=60, feas='cheap')
def printed(h, b):
    """evaluating the repr gives an equal object"""
    k = h.cfg
    tbl = k in TABLE
    p = [h.real(f'p{i}', 1, 3) for i in range(TABLE[k][0] if tbl else 5)]
    x = make(h, b, k, p) if tbl else optic(h, b, k, p)
    if not h.symbolic:
        h.np.set_printoptions(precision=17, floatmode='unique')
    ns = {n: getattr(b, n) for n in dir(b) if n[0].isupper()}
    ns.update(OPDScreen=b.optic.OPDScreen, array=h.np.array, object=object, **{f'p{i}': v for i, v in enumerate(p)})
    y = eval(repr(x), ns)
    h.check(is_equal(h, x, y, 'repr'), 'equal')
