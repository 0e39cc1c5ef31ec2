"""C27: no accepted input makes the native code touch memory outside its buffers.

Every load and store of the compiled code goes through a model of memory in
which each array is its own object; an access outside (or to an object the
program has dropped) is a fault.  Candidates are replayed under AddressSanitizer
and UBSan."""
import copy, pickle
from vlib.harness import harness
from checks.rays import bundle, snap, same_rays, FIELDS
from checks.c03 import niter
from checks.c07 import OPS, interact, coating
from checks.c08 import fixed, single

NAN, INF = float('nan'), float('inf')
ODD = [NAN, INF, -INF]
SURF = ['Plane', 'Paraboloid', 'Sphere', 'Quadric', 'Asphere', 'Zernike', 'Bicubic', 'Sum', 'Tilted']


def surface(h, b, kind):
    return b.Plane() if kind == 'Plane' else fixed(h, b, kind)


@harness('C27', configs=[(o, k) for o in ('intersect', 'rSplit', 'screen') for k in SURF if k in dict(intersect=SURF, rSplit=('Plane', 'Paraboloid', 'Zernike', 'Bicubic'), screen=('Plane', 'Zernike', 'Bicubic', 'Tilted'))[o]], thorough=[(o, k) for o in ('reflect', 'refract') for k in SURF],
         feas='cheap', time=60, timeout=5, paths=4000, asan=True)
def odd_rays(h, b):
    """one number of a ray is nan or infinite; the ray beside it is unharmed"""
    op, kind = h.cfg
    h.strict()
    s = surface(h, b, kind)
    niter(b, 1)
    rv = b.RayVector(h.arr([0.5, h.real('x', -3, 3) if kind == 'Plane' else 1.0]), h.arr([0.25, 1.0]), h.arr([4.0, 4.0]), h.arr([0.0, 0.0]), h.arr([0.0 if kind in ('Asphere', 'Sum') else 0.125, 0.0]),
                     h.arr([-1.0, -1.0]), h.arr([0.0, 0.0]), h.arr([0.5, 0.5]), h.arr([1.0, 1.0]))
    f = FIELDS[h.choice('field', 9)]
    getattr(rv, f)[0] = ODD[h.choice('odd', 3)]
    outs = interact(h, b, op, s, rv.copy(), None, None)
    ones = interact(h, b, op, s, single(h, b, rv, 1), None, None)
    for o, e in zip(outs, ones):
        same_rays(h, {k: (v[1:2] if k != 'coordSys' else v) for k, v in snap(o).items()}, e, 'the other ray')


@harness('C27', configs=['sag', 'normal', 'intersect', 'scalar'], feas='cheap', time=60, timeout=5, paths=4000, asan=True)
def far_from_the_grid(h, b):
    """gridded surface, any point however far, and no number at all; cells counted as the code counts them"""
    h.strict()
    nx, ny = (2, 2) if h.cfg == 'intersect' else (2 + h.choice('nx', 2), 2 + h.choice('ny', 2))
    z = h.arr([[h.real(f'z{j}.{i}', -1, 1) for i in range(nx)] for j in range(ny)])
    s = b.Bicubic(h.arr([float(i) for i in range(nx)]), h.arr([float(j) for j in range(ny)]), z)
    big = 1e30
    x, y = h.real('x', -big, big), h.real('y', -big, big)
    k = h.choice('odd', 7)
    if k in (1, 2, 3):
        x = ODD[k - 1]
    elif k:
        y = ODD[k - 4]
    if h.cfg == 'sag':
        h.check(len(s.sag(h.arr([x, x]), h.arr([y, y]))) == 2, 'heights')
    elif h.cfg == 'scalar':
        s.sag(x, y)
        h.check(True, 'height')
    elif h.cfg == 'normal':
        h.check(s.normal(h.arr([x]), h.arr([y])).shape == (1, 3), 'normals')
    else:
        niter(b, 2)
        rv = b.RayVector(h.arr([x]), h.arr([y]), h.arr([4.0]), h.arr([0.0]), h.arr([0.0]), h.arr([-1.0]))
        b.intersect(s, rv)
        h.check(len(rv) == 1, 'ray')


@harness('C27', configs=[1, 2, 3], thorough=[4, 5], feas='cheap', time=60, timeout=5, paths=4000, asan=True)
def any_wavelength(h, b):
    """tables of any increasing wavelengths, any wavelength asked for"""
    h.strict()
    n = h.cfg + 1
    w = [h.real('w0', 0, 2)]
    for i in range(1, n):
        w.append(w[-1] + h.real(f'dw{i}', 0.125, 2))
    m = b.TableMedium(h.arr(w), h.arr(h.vec('n', n, 1, 2)))
    q = h.real('q', -1e30, 1e30)
    k = h.choice('odd', 4)
    if k:
        q = ODD[k - 1]
    r = m.getN(h.arr([q, q]))
    h.check(len(r) == 2, 'indices')
    inside = h.both(h.le_(w[0], q), h.le_(q, w[-1])) if not k else False
    if not k and bool(h.lt_(w[0], q)) and bool(h.lt_(q, w[-1])):
        h.check(not h.isnan(m.getN(q)), 'index inside the table')


LENGTHS = ['rays', 'table', 'polygon', 'grid', 'bicubic', 'slopes', 'sag', 'normal', 'contains', 'getN', 'transform', 'position', 'phase', 'amplitude', 'equal',
           'concat', 'medium', 'vertex']


@harness('C27', configs=LENGTHS, feas='cheap', time=60, timeout=5, paths=6000, asan=True)
def any_lengths(h, b):
    """arrays of any lengths 0 to 3, matching or not: an error or a result of the right size"""
    what = h.cfg
    n = lambda p, lo=0, hi=3: lo + h.choice(p, hi - lo + 1)
    v = lambda k, a=0.0, d=0.5: h.arr([a + d*i for i in range(k)])
    try:
        if what == 'rays':
            k = n('n')
            f = h.choice('which', 11)
            ls = [k]*11
            ls[f] = n('other')
            cols = [v(l, 1.0) for l in ls[:9]] + [h.np.zeros(l, dtype=bool) for l in ls[9:]]
            rv = b.RayVector(*cols)
            m = len(rv)
            b.intersect(b.Plane(), rv)
            rv.positionAtTime(1.0)
            h.check(all(len(getattr(rv, c)) == m for c in FIELDS + ('vignetted', 'failed')), 'one length')
        elif what in ('table', 'medium'):
            k, l = n('w'), n('n')
            m = b.TableMedium(v(k, 0.5), v(l, 1.0)) if what == 'table' else b.TableMedium([0.5 + i for i in range(k)], [1 + i for i in range(l)])
            h.check(k == l, 'table of unequal lengths accepted')
            m.getN(h.real('q', -10, 10))
        elif what in ('polygon', 'vertex'):
            k, l = n('x'), n('y')
            p = b.ObscPolygon(v(k), v(l)) if what == 'polygon' else b.ObscPolygon([1.0]*k, [h.real('Y', -1, 1)]*l)
            h.check(k == l, 'vertices of unequal lengths accepted')
            p.contains(h.real('X', -10, 10), 0.25)
            p.containsGrid(v(2), v(3))
            p == b.ObscPolygon(v(3), v(3))
        elif what == 'grid':
            p = b.ObscPolygon(h.arr([0.0, 2.0, 0.0]), h.arr([0.0, 0.0, h.real('Y', 1, 2)]))
            k, l = n('x', 0, 4), n('y', 0, 4)
            r = p.containsGrid(v(k), v(l))
            h.check(r.shape == (l, k), 'one answer per node')
            for j in range(l):
                for i in range(k):
                    h.check(bool(r[j][i]) == bool(p.contains(0.5*i, 0.5*j)), 'answers')
        elif what in ('bicubic', 'slopes'):
            k, l = n('x', 1), n('y', 1)
            kz, lz = (n('zx', 1), n('zy', 1)) if what == 'bicubic' else (k, l)
            kw = {}
            if what == 'slopes':
                sh = (n('sy', 1), n('sx', 1))
                name = ['dzdxs', 'dzdys', 'd2zdxdys'][h.choice('which', 3)]
                kw = {c: h.arr([[0.0]*k]*l) for c in ('dzdxs', 'dzdys', 'd2zdxdys')}
                kw[name] = h.arr([[0.0]*sh[1]]*sh[0])
            s = b.Bicubic(v(k), v(l), h.arr([[1.0]*kz]*lz), **kw)
            if kw:
                h.check(sh == (l, k), 'slopes of another shape accepted')
            x, y = h.real('x', -3, 3), h.real('y', -3, 3)
            s.sag(x, y)
            s.normal(x, y)
        elif what in ('sag', 'normal'):
            s = b.Paraboloid(4.0)
            k, l = n('x'), n('y')
            r = getattr(s, what)(v(k), v(l))
            h.check(len(r) == max(k, l) or 0 in (k, l), 'one answer per point')
        elif what == 'contains':
            o = b.ObscCircle(1.0)
            k, l = n('x'), n('y')
            r = o.contains(v(k), v(l))
            h.check(len(r) == max(k, l) or 0 in (k, l), 'one answer per point')
        elif what == 'getN':
            r = b.TableMedium([0.25, 1.0, 4.0], [1.5, 1.4, 1.3]).getN(v(n('w'), 0.5))
            h.check(len(r) <= 3, 'indices')
        elif what == 'transform':
            k = [n('x'), n('y'), n('z')]
            ct = b.CoordTransform(b.CoordSys(), b.CoordSys([1, 2, 3], b.RotX(0)))
            r = ct.applyForwardArray(*[v(i) for i in k])
            h.check(r.shape == (3, k[0]) and k[0] == k[1] == k[2], 'points')
            r = ct.applyReverseArray(*[v(i) for i in k])
        elif what in ('position', 'phase', 'amplitude'):
            rv = b.RayVector(v(2), v(2), v(2), v(2), v(2), v(2, 1.0))
            if what == 'position':
                rv.positionAtTime(1.0)
            else:
                r = getattr(rv, what)(v(n('r', 0, 4)), 0.5)
                h.check(len(r) == 2, 'one number per ray')
        elif what == 'equal':
            k, l = n('a'), n('b')
            r, q = (b.RayVector(v(m), v(m), v(m), v(m), v(m), v(m, 1.0)) for m in (k, l))
            h.check((r == q) == (k == l), 'bundles of different sizes differ')
        else:
            k, l = n('a', 1), n('b', 1)
            r, q = (b.RayVector(v(m), v(m), v(m), v(m), v(m), v(m, 1.0)) for m in (k, l))
            o = b.concatenateRayVectors([r, q])
            h.check(len(o) == k + l, 'sizes add')
            o.positionAtTime(0.5)
    except (ValueError, TypeError, IndexError):
        h.check(True, 'rejected')


def laid(h, how, x):
    """the numbers x in an array of the given layout"""
    a = h.arr(x)
    if how == 'strided':
        return h.arr([e for v in x for e in (v, 77.0)])[::2]
    if how == 'reversed':
        return h.arr(list(x)[::-1])[::-1]
    if how == 'column':
        return h.arr([[v, 55.0] for v in x])[:, 0]
    if how == 'list':
        return list(x)
    if how == 'tuple':
        return tuple(x)
    if how == 'int':
        return h.np.array([int(v) for v in x])
    if how == 'int32':
        return h.np.array([int(v) for v in x], dtype='int32')
    if how == 'float32':
        return h.np.array([float(v) for v in x], dtype='float32')
    if how == 'bool':
        return h.np.array([bool(v) for v in x])
    return a


LAY = ['strided', 'reversed', 'column', 'list', 'tuple', 'int', 'int32', 'float32', 'bool']


@harness('C27', configs=LAY, feas='cheap', time=60, timeout=5, paths=4000, asan=True)
def any_layout(h, b):
    """arrays of other layouts and types give what plain arrays of the same numbers give"""
    how = h.cfg
    n = 3
    free = how in ('strided', 'reversed', 'column', 'list', 'tuple')
    k = [0]

    def col(lo=0.0, up=False):
        """increasing if up"""
        k[0] += 1
        if how == 'bool' and up:
            return [0.0, 1.0]
        if how == 'bool':
            return [1.0, 0.0, 1.0]
        if not free:
            return [lo + 1.0*i*(k[0] if not up else 1) for i in range(n)]
        if up:
            return [lo + 1.0*i for i in range(n)]
        return [h.real(f'c{k[0]}.{i}', -2, 2) for i in range(n)]
    op = h.choice('op', 9)
    L = lambda x: laid(h, how, x)
    A = h.arr
    if op == 0:
        d = [col(1.0) for f in FIELDS]
        p, q = b.RayVector(*[L(c) for c in d]), b.RayVector(*[A(c) for c in d])
        same_rays(h, p, q, 'rays')
        same_rays(h, p.copy().propagate(2.0), q.copy().propagate(2.0), 'propagated')
        h.eq(p.positionAtTime(3.0), q.positionAtTime(3.0), 'positions')
    elif op in (1, 2):
        x, y = col(), col()
        for s in (b.Paraboloid(4.0), b.Zernike([0.0, 0.5, 0.25, 0.125, 0.5])):
            f = s.sag if op == 1 else s.normal
            h.eq(f(L(x), L(y)), f(A(x), A(y)), 'surface')
    elif op == 3:
        x, y = col(), col()
        o = b.ObscCircle(1.0)
        p, q = o.contains(L(x), L(y)), o.contains(A(x), A(y))
        h.check([bool(e) for e in p] == [bool(e) for e in q], 'obscuration')
    elif op == 4:
        w, m = col(1.0, up=True), col(1.0, up=True)
        p, q = b.TableMedium(L(w), L(m)), b.TableMedium(A(w), A(m))
        at = h.real('w', w[0], w[-1])
        h.eq(p.getN(at), q.getN(at), 'index')
        h.eq(p.getN(L(w)), q.getN(A(w)), 'indices')
    elif op == 5:
        x, y = [0.0, 2.0, 1.0], [0.0, 0.0, 1.0]
        if how == 'bool':
            x, y = [0.0, 1.0, 1.0], [0.0, 0.0, 1.0]
        p, q = b.ObscPolygon(L(x), L(y)), b.ObscPolygon(A(x), A(y))
        gx, gy = col(up=True), col(up=True)
        r, t = p.containsGrid(L(gx), L(gy)), q.containsGrid(A(gx), A(gy))
        h.check([bool(e) for e in r.ravel()] == [bool(e) for e in t.ravel()], 'grid')
        X = h.real('X', -3, 3)
        h.check(bool(p.contains(X, 0.5)) == bool(q.contains(X, 0.5)), 'polygon')
    elif op == 6:
        x, y = col(up=True), col(up=True)
        z = [col() for _ in y]
        z = [r[:len(x)] for r in z]
        if how in ('list', 'tuple'):
            zl = [list(r) for r in z]
        elif free:
            zl = h.np.asfortranarray(A(z))
        else:
            zl = h.np.array([list(L(r)) for r in z])
        p, q = b.Bicubic(L(x), L(y), zl), b.Bicubic(A(x), A(y), A(z))
        u, w = h.real('u', 0, 1), h.real('w', 0, 1)
        h.eq(p.sag(u, w), q.sag(u, w), 'grid')
        h.eq(p.normal(u, w), q.normal(u, w), 'grid normal')
    elif op == 7:
        c = col()
        x, y = h.real('x', -2, 2), h.real('y', -2, 2)
        h.eq(b.Zernike(L(c)).sag(x, y), b.Zernike(A(c)).sag(x, y), 'Zernike')
        if how == 'bool':
            return
        c = col()
        h.eq(b.Asphere(8.0, -1.0, L(c)).sag(x, y), b.Asphere(8.0, -1.0, A(c)).sag(x, y), 'Asphere')
    else:
        x, y, z = col(), col(), col()
        ct = b.CoordTransform(b.CoordSys(), b.CoordSys([1, 2, 3], h.arr([[0.6, 0.0, 0.8], [0.0, 1.0, 0.0], [-0.8, 0.0, 0.6]])))
        h.eq(ct.applyForwardArray(L(x), L(y), L(z)), ct.applyForwardArray(A(x), A(y), A(z)), 'forward')
        h.eq(ct.applyReverseArray(L(x), L(y), L(z)), ct.applyReverseArray(A(x), A(y), A(z)), 'reverse')


@harness('C27', configs=['table2d', 'points2d', 'fortran', 'empty'], feas='cheap', time=60, timeout=5, paths=4000, asan=True)
def shapes(h, b):
    """arrays of points of two dimensions, in either order, and no points at all"""
    P = [[h.real(f'p{j}{i}', -2, 2) for i in range(3)] for j in range(2)]
    Q = [[h.real(f'q{j}{i}', -2, 2) for i in range(3)] for j in range(2)]
    x, y = h.arr(P), h.arr(Q)
    if h.cfg == 'fortran':
        x, y = h.np.asfortranarray(x), (h.np.asfortranarray(y) if h.bool('both') else y)
    if h.cfg == 'empty':
        e = h.arr([])
        for s in (b.Plane(), b.Paraboloid(4.0), b.Zernike([0.0, 1.0])):
            h.check(len(s.sag(e, e)) == 0, 'no heights')
            h.check(s.normal(e, e).shape == (0, 3), 'no normals')
        rv = b.RayVector(e, e, e, e, e, e)
        op = OPS[h.choice('op', 5)]
        for r in interact(h, b, op, b.Paraboloid(4.0), rv):
            h.check(len(r) == 0, 'no rays')
        h.check(rv.positionAtTime(0.0).shape == (0, 3), 'no positions')
        h.check(len(rv.phase(h.arr([0, 0, 0]), 0.0)) == 0, 'no phases')
        h.eq(rv.sumAmplitude(h.arr([0, 0, 0]), 0.0), 0j, 'no amplitude')
        return
    for s in (b.Paraboloid(4.0), b.Tilted(0.25, 0.5)):
        z, m = s.sag(x, y), s.normal(x, y)
        h.check(z.shape == (2, 3) and m.shape == (2, 3, 3), 'shape kept')
        for j in range(2):
            for i in range(3):
                h.eq(z[j][i], s.sag(P[j][i], Q[j][i]), 'height of a point')
                h.eq(list(m[j][i]), list(s.normal(P[j][i], Q[j][i])), 'normal of a point')
    if h.cfg == 'table2d':
        g = b.TableMedium([0.25, 0.5, 4.0], [1.5, 1.25, 1.125])
        w = h.arr([[0.25, 0.375], [4.0, 5.0]])
        N = g.getN(w)
        for j in range(2):
            for i in range(2):
                h.eq(N[j][i], g.getN(w[j][i]), 'index at a point')


HOLD = ['Table', 'Polygon', 'Asphere', 'Zernike', 'Bicubic', 'Sum', 'Union', 'Intersection', 'Negation', 'Rays', 'Nested']


def hold(h, b, kind):
    """(object built from temporaries, how to ask it, expected answer)"""
    x, y = h.real('x', -1, 1), h.real('y', -1, 1)
    if kind == 'Table':
        n = h.vec('n', 3, 1, 2)
        return b.TableMedium([0.25, 0.5, 1.0], h.arr(n)), (lambda m: m.getN(0.375)), (n[0] + n[1])/2
    if kind == 'Polygon':
        d = h.real('d', 0.5, 2)
        return b.ObscPolygon([-d, d, d, -d], h.arr([-d, -d, d, d])), (lambda o: bool(o.contains(d/2, -d/4))), True
    if kind == 'Asphere':
        a = h.vec('a', 2, -1, 1)
        return b.Asphere(1e300, 0.0, h.arr(a)), (lambda s: s.sag(x, 0.0) - b.Quadric(1e300, 0.0).sag(x, 0.0)), a[0]*x**4 + a[1]*x**6
    if kind == 'Zernike':
        a = h.vec('a', 3, -1, 1)
        return b.Zernike([0.0, *a]), (lambda s: s.sag(x, y)), a[0] + 2*a[1]*x + 2*a[2]*y
    if kind == 'Bicubic':
        a = h.vec('a', 2, -1, 1)
        return b.Bicubic([-1.0, 1.0], [-1.0, 1.0], h.arr([[a[0]]*2, [a[1]]*2])), (lambda s: s.sag(0.5, 0.0)), (a[0] + a[1])/2
    if kind == 'Sum':
        R = h.real('R', 1, 4)
        return b.Sum([b.Paraboloid(R), b.Zernike([0.0, 0.25, 0.5])]), (lambda s: s.sag(x, y)), (x*x + y*y)/2/R + 0.25 + x
    if kind == 'Nested':
        R = h.real('R', 1, 4)
        return b.Sum([b.Sum([b.Paraboloid(R), b.Plane()]), b.Tilted(0.25, 0.5)]), (lambda s: s.sag(x, y)), (x*x + y*y)/2/R + 0.25*x + 0.5*y
    r = h.real('r', 0.25, 2)
    if kind == 'Negation':
        return b.ObscNegation(b.ObscCircle(r)), (lambda o: bool(o.contains(r/2, 0.0))), False
    if kind == 'Union':
        return b.ObscUnion([b.ObscCircle(r), b.ObscPolygon([3.0, 4.0, 4.0], [3.0, 3.0, 4.0])]), (lambda o: (bool(o.contains(r/2, 0.0)), bool(o.contains(3.75, 3.25)), bool(o.contains(0.0, 5.0)))), (True, True, False)
    if kind == 'Intersection':
        return b.ObscIntersection(b.ObscCircle(r), b.ObscNegation(b.ObscCircle(r/2))), (lambda o: (bool(o.contains(r/4, 0.0)), bool(o.contains(0.0, 0.75*r)))), (False, True)
    v = h.vec('v', 3, -1, 1)
    return b.RayVector([x], [y], [0.0], h.arr([v[0]]), h.arr([v[1]]), h.arr([v[2]])), (lambda r: list(r.positionAtTime(2.0)[0])), [x + 2*v[0], y + 2*v[1], 2*v[2]]


@harness('C27', configs=[(k, how) for k in HOLD for how in ('made', 'copy', 'deepcopy', 'pickle')], feas='cheap', time=60, timeout=5, paths=2000, asan=False)
def outlives_its_makers(h, b):
    """an object keeps whatever its native part points at, also when copied and the original dropped"""
    kind, how = h.cfg
    h.lifetimes()
    o, ask, want = hold(h, b, kind)
    if how == 'copy':
        o = copy.copy(o)
    elif how == 'deepcopy':
        o = copy.deepcopy(o)
    elif how == 'pickle':
        o = pickle.loads(pickle.dumps(o))
    h.churn()
    if isinstance(want, (bool, tuple)):
        h.check(ask(o) == want, 'answers as built')
    else:
        h.eq(ask(o), want, 'answers as built')


@harness('C27', configs=['shift', 'rotate', 'surface', 'insert', 'concat', 'index', 'mask', 'chain'], feas='cheap', time=60, timeout=5, paths=2000)
def outlives_its_source(h, b):
    """what is derived from an object works after the object is gone"""
    h.lifetimes()
    what = h.cfg
    R, d = h.real('R', 1, 4), h.real('d', -1, 1)
    x, y = h.real('x', -1, 1), h.real('y', -1, 1)

    def optic():
        return b.CompoundOptic((
            b.Baffle(b.Plane(), name='O', obscuration=b.ObscPolygon([3.0, 4.0, 4.0], [3.0, 3.0, 4.0]), coordSys=b.CoordSys([0, 0, 4])),
            b.RefractiveInterface(b.Sum([b.Paraboloid(R), b.Zernike([0.0, 0.0])]), name='A', inMedium=b.TableMedium([0.25, 1.0], [1.0, 1.0]), outMedium=b.TableMedium([0.25, 1.0], [1.0, 1.0]), coordSys=b.CoordSys()),
            b.Detector(b.Plane(), name='D', coordSys=b.CoordSys([0, 0, -2]))), name='T')
    rays = lambda: b.RayVector(h.arr([x]), h.arr([y]), h.arr([5.0]), h.arr([0.0]), h.arr([0.0]), h.arr([-1.0]), h.arr([0.0]), h.arr([0.5]), h.arr([1.0]))
    if what in ('shift', 'rotate', 'surface', 'insert', 'chain'):
        niter(b, 1)
        t = optic()
        if what == 'shift':
            t = t.withLocallyShiftedOptic('D', [0, 0, d])
        elif what == 'rotate':
            t = t.withLocallyRotatedOptic('D', h.arr([[0.6, 0.8, 0.0], [-0.8, 0.6, 0.0], [0.0, 0.0, 1.0]]))
        elif what == 'surface':
            t = t.withSurface('A', b.Sum([t['A'].surface, b.Zernike([0.0, d])]))
        elif what == 'insert':
            t = t.withInsertedOptic('D', b.OPDScreen(b.Plane(), b.Zernike([0.0, d]), name='S', coordSys=b.CoordSys([0, 0, -1.5]))) if hasattr(t, 'withInsertedOptic') else t
        else:
            t = t.withGloballyShiftedOptic('A', [0, 0, d]).withGloballyShiftedOptic('A', [0, 0, -d])
        h.churn()
        r = t.trace(rays())
        h.churn()
        h.check(not bool(r.vignetted[0]), 'passes')
        if what == 'insert':
            return
        h.eq(r.t[0], 7.0 - (d if what == 'shift' else 0.0), 'arrives')
        return
    if what == 'concat':
        o = b.concatenateRayVectors([rays(), rays()])
    elif what == 'index':
        o = b.concatenateRayVectors([rays(), rays()])[1:]
    else:
        o = b.concatenateRayVectors([rays(), rays()])[h.np.array([False, True])]
    h.churn()
    o.propagate(1.0)
    h.churn()
    for i in range(len(o)):
        h.eq([o.x[i], o.y[i], o.z[i], o.t[i]], [x, y, 4.0, 1.0], 'ray')


@harness('C27', configs=[(j, k) for j in (0, 1, 4, 6, 11) for k in ('Zernike', 'Asphere')] + [(28, 'Zernike')], feas='cheap', time=60, timeout=5, paths=400, asan=True)
def any_order(h, b):
    """polynomials of any number of coefficients"""
    n, kind = h.cfg
    c = [0.125*((i*7) % 5 - 2) for i in range(n)]
    x, y = h.real('x', -1, 1), h.real('y', -1, 1)
    try:
        s = b.Zernike(c) if kind == 'Zernike' else b.Asphere(8.0, 0.0, c)
        z = s.sag(x, y)
        s.normal(x, y)
        h.check(not h.isnan(z), 'height')
    except (ValueError, IndexError):
        h.check(True, 'rejected')


@harness('C27', configs=['Sum', 'Union', 'Intersection'], feas='cheap', time=60, timeout=5, paths=400, asan=True)
def any_number_of_parts(h, b):
    n = h.choice('n', 5)
    x, y = h.real('x', -3, 3), h.real('y', -3, 3)
    try:
        if h.cfg == 'Sum':
            s = b.Sum([b.Tilted(0.25*(i + 1), 0.0) for i in range(n)])
            h.eq(s.sag(x, y), 0.25*x*n*(n + 1)/2, 'sum of all')
            s.normal(x, y)
            b.intersect(s, b.RayVector([0.0], [0.0], [1.0], [0.0], [0.0], [-1.0]))
        else:
            o = getattr(b, 'Obsc' + h.cfg)([b.ObscCircle(1.0, float(i), 0.0) for i in range(n)])
            o.contains(x, y)
            b.obscure(o, b.RayVector(h.arr([x]), h.arr([y]), [1.0], [0.0], [0.0], [-1.0]))
            h.check(True, 'answers')
    except (ValueError, TypeError, IndexError):
        h.check(n < 2, 'a few parts are accepted')
