"""C10: polygons agree with even-odd containment, pointwise and on grids."""
from vlib.harness import harness
from checks.rays import bundle, snap


def polygon(h, b, n, lo=-4, hi=4):
    xs = [h.real(f'x{i}', lo, hi) for i in range(n)]
    ys = [h.real(f'y{i}', lo, hi) for i in range(n)]
    return xs, ys


def xor(h, a, c):
    return h.neg(h.iff(a, c))


def parity(h, xs, ys, x, y):
    """number of edges crossed by the half line towards +x is odd; from the sign of the
    cross product, not from an intercept"""
    n = len(xs)
    odd = False
    for i in range(n):
        x1, y1, x2, y2 = xs[i], ys[i], xs[(i+1) % n], ys[(i+1) % n]
        cr = (x2 - x1)*(y - y1) - (x - x1)*(y2 - y1)
        up = h.both(h.lt_(y1, y), h.lt_(y, y2), h.lt_(0, cr))        # upwards, to the right of the point
        dn = h.both(h.lt_(y2, y), h.lt_(y, y1), h.lt_(cr, 0))
        odd = xor(h, odd, h.either(up, dn))
    return odd


def general(h, xs, ys, x, y):
    """the point is level with no vertex and on no edge"""
    apart = lambda d: h.assume(h.either(h.lt_(1e-3, d), h.lt_(d, -1e-3)))
    n = len(xs)
    for i in range(n):
        apart(y - ys[i])
        x1, y1, x2, y2 = xs[i], ys[i], xs[(i+1) % n], ys[(i+1) % n]
        apart((x2 - x1)*(y - y1) - (x - x1)*(y2 - y1))


HEIGHTS = [1.0, 1.75, 0.5, 2.25, 1.25]


def rows(h, n):
    """vertices anywhere along lines above or below the point, the latter at height zero"""
    xs = [h.real(f'x{i}', -4, 4) for i in range(n)]
    ys = [HEIGHTS[i] if h.bool(f'up{i}') else -HEIGHTS[i] for i in range(n)]
    return xs, ys, h.real('x', -5, 5), 0.0


@harness('C10', configs=['any', 3, 4], thorough=['any4', 5], timeout=10, quick_timeout=2, time=150, paths=20000, feas='cheap')
def even_odd(h, b):
    """every polygon, simple or not, and every point: any triangle; n vertices anywhere
    on n lines above or below the point"""
    if isinstance(h.cfg, str):
        xs, ys = polygon(h, b, 4 if h.cfg == 'any4' else 3)
        x, y = h.real('x', -5, 5), h.real('y', -5, 5)
    else:
        xs, ys, x, y = rows(h, h.cfg)
    general(h, xs, ys, x, y)
    got = bool(b.ObscPolygon(xs, ys).contains(x, y))
    odd = parity(h, xs, ys, x, y)
    h.check(odd if got else h.neg(odd), 'contained iff an odd number of edges is crossed')


@harness('C10', configs=[(3, 'rotate'), (3, 'reverse'), (4, 'rotate')], thorough=[(4, 'reverse'), (5, 'rotate'), (5, 'reverse'), ('any', 'rotate'), ('any', 'reverse')],
         timeout=10, quick_timeout=2, time=150, paths=20000, feas='cheap')
def vertex_order(h, b):
    """starting at another vertex or going round the other way changes nothing"""
    n, how = h.cfg
    if n == 'any':
        xs, ys = polygon(h, b, 3)
        x, y = h.real('x', -5, 5), h.real('y', -5, 5)
    else:
        xs, ys, x, y = rows(h, n)
    general(h, xs, ys, x, y)
    u, v = (xs[1:] + xs[:1], ys[1:] + ys[:1]) if how == 'rotate' else (xs[::-1], ys[::-1])
    h.check(bool(b.ObscPolygon(xs, ys).contains(x, y)) == bool(b.ObscPolygon(u, v).contains(x, y)), 'same answer')


@harness('C10', configs=[1, 2], timeout=10, time=60)
def degenerate(h, b):
    """a point or a segment contains nothing"""
    xs, ys = polygon(h, b, h.cfg)
    x, y = h.real('x', -5, 5), h.real('y', -5, 5)
    if h.cfg == 2:
        general(h, xs, ys, x, y)
    h.check(not b.ObscPolygon(xs, ys).contains(x, y), 'empty')
    g = b.ObscPolygon(xs, ys).containsGrid([x], [y])
    h.check(not bool(g[0, 0]), 'empty on grids')


@harness('C10', configs=[(3, 1)], thorough=[(4, 1), (3, 2), (4, 2), (5, 1), (5, 2), ('any', 1), ('any', 2), (3, 3)],
         timeout=10, quick_timeout=2, time=150, paths=20000, feas='cheap')
def grid_equals_points(h, b):
    """one row of nx nodes anywhere, in any order: node by node the single-point answer"""
    n, nx = h.cfg
    if n == 'any':
        xs, ys = polygon(h, b, 3)
        y = h.real('y', -5, 5)
    else:
        xs, ys, x, y = rows(h, n)
    gx = [h.real(f'gx{i}', -5, 5) for i in range(nx)]
    for x in gx:
        general(h, xs, ys, x, y)
    o = b.ObscPolygon(xs, ys)
    out = o.containsGrid(h.arr(gx), h.arr([y]))
    h.check(out.shape == (1, nx), 'one row per y, one column per x')
    for i in range(nx):
        h.check(bool(out[0, i]) == bool(o.contains(gx[i], y)), 'grid node like the point')


FIXED = {'square': ([-1.0, 1.0, 1.0, -1.0], [-1.0, -1.0, 1.0, 1.0]),
         'spike': ([-2.0, 2.0, 0.5, 0.0, -0.5], [-1.0, -1.0, 0.25, 2.0, 0.5]),
         'bowtie': ([-1.0, 1.0, -1.0, 1.0], [-1.0, -1.0, 1.0, 1.5]),
         'comb': ([-2.0, 2.0, 2.0, 1.0, 0.5, 0.0, -0.5, -1.0, -2.0], [-1.0, -1.0, 1.0, 1.5, -0.5, 1.25, -0.5, 1.0, 1.75])}


@harness('C10', configs=[('square', 2, 2), ('square', 1, 3), ('spike', 2, 1), ('spike', 3, 1), ('spike', 1, 2), ('bowtie', 2, 1), ('bowtie', 3, 1)], thorough=[('spike', 2, 2), ('spike', 1, 3), ('bowtie', 2, 2), ('bowtie', 1, 3), ('comb', 2, 2), ('square', 3, 3), ('spike', 3, 2), ('comb', 3, 1)],
         timeout=10, quick_timeout=2, time=100, paths=20000, feas='cheap')
def grid_on_fixed_polygons(h, b):
    """larger grids anywhere over particular polygons (several crossings per row, and
    coordinates equal to those of vertices)"""
    k, nx, ny = h.cfg
    xs, ys = FIXED[k]
    gx = [h.real(f'gx{i}', -3, 3) for i in range(nx)]
    gy = [h.real(f'gy{i}', -3, 3) for i in range(ny)]
    o = b.ObscPolygon(xs, ys)
    out = o.containsGrid(h.arr(gx), h.arr(gy))
    h.check(out.shape == (ny, nx), 'one row per y, one column per x')
    for j in range(ny):
        for i in range(nx):
            h.check(bool(out[j, i]) == bool(o.contains(gx[i], gy[j])), 'grid node like the point')


@harness('C10', configs=['list', 'int', 'strided', 'empty'], timeout=10, time=60)
def grid_inputs(h, b):
    """whatever holds the coordinates, values count"""
    o = b.ObscPolygon(*FIXED['spike'])
    if h.cfg == 'empty':
        h.check(o.containsGrid([], [1.0]).shape == (1, 0) and o.containsGrid([1.0], []).shape == (0, 1), 'empty grids')
        return
    if h.cfg == 'int':
        out = o.containsGrid(h.np.array([-1, 0, 1]), h.np.array([0, 1]))
        gx, gy = [-1.0, 0.0, 1.0], [0.0, 1.0]
    else:
        gx, gy = [h.real(f'gx{i}', -3, 3) for i in range(2)], [h.real('gy', -3, 3)]
        if h.cfg == 'list':
            out = o.containsGrid(gx, gy)
        else:
            a = h.arr([gx[0], 9.0, gx[1], 9.0])
            out = o.containsGrid(a[::2], h.arr([gy[0], 9.0])[::2])
    for j, y in enumerate(gy):
        for i, x in enumerate(gx):
            h.check(bool(out[j, i]) == bool(o.contains(x, y)), 'grid node like the point')


@harness('C10', configs=['strided', 'int', 'changed'], timeout=10, time=60)
def vertex_inputs(h, b):
    """the polygon keeps the vertices it was given, however they were stored"""
    xs, ys = FIXED['spike']
    x, y = h.real('x', -3, 3), h.real('y', -3, 3)
    if h.cfg == 'int':
        o, ref = b.ObscPolygon([0, 3, 0], [0, 0, 3]), b.ObscPolygon([0.0, 3.0, 0.0], [0.0, 0.0, 3.0])
    elif h.cfg == 'strided':
        m = h.arr([[u, v] for u, v in zip(xs, ys)])
        o, ref = b.ObscPolygon(m[:, 0], m[:, 1]), b.ObscPolygon(xs, ys)
    else:
        ref = b.ObscPolygon(xs, ys)
        o = type(ref).__new__(type(ref))
        o.__setstate__(ref.__getstate__())
    h.check(bool(o.contains(x, y)) == bool(ref.contains(x, y)), 'same region')
    h.raises(lambda: b.ObscPolygon([0.0, 1.0, 0.0], [0.0, 1.0]), ValueError, 'sizes must match')


@harness('C10', timeout=10, time=60, feas='cheap', paths=2000)
def obscuring_rays(h, b):
    xs, ys = FIXED['spike']
    o = b.ObscPolygon(xs, ys)
    rv = bundle(h, b, 1)
    old = snap(rv)
    o.obscure(rv)
    h.check(snap(rv)['vignetted'][0] == bool(o.contains(old['x'][0], old['y'][0])), 'vignetted iff inside')
