"""C12: bicubic surfaces interpolate their grid."""
import copy, pickle
from vlib.harness import harness

# Hermite basis on the unit interval: value and derivative
H = (lambda u: (1 + 2*u)*(1 - u)*(1 - u), lambda u: u*u*(3 - 2*u), lambda u: u*(1 - u)*(1 - u), lambda u: u*u*(u - 1))
D = (lambda u: 6*u*u - 6*u, lambda u: 6*u - 6*u*u, lambda u: 1 - 4*u + 3*u*u, lambda u: 3*u*u - 2*u)


class Grid:
    """nx by ny nodes, any heights and slopes, any origin and positive steps"""
    def __init__(self, h, b, nx, ny, policy='nan', slopes=True, layout='C', sx=1, sy=1):
        self.h, self.nx, self.ny = h, nx, ny
        self.x0, self.y0 = h.real('x0', -2, 2), h.real('y0', -2, 2)
        self.dx, self.dy = h.real('dx', 0.25, 2)*sx, h.real('dy', 0.25, 2)*sy
        self.xs = [self.x0 + i*self.dx for i in range(nx)]
        self.ys = [self.y0 + j*self.dy for j in range(ny)]

        def t(p):
            return [[h.real(f'{p}{j}.{i}', -2, 2) for i in range(nx)] for j in range(ny)]
        self.z = t('z')
        arr = h.arr if layout == 'C' else lambda m: h.np.asfortranarray(h.arr(m))
        if layout == 'view':
            arr = lambda m: h.arr([[e for v in r for e in (v, 99.0)] for r in m])[:, ::2]
        if slopes:
            self.zx, self.zy, self.zxy = t('zx'), t('zy'), t('zxy')
            kw = dict(dzdxs=arr(self.zx), dzdys=arr(self.zy), d2zdxdys=arr(self.zxy))
        else:
            kw = {}
        self.s = b.Bicubic(h.arr(self.xs), h.arr(self.ys), arr(self.z), nanpolicy=policy, **kw)

    def cell(self, i, j, u, v, fx=H, fy=H):
        """interpolant (or a derivative in cell units) of cell i, j at u, v"""
        s = 0
        for a in range(2):
            for c in range(2):
                I, J = i + a, j + c
                s = s + self.z[J][I]*fx[a](u)*fy[c](v)
                s = s + self.dx*self.zx[J][I]*fx[2+a](u)*fy[c](v)
                s = s + self.dy*self.zy[J][I]*fx[a](u)*fy[2+c](v)
                s = s + self.dx*self.dy*self.zxy[J][I]*fx[2+a](u)*fy[2+c](v)
        return s


def inside(h, g, ends=True):
    """(cell, fractions, x, y) anywhere in the grid"""
    i, j = h.choice('i', g.nx - 1), h.choice('j', g.ny - 1)
    u, v = h.real('u', 0, 1), h.real('v', 0, 1)
    h.assume(u < 1)
    h.assume(v < 1)
    return i, j, u, v, g.x0 + (i + u)*g.dx, g.y0 + (j + v)*g.dy


def slopes(h, s, x, y):
    n = list(s.normal(x, y))
    h.check(h.lt_(0, n[2]), 'normal points up')
    return -n[0]/n[2], -n[1]/n[2], n


GRIDS = [(2, 2), (3, 2), (2, 3), (3, 3)]


@harness('C12', configs=GRIDS, thorough=[(4, 3), (4, 4)], time=100, paths=2000, timeout=20)
def interpolates(h, b):
    """in every cell the surface is the bicubic with the corner data"""
    g = Grid(h, b, *h.cfg)
    i, j, u, v, x, y = inside(h, g)
    h.eq(g.s.sag(x, y), g.cell(i, j, u, v), 'height')


@harness('C12', configs=GRIDS, thorough=[(4, 3)], time=100, paths=2000, timeout=20)
def slope_of_interpolant(h, b):
    g = Grid(h, b, *h.cfg)
    i, j, u, v, x, y = inside(h, g)
    p, q, n = slopes(h, g.s, x, y)
    h.eq(p*g.dx, g.cell(i, j, u, v, fx=D), 'slope along x')
    h.eq(q*g.dy, g.cell(i, j, u, v, fy=D), 'slope along y')
    h.eq(h.dot(n, n), 1, 'unit normal')


@harness('C12', configs=[(2, 2), (3, 3), (4, 2), (2, 4)], thorough=[(4, 4)], time=100, paths=2000)
def nodes(h, b):
    """every node, the last lines included"""
    g = Grid(h, b, *h.cfg)
    i, j = h.choice('i', g.nx), h.choice('j', g.ny)
    x, y = g.xs[i], g.ys[j]
    h.eq(g.s.sag(x, y), g.z[j][i], 'passes through the node')
    p, q, n = slopes(h, g.s, x, y)
    h.eq(p, g.zx[j][i], 'given slope along x')
    h.eq(q, g.zy[j][i], 'given slope along y')


@harness('C12', configs=[('x', 3, 2), ('y', 2, 3)], thorough=[('x', 4, 3), ('y', 3, 4)], time=100, paths=2000, timeout=20)
def continuous(h, b):
    """height and slopes on a shared edge are the limits from both cells"""
    axis, nx, ny = h.cfg
    g = Grid(h, b, nx, ny)
    f = h.real('f', 0, 1)
    h.assume(f < 1)
    n = nx if axis == 'x' else ny
    k = 1 + h.choice('k', n - 2)
    m = h.choice('m', (ny if axis == 'x' else nx) - 1)
    if axis == 'x':
        x, y = g.xs[k], g.y0 + (m + f)*g.dy
        sides = [(k - 1, m, 1, f), (k, m, 0, f)]
    else:
        x, y = g.x0 + (m + f)*g.dx, g.ys[k]
        sides = [(m, k - 1, f, 1), (m, k, f, 0)]
    z = g.s.sag(x, y)
    p, q, _ = slopes(h, g.s, x, y)
    for c in sides:
        h.eq(z, g.cell(*c), 'height from either side')
        h.eq(p*g.dx, g.cell(*c, fx=D), 'x slope from either side')
        h.eq(q*g.dy, g.cell(*c, fy=D), 'y slope from either side')


@harness('C12', configs=[(2, 2), (3, 2)], thorough=[(3, 3)], time=100, paths=2000, timeout=20)
def reproduces_bicubics(h, b):
    """data of one bicubic polynomial gives that polynomial everywhere"""
    nx, ny = h.cfg
    c = [[h.real(f'c{k}{l}', -1, 1) for l in range(4)] for k in range(4)]
    x0, y0, dx, dy = h.real('x0', -1, 1), h.real('y0', -1, 1), h.real('dx', 0.25, 2), h.real('dy', 0.25, 2)

    def poly(x, y, a=0, d=0):
        s = 0
        for k in range(a, 4):
            for l in range(d, 4):
                t = c[k][l]*(k if a else 1)*(l if d else 1)
                for _ in range(k - a):
                    t = t*x
                for _ in range(l - d):
                    t = t*y
                s = s + t
        return s
    xs, ys = [x0 + i*dx for i in range(nx)], [y0 + j*dy for j in range(ny)]

    def tab(a, d):
        return h.arr([[poly(x, y, a, d) for x in xs] for y in ys])
    s = b.Bicubic(h.arr(xs), h.arr(ys), tab(0, 0), dzdxs=tab(1, 0), dzdys=tab(0, 1), d2zdxdys=tab(1, 1))
    i, j = h.choice('i', nx - 1), h.choice('j', ny - 1)
    u, v = h.real('u', 0, 1), h.real('v', 0, 1)
    x, y = x0 + (i + u)*dx, y0 + (j + v)*dy
    h.eq(s.sag(x, y), poly(x, y), 'the polynomial itself')


@harness('C12', configs=[(2, 2), (3, 3), (4, 3)], thorough=[(4, 4)], time=100, paths=2000, timeout=20)
def default_slopes(h, b):
    """without slopes a bilinear surface is reproduced, and nodes are still hit"""
    nx, ny = h.cfg
    k = h.vec('k', 4, -2, 2)
    x0, y0, dx, dy = h.real('x0', -1, 1), h.real('y0', -1, 1), h.real('dx', 0.25, 2), h.real('dy', 0.25, 2)
    f = lambda x, y: k[0] + k[1]*x + k[2]*y + k[3]*x*y
    xs, ys = [x0 + i*dx for i in range(nx)], [y0 + j*dy for j in range(ny)]
    s = b.Bicubic(h.arr(xs), h.arr(ys), h.arr([[f(x, y) for x in xs] for y in ys]))
    i, j = h.choice('i', nx - 1), h.choice('j', ny - 1)
    u, v = h.real('u', 0, 1), h.real('v', 0, 1)
    x, y = x0 + (i + u)*dx, y0 + (j + v)*dy
    h.eq(s.sag(x, y), f(x, y), 'bilinear surface')
    p, q, _ = slopes(h, s, x, y)
    h.eq([p, q], [k[1] + k[3]*y, k[2] + k[3]*x], 'its slopes')


@harness('C12', configs=[(3, 3), (4, 3)], thorough=[(3, 5), (5, 3)], time=100, paths=2000, timeout=20)
def default_slopes_are_central(h, b):
    """without slopes, interior nodes get those of the quadratic through their neighbours"""
    g = Grid(h, b, *h.cfg, slopes=False)
    i, j = h.choice('i', g.nx), h.choice('j', g.ny)
    h.eq(g.s.sag(g.xs[i], g.ys[j]), g.z[j][i], 'passes through the node')
    p, q, _ = slopes(h, g.s, g.xs[i], g.ys[j])

    def diff(line, k, d):
        a, c = max(k - 1, 0), min(k + 1, len(line) - 1)
        return (line[c] - line[a])/((c - a)*d)
    h.eq(p, diff(g.z[j], i, g.dx), 'slope along x')
    h.eq(q, diff([r[i] for r in g.z], j, g.dy), 'slope along y')


def outside(h, g):
    """a point outside, on any side, however far"""
    d = h.real('d', 0.0009765625, 40)
    side = h.choice('side', 4)
    o = h.real('o', -40, 40)
    if side == 0:
        return g.x0 - d, o
    if side == 1:
        return g.xs[-1] + d, o
    if side == 2:
        return o, g.y0 - d
    return o, g.ys[-1] + d


@harness('C12', configs=['nan', 'zero', 'NAN', 'ZERO', 'default'], time=60, paths=2000)
def off_the_grid(h, b):
    """documented policy, for heights and normals alike"""
    kw = {} if h.cfg == 'default' else {'policy': h.cfg}
    g = Grid(h, b, 3, 2, **kw)
    x, y = outside(h, g)
    z = g.s.sag(x, y)
    n = list(g.s.normal(x, y))
    if h.cfg.upper() == 'ZERO':
        h.eq(z, 0, 'zero height')
        h.eq(n, [0, 0, 1], 'normal of a flat surface')
    else:
        h.check(h.isnan(z), 'undefined height')
        h.check(all(h.isnan(e) for e in n), 'undefined normal')


@harness('C12', configs=['nan', 'zero'], time=60, paths=2000)
def undefined_points(h, b):
    """a nan coordinate is off the grid"""
    g = Grid(h, b, 2, 2, policy=h.cfg)
    nan = float('nan')
    w = h.real('w', -3, 3)
    for x, y in ((nan, w), (w, nan), (nan, nan), (float('inf'), w), (w, -float('inf'))):
        z = g.s.sag(x, y)
        n = list(g.s.normal(x, y))
        if h.cfg == 'nan':
            h.check(h.isnan(z) and all(h.isnan(e) for e in n), 'undefined')
        else:
            h.eq([z, *n], [0, 0, 0, 1], 'flat')


@harness('C12', configs=['F', 'view', 'deepcopy', 'pickle', 'state', 'descending'], time=60, paths=2000, timeout=20)
def same_surface(h, b):
    """memory layout, copying and the direction of the axes do not matter"""
    k = h.cfg
    g = Grid(h, b, 3, 2, layout=k if k in ('F', 'view') else 'C', **(dict(sx=-1, sy=-1) if k == 'descending' else {}))
    s = g.s
    if k == 'deepcopy':
        g.s = copy.deepcopy(s)
    elif k == 'pickle':
        g.s = pickle.loads(pickle.dumps(s))
    elif k == 'state':
        g.s = b.Bicubic.__new__(b.Bicubic)
        g.s.__setstate__(s.__getstate__())
    i, j, u, v, x, y = inside(h, g)
    h.eq(g.s.sag(x, y), g.cell(i, j, u, v), 'height')
    p, q, n = slopes(h, g.s, x, y)
    h.eq([p*g.dx, q*g.dy], [g.cell(i, j, u, v, fx=D), g.cell(i, j, u, v, fy=D)], 'slopes')


@harness('C12', configs=[None], time=60)
def later_changes(h, b):
    """the surface keeps its own copy of the arrays it was given"""
    names = ('z', 'zx', 'zy', 'zxy')
    t = {p: h.arr([[h.real(f'{p}{j}{i}', -2, 2) for i in range(2)] for j in range(2)]) for p in names}
    xs, ys = h.arr([0.0, 1.0]), h.arr([0.0, 2.0])
    s = b.Bicubic(xs, ys, t['z'], dzdxs=t['zx'], dzdys=t['zy'], d2zdxdys=t['zxy'])
    x, y = h.real('x', 0, 1), h.real('y', 0, 2)
    z, n = s.sag(x, y), list(s.normal(x, y))
    for a in (xs, ys, *t.values()):
        a[...] = h.real('junk', -5, 5)
    h.eq(s.sag(x, y), z, 'same height')
    h.eq(list(s.normal(x, y)), n, 'same normal')


@harness('C12', configs=[None], time=60)
def rejects(h, b):
    z = h.arr([[0.0, 1.0], [1.0, 2.0]])
    xs = h.arr([0.0, 1.0])
    h.raises(lambda: b.Bicubic(xs, xs, z, nanpolicy='other'), (AssertionError, ValueError), 'unknown policy')
    h.raises(lambda: b.Bicubic(xs, xs, h.arr([1.0, 2.0])), (ValueError, IndexError), 'heights not a table')
    h.raises(lambda: b.Bicubic(xs, xs, z, dzdxs=h.arr([[0.0, 0.0]])), ValueError, 'slopes of another shape')
