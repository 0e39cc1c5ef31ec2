"""C02: surface normals are unit, upward, and orthogonal to the surface."""
from vlib.harness import harness
from checks.surf import make

KINDS = ['Plane', 'Tilted', 'Paraboloid', 'Sphere', 'Quadric', 'Asphere', 'Zernike3', 'Zernike10']


def normal_props(h, s, x, y):
    z = s.sag(x, y)
    n = s.normal(x, y)
    zx, zy = h.grad(s.sag, x, y)
    h.eq(h.np.shape(n), (3,), 'scalar input gives one 3-vector')
    h.eq(n[0], -zx*n[2], 'normal x against slope', tol=1e-5)
    h.eq(n[1], -zy*n[2], 'normal y against slope', tol=1e-5)
    h.eq(n[0]*n[0] + n[1]*n[1] + n[2]*n[2], 1, 'unit length')
    h.check(n[2] > 0, 'upward')
    return z, n


@harness('C02', configs=[k for k in KINDS if k != 'Tilted'], thorough=['Zernike21'], time=100)
def normal(h, b):
    """surface parameters and the point are free within the boxes of checks/surf.py"""
    s, dom = make(h, b, h.cfg)
    x, y = h.real('x', -4, 4), h.real('y', -4, 4)
    h.assume(dom(x, y))
    normal_props(h, s, x, y)


@harness('C02', finding='F1')
def tilted_finding(h, b):
    """the listed defect: perpendicularity for any nonzero tilt"""
    s, _ = make(h, b, 'Tilted')
    x, y = h.real('x', -4, 4), h.real('y', -4, 4)
    normal_props(h, s, x, y)


@harness('C02')
def tilted(h, b):
    """everything but the listed defect: a flat plane's normal is F1 only for nonzero tilt; tilt tangents in [-3,3]"""
    tx, ty = h.real('s.tanx', -3, 3), h.real('s.tany', -3, 3)
    x, y = h.real('x', -4, 4), h.real('y', -4, 4)
    s = b.Tilted(tx, ty)
    if not h.known('F1'):
        return normal_props(h, s, x, y)
    h.assume(tx*tx + ty*ty < 1)
    n = s.normal(x, y)
    h.eq(n[0]*n[0] + n[1]*n[1] + n[2]*n[2], 1, 'unit length')
    h.check(n[2] > 0, 'upward')
    h.eq(n[0]*ty, n[1]*tx, 'leans along the gradient')
    h.le(n[0]*tx, 0, 'leans downhill in x')
    h.le(n[1]*ty, 0, 'leans downhill in y')
    normal_props(h, b.Tilted(0.0, 0.0), x, y)


@harness('C02', configs=[('Paraboloid', 'Zernike3'), ('Sphere', 'Plane'), ('Plane', 'Paraboloid', 'Zernike3')],
         thorough=[('Quadric', 'Zernike10'), ('Asphere', 'Zernike3')], time=100)
def sums(h, b):
    """Sum of 2-3 surfaces, every parameter free"""
    parts = [make(h, b, k, p=f's{i}') for i, k in enumerate(h.cfg)]
    x, y = h.real('x', -4, 4), h.real('y', -4, 4)
    for _, dom in parts:
        h.assume(dom(x, y))
    s = b.Sum([p for p, _ in parts]) if len(parts) != 2 else parts[0][0] + parts[1][0]
    z, n = normal_props(h, s, x, y)
    h.eq(z, sum(p.sag(x, y) for p, _ in parts), 'heights add')


LAYOUTS = ['vector', '2d', 'transposed', 'strided', 'reversed', 'integers', 'list']


@harness('C02', configs=[(k, l) for k in ('Zernike3', 'Paraboloid') for l in LAYOUTS] + [('Sum', '2d'), ('Sphere', 'strided'), ('Plane', 'transposed')], time=60)
def arrays(h, b):
    """arrays of 2-4 free points in several shapes and layouts against the scalar calls"""
    kind, lay = h.cfg
    if kind == 'Sum':
        s = b.Sum([make(h, b, 'Paraboloid')[0], make(h, b, 'Zernike3', 'q')[0]])
        dom = lambda x, y: True
    else:
        s, dom = make(h, b, kind)
    np = h.np
    f = lambda n: [h.real(f'{n}{i}', -4, 4) for i in range(4)]
    a, c = f('x'), f('y')
    if lay in ('vector', 'list'):
        x, y = h.arr(a[:3]), h.arr(c[:3])
    elif lay == '2d':
        x, y = h.arr([a[:2], a[2:]]), h.arr([c[:2], c[2:]])
    elif lay == 'transposed':
        x, y = h.arr([a[:2], a[2:]]).T, h.arr([c[:2], c[2:]])
    elif lay == 'strided':
        x, y = h.arr(a)[::2], h.arr(c)[1::2]
    elif lay == 'reversed':
        x, y = h.arr(a[:3])[::-1], h.arr(c[:3])
    else:
        x, y = np.array([1, 2]), np.array([[0, 1], [3, 1]])[:, 0]
    pts = [(p, q) for p, q in zip(x.ravel(), y.ravel())]
    for p, q in pts:
        h.assume(dom(p, q))
    if lay == 'list':
        z, n = s.sag(list(x), list(y)), s.normal(list(x), list(y))
    else:
        z, n = s.sag(x, y), s.normal(x, y)
    h.check(np.shape(z) == x.shape, 'heights have the shape of the input')
    h.check(np.shape(n) == x.shape + (3,), 'normals have the shape of the input plus 3')
    zf = np.array(z).ravel()
    for i, (p, q) in enumerate(pts):
        h.eq(zf[i], s.sag(float(p) if lay == 'integers' else p, float(q) if lay == 'integers' else q), 'height of the element')
        m = s.normal(float(p) if lay == 'integers' else p, float(q) if lay == 'integers' else q)
        idx = np.unravel_index(i, x.shape)
        for k in range(3):
            h.eq(n[idx + (k,)], m[k], f'normal[{k}] of the element')
    h.raises(lambda: s.normal(h.arr(a[:3]), h.arr(c[:2])), ValueError, 'mismatched sizes are rejected')
