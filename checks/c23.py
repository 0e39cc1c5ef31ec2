"""C23: lattices place array entries at the coordinates they claim."""
import copy, itertools, pickle
from vlib.harness import harness
from checks.c21 import is_equal

SHAPES = [(1,), (2,), (3,), (4,), (5,), (1, 1), (2, 3), (3, 2), (4, 4), (1, 4), (2, 2, 2), (3, 2, 1), (1, 2, 3), (4, 3, 2)]
BIG = [(7,), (8,), (5, 6), (6, 5), (4, 4, 4), (3, 5, 4), (2, 2, 2, 2)]


def vectors(h, d, p='a'):
    return [[h.real(f'{p}{i}{j}', -3, 3) for j in range(d)] for i in range(d)]


def filled(h, shape, p='v'):
    n = 1
    for s in shape:
        n *= s
    return h.arr([h.real(f'{p}{i}', -3, 3) for i in range(n)]).reshape(shape)


@harness('C23', configs=[(s, w) for s in SHAPES for w in ('array', 'list')], thorough=[(s, 'array') for s in BIG], time=60, feas='cheap')
def coordinates(h, b):
    """entry (i, j, ..) is at the sum of (i - N//2) times the primitive vectors"""
    shape, w = h.cfg
    d = len(shape)
    pv = vectors(h, d)
    a = h.np.zeros(shape)
    l = b.Lattice(a, h.arr(pv) if w == 'array' else pv)
    h.check(l.coords.shape == (*shape, d), 'shape')
    if l.coords.shape != (*shape, d):
        return
    for idx in itertools.product(*[range(n) for n in shape]):
        for j in range(d):
            h.eq(l.coords[idx][j], sum((i - n//2)*pv[k][j] for k, (i, n) in enumerate(zip(idx, shape))), 'coordinate')
    for j in range(d):
        h.eq(l.coords[tuple(n//2 for n in shape)][j], 0, 'origin')
    for k in range(d):
        for j in range(d):
            h.eq(l.primitiveVectors[k][j], pv[k][j], 'primitive vectors')
    h.check(l.array is a or bool((l.array == a).all()), 'the values')


@harness('C23', configs=['number', 'vector'], time=30, feas='cheap')
def one_dimension(h, b):
    """a single step may be given as it is"""
    s = h.real('s', -3, 3)
    l = b.Lattice(h.np.zeros(3), s if h.cfg == 'number' else h.arr([s]))
    for i in range(3):
        h.eq(l.coords[i][0], (i - 1)*s, 'coordinate')


@harness('C23', configs=[(s, d) for s in ((2,), (2, 3), (2, 1, 2)) for d in ((1, 1), (2, 2), (3, 3), (1, 2), (2, 1), (1, 3), (3, 2))], time=30, feas='cheap')
def mismatched(h, b):
    """vectors that do not fit the array are refused"""
    shape, (n, m) = h.cfg
    pv = h.arr([[h.real(f'a{i}{j}', -3, 3) for j in range(m)] for i in range(n)])
    if n == m == len(shape):
        b.Lattice(h.np.zeros(shape), pv)
    else:
        h.raises(lambda: b.Lattice(h.np.zeros(shape), pv), ValueError, 'refused')


@harness('C23', configs=[(1,), (2,), (2, 1), (1, 2), (2, 2)], time=60, feas='cheap')
def value(h, b):
    """equal exactly when values and vectors are; hashes agree; copies are equal"""
    shape, d = h.cfg, len(h.cfg)
    p, q = vectors(h, d, 'p'), vectors(h, d, 'q')
    if shape == (2, 2) or h.bool('axes only'):     # off-diagonal terms as they are
        q = [[q[i][j] if i == j else p[i][j] for j in range(d)] for i in range(d)]
    u, v = filled(h, shape, 'u'), filled(h, shape, 'v')
    x, y = b.Lattice(u, h.arr(p)), b.Lattice(v, h.arr(q))
    if shape != (2, 2) and h.bool('coords used'):
        x.coords
    r = is_equal(h, x, y, 'lattice')
    h.check(h.iff(r, h.both(*[h.same(a, c) for a, c in zip([*u.ravel(), *sum(p, [])], [*v.ravel(), *sum(q, [])])])), 'equal iff the contents are')
    z = b.Lattice(u.copy(), h.arr(p))
    h.check(is_equal(h, x, z, 'twin') and hash(x) == hash(z), 'twins')
    for c in (pickle.loads(pickle.dumps(x)), copy.deepcopy(x), copy.copy(x)):
        h.check(is_equal(h, x, c, 'copy') and hash(x) == hash(c), 'copies')
        for a, e in zip(c.coords.ravel(), x.coords.ravel()):
            h.eq(a, e, 'coordinates of a copy')
    for o in (None, 1, u.shape, b.Plane()):
        h.check(not (x == o) and x != o, 'not something else')


@harness('C23', configs=[((1, 2), (2, 1)), ((2,), (3,)), ((2,), (2, 1)), ((1,), (1, 1))], time=30, feas='cheap')
def shapes_differ(h, b):
    """lattices of other shapes differ"""
    s, t = h.cfg
    p = vectors(h, 2)
    x, y = [b.Lattice(h.np.zeros(k), h.arr([r[:len(k)] for r in p[:len(k)]])) for k in (s, t)]
    h.check(not is_equal(h, x, y, 'shape'), 'differ')


def laid_out(a, how):
    """the same values in another memory layout"""
    if how == 'columns':
        return a.T.copy().T
    if how == 'reversed':
        return a[::-1].copy()[::-1]
    r = a.repeat(2, axis=0)
    return r[::2]


@harness('C23', configs=[(s, w, how) for s in ((2, 2), (2, 3)) for w in ('values', 'vectors') for how in ('columns', 'reversed', 'strided')] + [((3,), 'values', 'reversed'), ((2, 1, 2), 'values', 'columns')], time=60, feas='cheap')
def layouts(h, b):
    """the memory layout of what was given does not matter"""
    shape, w, how = h.cfg
    d = len(shape)
    p, u = h.arr(vectors(h, d, 'p')), filled(h, shape, 'u')
    x = b.Lattice(u, p)
    y = b.Lattice(laid_out(u, how) if w == 'values' else u, laid_out(p, how) if w == 'vectors' else p)
    h.check(is_equal(h, x, y, 'layout'), 'equal')
    h.check(hash(x) == hash(y), 'hashes agree')
    for a, e in zip([*y.array.ravel(), *y.coords.ravel(), *y.primitiveVectors.ravel()], [*x.array.ravel(), *x.coords.ravel(), *x.primitiveVectors.ravel()]):
        h.eq(a, e, 'contents')
    z = pickle.loads(pickle.dumps(y))
    h.check(is_equal(h, x, z, 'a copy') and hash(x) == hash(z), 'copies')
