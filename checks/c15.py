"""C15: ray bundles are value containers."""
import copy, pickle
from vlib.harness import harness
from checks.rays import bundle, snap, same_rays, frame, tilted, FIELDS

ALL = FIELDS + ('vignetted', 'failed')
PRIV = tuple('_' + f for f in ALL)


def flagged(h, b, n, p='r', coordSys=None):
    """n rays with free fields; flags fixed so that no two neighbours agree"""
    kw = {} if coordSys is None else {'coordSys': coordSys}
    rv = bundle(h, b, n, p)
    vig = h.np.array([i % 2 == 1 for i in range(n)], dtype=bool)
    fail = h.np.array([i % 3 == 1 for i in range(n)], dtype=bool)
    return b.RayVector(*[getattr(rv, f) for f in FIELDS], vig, fail, **kw)


def rows(h, got, d, want, label, cs=None):
    """got consists of the rows `want` of snapshot d"""
    e = snap(got)
    h.check(len(got) == len(want), label + ': number of rays')
    if len(got) != len(want):
        return
    for f in ALL:
        h.check(getattr(got, f).shape == (len(want),), label + ': one value per ray: ' + f)
        for k, i in enumerate(want):
            if f in ('vignetted', 'failed'):
                h.check(e[f][k] == d[f][i], f'{label}: {f}')
            else:
                h.eq(e[f][k], d[f][i], f'{label}: {f}')
    h.check(got.coordSys == d['coordSys'], label + ': frame')


def apart(h, b, x, y, label):
    """changing one bundle leaves the other alone"""
    before = snap(y)
    for f in FIELDS:
        getattr(x, f)[...] = h.real('w.' + f, -9, 9)
    x.vignetted[...] = h.np.array([not e for e in before['vignetted'][:len(x)]] or [], dtype=bool) if len(x) == len(y) else True
    x.failed[...] = True
    x.propagate(h.real('w.T', -3, 3))
    same_rays(h, y, before, label)


@harness('C15', configs=[(1,), (2,), (3,), (5,)], time=60)
def integer_index(h, b):
    n, = h.cfg
    cs = tilted(h, b, 'c')
    rv = flagged(h, b, n, coordSys=cs)
    d = snap(rv)
    i = h.choice('i', 2*n + 4) - n - 2
    kind = h.choice('kind', 3)
    k = [int, h.np.int64, h.np.int32][kind](i)
    if -n <= i < n:
        got = rv[k]
        rows(h, got, d, [i % n], 'one ray')
        apart(h, b, got, rv, 'selection shares nothing')
    else:
        h.raises(lambda: rv[k], IndexError, 'out of range')


@harness('C15', configs=[1, 3, 4], thorough=[6], time=60, paths=4000)
def slices(h, b):
    n = h.cfg
    rv = flagged(h, b, n, coordSys=tilted(h, b, 'c'))
    d = snap(rv)
    ends = [None] + list(range(-n - 1, n + 2))
    s = slice(ends[h.choice('a', len(ends))], ends[h.choice('b', len(ends))], [None, 1, 2, -1, -2][h.choice('s', 5)])
    got = rv[s]
    rows(h, got, d, list(range(n))[s], 'slice')
    apart(h, b, got, rv, 'selection shares nothing')


@harness('C15', configs=[1, 2, 3], thorough=[5], time=60)
def mask(h, b):
    n = h.cfg
    rv = flagged(h, b, n)
    d = snap(rv)
    m = [h.bool(f'm{i}') for i in range(n)]
    got = rv[h.np.array(m, dtype=bool)]
    rows(h, got, d, [i for i in range(n) if m[i]], 'mask')
    apart(h, b, got, rv, 'selection shares nothing')


@harness('C15', configs=[(2, 0), (2, 2), (3, 1), (3, 3)], time=60)
def fancy(h, b):
    """a list or array of indices, repeats and negatives included"""
    n, m = h.cfg
    rv = flagged(h, b, n)
    d = snap(rv)
    ix = [h.choice(f'i{k}', 2*n) - n for k in range(m)]
    got = rv[h.np.array(ix, dtype=int)]
    rows(h, got, d, [i % n for i in ix], 'index array')
    if m:
        rows(h, rv[ix], d, [i % n for i in ix], 'index list')
    apart(h, b, got, rv, 'selection shares nothing')


@harness('C15', configs=[0, 1, 2, 4], time=60)
def iterate(h, b):
    rv = flagged(h, b, 4, coordSys=tilted(h, b, 'c'))[:h.cfg]
    d = snap(rv)
    h.check(len(rv) == h.cfg, 'length')
    got = list(rv)
    h.check(len(got) == h.cfg, 'one item per ray')
    for i, r in enumerate(got):
        rows(h, r, d, [i], 'item')


@harness('C15', configs=['construct', 'copy', 'copymodule', 'deepcopy', 'pickle', 'state'], time=60)
def copies(h, b):
    n = 3
    rv = flagged(h, b, n, coordSys=frame(h, b, 'c'))
    if h.cfg == 'construct':
        # the arrays handed over stay the caller's
        args = [getattr(rv, f) for f in ALL]
        got = b.RayVector(*args, coordSys=rv.coordSys)
    else:
        got = duplicate(rv, h.cfg)
    d = snap(rv)
    rows(h, got, d, range(n), 'copy')
    h.check(got == rv and not (got != rv), 'equal to the original')
    h.check(got._hash() == rv._hash(), 'same hash')
    if h.cfg == 'copymodule':
        return       # a shallow copy may share arrays
    if h.cfg == 'state':
        return
    which = h.choice('which', 2)
    if which:
        apart(h, b, got, rv, 'original after changing the copy')
    else:
        apart(h, b, rv, got, 'copy after changing the original')
    h.check(got != rv, 'no longer equal')


def duplicate(x, how):
    if how == 'copy':
        return x.copy()
    if how == 'copymodule':
        return copy.copy(x)
    if how == 'deepcopy':
        return copy.deepcopy(x)
    if how == 'pickle':
        return pickle.loads(pickle.dumps(x))
    y = type(x).__new__(type(x))
    y.__setstate__(x.__getstate__())
    return y


@harness('C15', configs=list(ALL) + ['coordSys', 'size', 'type', 'none'], time=60)
def equality(h, b):
    """any difference in one field of one ray shows; nothing else does"""
    n = 2
    f = h.cfg
    rv = bundle(h, b, n, coordSys=tilted(h, b, 'c') if f == 'coordSys' else frame(h, b, 'c'), flags=f in ('none', 'vignetted', 'failed'))
    other = rv.copy()
    if f == 'none':
        h.check(rv == other and not rv != other, 'equal')
        h.check(rv._hash() == other._hash(), 'same hash')
        h.check(rv == rv, 'equal to itself')
    elif f == 'size':
        h.check(rv != rv[:1] and rv[:1] != rv and rv[:0] != rv[:1] and rv[:0] == other[:0], 'size matters')
    elif f == 'type':
        h.check(not (rv == 1) and rv != None and rv != rv.x and rv != 'x', 'never equal to something else')
    elif f == 'coordSys':
        o, r = [list(x) for x in (rv.coordSys.origin, [list(q) for q in rv.coordSys.rot])]
        if h.bool('shifted'):
            o[h.choice('axis', 3)] += h.real('d', -1, 1)
        else:
            r = tilted(h, b, 'e').rot
        other.coordSys = b.CoordSys(h.arr(o), h.arr(r))
        same = rv.coordSys == other.coordSys
        h.check((rv == other) == same and (rv != other) == (not same), 'frame matters')
    else:
        i = h.choice('i', n)
        a = getattr(other, f)
        if f in ('vignetted', 'failed'):
            a[i] = not bool(a[i])
        else:
            v = h.real('v', -8, 8)
            h.assume(v != getattr(rv, f)[i])
            a[i] = v
        h.check(rv != other and other != rv and not rv == other, 'differs')


@harness('C15', configs=[(1, 1), (2, 0, 1), (1, 3), (2,)], time=60)
def concatenate(h, b):
    """rays of the parts in order, all fields kept, nothing shared"""
    cs = tilted(h, b, 'c')
    parts = [flagged(h, b, 4, f'p{k}', coordSys=cs)[:m] for k, m in enumerate(h.cfg)]
    ds = [snap(p) for p in parts]
    d = {f: sum((e[f] for e in ds), []) for f in ALL}
    d['coordSys'] = cs
    for got, l in ((b.concatenateRayVectors(parts), 'list'), (b.concatenateRayVectors(tuple(parts)), 'tuple')):
        rows(h, got, d, range(sum(h.cfg)), 'joined ' + l)
    for p in parts:
        if len(p):
            apart(h, b, p, got, 'joined bundle after changing a part')
            break


@harness('C15', configs=['list', 'tuple', 'scalar', 'strided', 'reversed', 'int', 'fortran', 'float32'], time=60)
def constructor(h, b):
    """fields come out as given for any sequence, layout or broadcast scalar"""
    n = 2
    d = {f: h.vec(f, n, -4, 4) for f in FIELDS}
    kind = h.cfg
    arr = h.arr
    if kind == 'list':
        a = [d[f] for f in FIELDS]
    elif kind == 'tuple':
        a = [tuple(d[f]) for f in FIELDS]
    elif kind == 'scalar':
        for f in FIELDS[3:]:
            d[f][1] = d[f][0]
        a = [arr(d[f]) for f in FIELDS[:3]] + [d[f][0] for f in FIELDS[3:]]
    elif kind == 'strided':
        a = [arr([[x, 7.0] for x in d[f]])[:, 0] for f in FIELDS]
    elif kind == 'reversed':
        a = [arr(d[f][::-1])[::-1] for f in FIELDS]
    elif kind in ('int', 'float32'):
        for f in FIELDS:
            d[f] = [h.choice(f'{f}{i}', 2) if f == 'x' else 3*i + FIELDS.index(f) for i in range(n)]
        a = [h.np.array(d[f], dtype=int if kind == 'int' else h.np.float32) for f in FIELDS]
    else:
        m = h.np.asfortranarray(arr([[d[f][i] for f in FIELDS] for i in range(n)]))
        a = [m[:, k] for k in range(len(FIELDS))]
    rv = b.RayVector(*a)
    d['vignetted'] = d['failed'] = [False]*n
    d['coordSys'] = b.globalCoordSys
    rows(h, rv, d, range(n), 'as given')
    t = h.real('T', -2, 2)
    r = rv.positionAtTime(t)
    for i in range(n):
        h.eq(list(r[i]), [d[p][i] + d['v' + p][i]*(t - d['t'][i]) for p in 'xyz'], 'the native code sees the same values')


@harness('C15', configs=[None], time=60)
def defaults(h, b):
    """documented defaults; scalars make one ray"""
    v = h.vec('a', 6, -4, 4)
    rv = b.RayVector(*v)
    d = {f: [e] for f, e in zip(FIELDS, v + [0.0, 0.0, 1.0])}
    d['vignetted'] = d['failed'] = [False]
    d['coordSys'] = b.globalCoordSys
    rows(h, rv, d, [0], 'one ray')


@harness('C15', configs=['all'], time=60)
def mismatched(h, b):
    x = h.arr(h.vec('x', 2, -1, 1))
    y = h.arr(h.vec('y', 3, -1, 1))
    h.raises(lambda: b.RayVector(x, y, 0, 0, 0, 1), ValueError, 'sizes that do not broadcast')


@harness('C15', configs=['propagate', 'frame', 'trace', 'obscure'], time=60)
def copy_then_change(h, b):
    """native operations on a bundle reach neither its copies nor its sources"""
    rv = bundle(h, b, 2)
    for i in range(2):
        h.assume(rv.vz[i] >= 0.25)
    kids = [rv.copy(), rv[:1], rv[h.np.array([True, True])], b.concatenateRayVectors([rv])]
    ds = [snap(k) for k in kids]
    if h.cfg == 'propagate':
        rv.propagate(h.real('T', -2, 2))
    elif h.cfg == 'frame':
        rv.toCoordSys(tilted(h, b, 'c'))
    elif h.cfg == 'trace':
        b.intersect(b.Plane(), rv, coordSys=tilted(h, b, 'c'))
    else:
        b.obscure(b.ObscCircle(h.real('R', 0.5, 2)), rv)
    for k, d in zip(kids, ds):
        same_rays(h, k, d, 'copy untouched')
        h.check(k.coordSys == d['coordSys'], 'frame of the copy')
