"""C20: component lookup, insertion and removal address exactly the named component."""
from vlib.harness import harness
from checks.c19 import build, names, everything, frames, compare, under, static, SHAPE, WHERE

POOL = ('A', 'AB', 'B')
SHAPES = {'wide': (0, [1, (2, [3, 4]), 5]), 'deep': (0, [1, (2, [(3, [4]), 5])]), 'twins': (0, [(1, [2, 3]), (4, [5])])}


def named(h, shape, sibs=(), pool=POOL):
    """the shape with freely chosen names, siblings distinct"""
    k = shape if isinstance(shape, int) else shape[0]
    left = [p for p in pool if p not in sibs]
    n = left[h.choice(f'name{k}', len(left))]
    if isinstance(shape, int):
        return n
    out = []
    for s in shape[1]:
        out.append(named(h, s, [x if isinstance(x, str) else x[0] for x in out], pool))
    return n, out


def simple(b, shape, i=0):
    cs = b.CoordSys([0.0, 0.0, 1.0*i])
    if isinstance(shape, str):
        return b.Baffle(b.Plane(), name=shape, coordSys=cs)
    return b.CompoundOptic([simple(b, s, 10*i + j + 1) for j, s in enumerate(shape[1])], name=shape[0], coordSys=cs)


def lookups(h, o, label):
    """every full or unambiguous name finds its part, every other name is refused"""
    ns, amb = names(o)
    at = dict(everything(o))
    for n, p in ns.items():
        h.check(o[n] is at[p], f'{label}: lookup')
    for n in amb:
        h.raises(lambda: o[n], ValueError, f'{label}: ambiguous name')
    toks = list(POOL) + ['C', '']
    for n in toks + [f'{x}.{y}' for x in toks for y in toks]:
        if n not in ns:
            h.raises(lambda: o[n], ValueError, f'{label}: unknown name')
    full = {}
    for p, q in at.items():
        x, n = o, [o.name]
        for i in p:
            x = x.items[i]
            n.append(x.name)
        full['.'.join(n)] = q
    h.check(o.itemDict.keys() == full.keys() and all(o.itemDict[k] is v for k, v in full.items()), f'{label}: every part listed once')


@harness('C20', configs=list(SHAPES), time=120, paths=1000, feas='cheap')
def lookup(h, b):
    lookups(h, simple(b, named(h, SHAPES[h.cfg])), 'system')


@harness('C20', configs=['deep', 'twins'], time=120, paths=1000, feas='cheap')
def lookup_nameless(h, b):
    """parts with an empty name (what parsing gives a part without one) hide nothing"""
    lookups(h, simple(b, named(h, SHAPES[h.cfg], pool=('A', '', 'B'))), 'system')


@harness('C20', configs=list(SHAPES), time=200, paths=4000, feas='cheap')
def free_names(h, b):
    """insertion and removal by any name in a system with any names"""
    o = simple(b, named(h, SHAPES[h.cfg]))
    if h.bool('looked up before'):
        lookups(h, o, 'before')
    at = dict(everything(o))
    before = dict(at)
    new_item = b.Mirror(b.Plane(), name='C')
    ns, amb = names(o)
    for n, p in ns.items():
        if p == ():
            h.raises(lambda: o.withInsertedOptic(n, new_item), ValueError, 'nothing before the whole')
            h.raises(lambda: o.withRemovedOptic(n), ValueError, 'the whole stays')
            continue
        add, cut = o.withInsertedOptic(n, new_item), o.withRemovedOptic(n)
        for new, d in ((add, 1), (cut, -1)):
            par, k = p[:-1], p[-1]
            got = dict(everything(new))
            want = {}
            for q, e in at.items():
                if q[:len(par)] == par and len(q) > len(par):
                    j = q[len(par)]
                    if d < 0 and j == k:
                        continue
                    if j >= k:
                        q = par + (j + d,) + q[len(par)+1:]
                want[q] = e
            if d > 0:
                want[p] = new_item
            h.check(set(got) == set(want), 'exactly that position')
            for q in want:
                if q in got:
                    x, y = got[q], want[q]
                    if hasattr(y, 'items') and under(q, par):   # holds the change
                        h.check(x is not y and x.name == y.name and x.coordSys is y.coordSys and type(x) is type(y), 'what holds it')
                    else:
                        h.check(x is y, 'everything else')
            lookups(h, new, 'after')
    for n in amb + ['nothing', 'C', '']:
        h.raises(lambda: o.withInsertedOptic(n, new_item), ValueError, 'ambiguous or unknown')
        h.raises(lambda: o.withRemovedOptic(n), ValueError, 'ambiguous or unknown')
    h.check(dict(everything(o)) == before and list(everything(o)) == list(before.items()), 'original')


@harness('C20', configs=[(w, p) for w in ('insert', 'remove') for p in range(1, len(WHERE))], time=60, feas='cheap')
def full_system(h, b):
    """frames, media, coatings and other attributes of everything else are carried over"""
    op, i = h.cfg
    target = WHERE[i]
    o = build(h, b)
    old = frames(o)
    ns = sorted(n for n, p in names(o)[0].items() if p == target)
    n = ns[h.choice('name', len(ns))]
    item = b.Mirror(b.Sphere(h.real('R', 1, 3)), name='new', coordSys=b.CoordSys(h.arr(h.vec('n', 3, -1, 1))))
    new = o.withInsertedOptic(n, item) if op == 'insert' else o.withRemovedOptic(n)
    par, k, d = target[:-1], target[-1], 1 if op == 'insert' else -1
    want = {}
    for p in old:
        q = p
        if under(par, p) and len(p) > len(par) and p[len(par)] != 'stop':
            j = p[len(par)]
            if d < 0 and j == k:
                continue
            if j >= k:
                q = par + (j + d,) + p[len(par)+1:]
        want[q] = old[p]
    nf = frames(new)
    if d > 0:
        h.check(target in nf and dict(everything(new))[target] is item, 'the new part')
        nf.pop(target, None)
    h.check(set(nf) == set(want), 'exactly that position')
    for p, q in everything(new):            # default paths name what is now there
        leaves = [x.name for r, x in everything(q) if not hasattr(x, 'items') and 'stop' not in r]
        h.check(list(q.path) == leaves, 'default path')
    strip = lambda f: {p: (*v[:3], []) for p, v in f.items()}
    if set(nf) == set(want):
        compare(h, {p: strip(nf)[p] for p in want}, strip(want), {}, 'the rest')
    compare(h, o, old, {}, 'original')


@harness('C20', configs=[(w, p) for w in ('replace', 'perturb') for p in range(len(WHERE))], time=60, feas='cheap')
def surface(h, b):
    """a new surface for the named element only"""
    op, i = h.cfg
    target = WHERE[i]
    o = build(h, b)
    old = frames(o)
    ns = sorted(n for n, p in names(o)[0].items() if p == target)
    n = ns[h.choice('name', len(ns))]
    s = b.Zernike([0, h.real('z1', -1, 1), h.real('z2', -1, 1)])
    at = dict(everything(o))
    f = o.withSurface if op == 'replace' else o.withPerturbedSurface
    if hasattr(at[target], 'items'):
        try:
            f(n, s)
        except Exception:
            return
        h.check(False, 'a compound has no surface')
        return
    new = f(n, s)
    got = dict(everything(new))
    h.check(list(got) == list(at), 'same parts')
    e, e0 = got[target], at[target]
    if op == 'replace':
        h.check(e.surface is s, 'the new surface')
    else:
        x, y = h.real('x', -1, 1), h.real('y', -1, 1)
        h.eq(e.surface.sag(x, y), e0.surface.sag(x, y) + s.sag(x, y), 'sum of surfaces')
        h.check(e.surface == b.Sum([e0.surface, s]), 'sum of surfaces')
    a, c = static(e), static(e0)
    h.check(a[0] is c[0] and a[1].keys() == c[1].keys(), 'kind and attributes')
    h.check(all(a[1][k] is v or a[1][k] == v for k, v in c[1].items() if k != 'surface'), 'other attributes')
    h.check(e.coordSys is e0.coordSys or e.coordSys == e0.coordSys, 'frame')
    for p in at:
        if not under(p, target):
            h.check(got[p] is at[p], 'everything else')
    h.check(new[n] is e, 'lookup afterwards')
    compare(h, o, old, {}, 'original')
    for bad in ('L1_b.', 'nothing', 'L1_b.L1_a', 'T.X'):
        try:
            f(bad, s)
        except Exception:
            continue
        h.check(False, 'unknown name')


@harness('C20', time=60, feas='cheap')
def direct(h, b):
    """the same on a bare element"""
    o = build(h, b, 'A')
    old = frames(o)
    s = b.Zernike([0, h.real('z1', -1, 1), h.real('z2', -1, 1)])
    x, y = h.real('x', -1, 1), h.real('y', -1, 1)
    h.check(o.withSurface(s).surface is s, 'the new surface')
    p = o.withPerturbedSurface(s)
    h.eq(p.surface.sag(x, y), o.surface.sag(x, y) + s.sag(x, y), 'sum of surfaces')
    compare(h, o, old, {}, 'original')
    compare(h, o.withSurface(s).withSurface(o.surface), old, {}, 'back again')


@harness('C20', configs=range(len(WHERE)), time=60, feas='cheap')
def clear(h, b):
    """clearing obscurations spares exactly the named elements"""
    o = build(h, b)
    at = list(everything(o))
    keep = [h.bool(f'keep{j}') for j in range(2)]
    nm = [x for x, k in zip(('X', 'L1_b'), keep) if k]
    q = dict(at)[WHERE[h.cfg]]
    had = {p: e.obscuration for p, e in at if hasattr(e, 'surface')}
    q.clearObscuration(unless=nm)
    for p, e in at:
        if not hasattr(e, 'surface'):
            continue
        gone = under(WHERE[h.cfg], p) and e.name not in nm and 'stop' not in p
        h.check((e.obscuration is None) if gone else (e.obscuration is had[p]), 'obscurations')
