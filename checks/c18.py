"""C18: tracing an optical system is the in-order composition of its elements."""
from vlib.harness import harness
from checks.rays import bundle, snap, same_rays, tilted, FIELDS


def agree(h, got, want, label, flux=True):
    got = got if isinstance(got, dict) else snap(got)
    want = want if isinstance(want, dict) else snap(want)
    h.check(len(got['x']) == len(want['x']), label + ': number of rays')
    if len(got['x']) != len(want['x']):
        return
    h.check(got['coordSys'] == want['coordSys'], label + ': frame')
    h.check(got['failed'] == want['failed'], label + ': failed')
    h.check(got['vignetted'] == want['vignetted'], label + ': vignetted')
    for i in range(len(want['x'])):
        for f in FIELDS:
            if not want['failed'][i]:
                h.eq(got[f][i], want[f][i], f'{label}: {f}[{i}]')


def leaf(h, b, kind, name, k, obsc=False, skip=False, **kw):
    """one element at depth k: its own frame, media and obscuration"""
    cs = b.CoordSys(h.arr([h.real(f'{name}.x', -1, 1), 0.0, -1.0*k]))
    m = {'RefractiveInterface': (1.0, 1.5), 'Exit': (1.5, 1.0)}.get(kind, (1.0, 1.0))
    ob = b.ObscCircle(h.real(f'{name}.rad', 0, 1)) if obsc else None
    cls = getattr(b, {'Exit': 'RefractiveInterface'}.get(kind, kind))
    return cls(b.Plane(), name=name, coordSys=cs, inMedium=b.ConstMedium(m[0]), outMedium=b.ConstMedium(m[1]), obscuration=ob, skip=skip, **kw)


# name, kind, [children]; '*' marks elements with an obscuration, '?' free skip flags
TREES = {
    'flat': ['A RefractiveInterface*', 'B Exit?', 'C Detector?'],
    'mirrors': ['A Mirror*', 'B Mirror?', 'C Detector'],
    'nested': ['A Baffle*', ('L', ['B RefractiveInterface', 'C Exit?'], '?'), 'D Detector'],
    'deep': [('T', [('L', ['A RefractiveInterface', 'B Exit'], '?'), 'C Mirror?'], '?'), 'D Detector'],
    'repeat': ['A RefractiveInterface', 'A Exit', 'A Baffle?'],
}


def tree(h, b, spec, name='S', top=True, skip=False, count=None):
    count = count if count is not None else [0]
    items = []
    for s in spec:
        if isinstance(s, tuple):
            sk = h.bool(s[0] + '.skip') if s[2] else False
            items.append(tree(h, b, s[1], s[0], False, sk, count))
        else:
            count[0] += 1
            nm, kind = s.split()
            obsc, sk = '*' in kind, (h.bool(f'{nm}{count[0]}.skip') if '?' in kind else False)
            items.append(leaf(h, b, kind.strip('*?'), nm, count[0], obsc, sk))
    cls = b.Lens if name == 'L' else b.CompoundOptic
    return cls(items, name=name, skip=skip)


def visited(o, reverse):
    """elements met, in order, skipped ones and their contents left out"""
    for it in (reversed(o.items) if reverse else o.items):
        if it.skip:
            continue
        if hasattr(it, 'items'):
            yield from visited(it, reverse)
        else:
            yield it


def step(b, e, rv, reverse):
    """one element: what its surface does between its media, then its obscuration"""
    if isinstance(e, b.RefractiveInterface):
        m = (e.outMedium, e.inMedium) if reverse else (e.inMedium, e.outMedium)
        b.refract(e.surface, rv, *m, e.coordSys)
    elif isinstance(e, b.Mirror):
        b.reflect(e.surface, rv, e.coordSys)
    else:
        b.intersect(e.surface, rv, e.coordSys)
    if e.obscuration is not None:
        b.obscure(e.obscuration, rv)


def light(h, b, n=1, reverse=False, cs=None):
    """n gently inclined rays"""
    rv = bundle(h, b, n, coordSys=cs)
    for i in range(n):
        vx = h.real(f'v{i}', -0.25, 0.25)
        rv.vx[i], rv.vy[i], rv.vz[i] = vx, 0.0, (1.0 if reverse else -1.0)
    return rv


@harness('C18', configs=[(t, r) for t in TREES for r in (False, True)], time=90, feas='cheap')
def composition(h, b):
    t, reverse = h.cfg
    sys_ = tree(h, b, TREES[t])
    rv = light(h, b, 1, reverse, tilted(h, b, 'c') if t == 'mirrors' and not reverse else None)
    want = rv.copy()
    for e in visited(sys_, reverse):
        step(b, e, want, reverse)
    out = sys_.trace(rv, reverse=reverse)
    h.check(out is rv, 'in place')
    agree(h, out, want, 'elements in order')


@harness('C18', configs=[(t, r) for t in TREES for r in (False, True)], time=90, feas='cheap')
def history(h, b):
    """the full trace records every visit"""
    t, reverse = h.cfg
    sys_ = tree(h, b, TREES[t])
    rv = light(h, b, 1, reverse)
    before = snap(rv)
    tf = sys_.traceFull(rv, reverse=reverse)
    same_rays(h, rv, before, 'input left alone')
    want = rv.copy()
    seen = list(tf.values())
    elems = list(visited(sys_, reverse))
    h.check([v['name'] for v in seen] == [e.name for e in elems], 'one entry per visit, in order')
    if len(seen) != len(elems):
        return
    for k, (key, e, v) in enumerate(zip(tf, elems, seen)):
        first = e.name not in [x.name for x in elems[:k]]
        h.check(key == e.name if first else key.startswith(e.name), 'named after the element')
        agree(h, v['in'], want, f'enters element {k}')
        step(b, e, want, reverse)
        agree(h, v['out'], want, f'leaves element {k}')
    # later changes of what was returned do not reach the next entry's record
    if len(seen) > 1 and seen[0]['in'] is not rv:
        seen[0]['in'].flux[...] = 55.0


def ghost(sys_, names):
    """(element, 'through' or 'back' or 'reverse') for each name: the light turns where the
    path turns round"""
    order = list(dict.fromkeys(names))
    pos = [order.index(n) for n in names]
    d = 1
    for k, n in enumerate(names):
        last = k == len(names) - 1
        nd = d if last else (1 if pos[k+1] > pos[k] else -1)
        yield sys_[n], ('turn' if nd != d else 'on'), d
        d = nd


PATHS = [('A', 'B', 'C'), ('A', 'B', 'A', 'B', 'C'), ('A', 'B', 'C', 'B', 'C'), ('A', 'B', 'A'), ('A', 'B', 'C', 'B', 'A', 'B', 'C'), ('A', 'C'), ('A', 'B', 'C', 'B', 'A')]


@harness('C18', configs=[(t, i) for t in ('flat', 'nested') for i in range(len(PATHS))], time=60, feas='cheap')
def explicit_path(h, b):
    t, i = h.cfg
    free = [[e.replace('?', '') if isinstance(e, str) else (e[0], [x.replace('?', '') for x in e[1]], '') for e in TREES[t]], TREES[t]][i not in (1, 4, 6)]
    sys_ = tree(h, b, free)
    names = list(PATHS[i])
    rv = light(h, b, 1)
    before = snap(rv)
    tf = sys_.traceFull(rv, path=names)
    same_rays(h, rv, before, 'input left alone')
    want = rv.copy()
    seen = list(tf.values())
    h.check([v['name'] for v in seen] == names, 'one entry per name, in order')
    h.check(len(set(tf)) == len(names), 'no visit lost')
    for k, (e, how, d) in enumerate(ghost(sys_, names)):
        agree(h, seen[k]['in'], want, f'enters step {k}')
        if how == 'turn':
            b.reflect(e.surface, want, e.coordSys)
            if e.obscuration is not None:
                b.obscure(e.obscuration, want)
        else:
            step(b, e, want, d < 0)
        agree(h, seen[k]['out'], want, f'leaves step {k}')
    h.check(list(names) == list(PATHS[i]), 'path left alone')
    out = sys_.trace(rv, path=names)
    h.check(out is rv, 'in place')
    agree(h, out, want, 'path in order')


def split(b, o, rv, reverse, minf, path):
    """oracle: every way through o, as (path, towards, rays); towards +1 on, -1 back"""
    if o.skip:
        yield path, (-1 if reverse else 1), rv
        return
    if hasattr(o, 'items'):
        todo = [(path, rv, -1 if reverse else 1, len(o.items) - 1 if reverse else 0)]
        while todo:
            p, r, d, k = todo.pop()
            for q, e, out in split(b, o.items[k], r, d < 0, minf, p):
                keep = [i for i in range(len(out)) if not bool(out.vignetted[i]) and bool(out.flux[i] >= minf)]
                if not keep:
                    continue
                out = out[keep]
                j = k + e
                if 0 <= j < len(o.items):
                    todo.append((q, out, e, j))
                else:
                    yield q, e, out
        return
    d = -1 if reverse else 1
    p = path + [o.name]
    refl, refr = None, None
    if isinstance(o, b.RefractiveInterface) or isinstance(o, b.Detector):
        m = (o.outMedium, o.inMedium) if reverse else (o.inMedium, o.outMedium)
        on, back = b.rSplit(o.surface, rv, *m, o.reverseCoating if reverse else o.forwardCoating, o.coordSys)
    elif isinstance(o, b.Mirror):
        on, back = b.reflect(o.surface, rv, o.coordSys), None
    else:
        on, back = b.intersect(o.surface, rv, o.coordSys), None
    for r, e in ((on, d), (back, -d)):
        if r is None:
            continue
        if o.obscuration is not None:
            b.obscure(o.obscuration, r)
        yield p, e, r


SPLITS = {'lens': ['A RefractiveInterface*', 'B Exit'], 'sky': ['A RefractiveInterface?', 'B Exit', 'C Baffle?'],
          'nested': ['A Baffle', ('L', ['B RefractiveInterface', 'C Exit'], '?'), 'D Detector'], 'mirror': ['A Mirror*', 'B Baffle']}


@harness('C18', configs=[(t, r) for t in SPLITS for r in (False, True) if not (t == 'nested' and r)] + [('lens', False, 2**-k) for k in (3, 5)] + [('mirror', True, 0.25), ('lens', False, None)],
         time=90, feas='cheap')
def splitting(h, b):
    """every path not under the flux limit, each once, with its own rays"""
    t, reverse = h.cfg[:2]
    minf = h.cfg[2] if len(h.cfg) == 3 else 0.01
    sys_ = tree(h, b, SPLITS[t])
    for o in visited(sys_, False):
        o.forwardCoating = b.SimpleCoating(0.25, 0.75) if not isinstance(o, b.Detector) else b.SimpleCoating(0.0, 1.0)
        o.reverseCoating = b.SimpleCoating(0.125, 0.5)
    rv = light(h, b, 2, reverse)
    rv.flux[0], rv.flux[1] = 1.0, 0.5
    rv.vignetted[...] = False
    want = list(split(b, sys_, rv.copy(), reverse, 0.001 if minf is None else minf, []))
    fw, bw = sys_.traceSplit(rv, reverse=reverse, **({} if minf is None else {'minFlux': minf}))
    for got, d, label in ((fw, 1, 'onwards'), (bw, -1, 'back')):
        w = {tuple(p): r for p, e, r in want if e == d}
        h.check(sorted(tuple(r.path) for r in got) == sorted(w), label + ': the paths')
        for r in got:
            if tuple(r.path) in w:
                agree(h, r, w[tuple(r.path)], f'{label} along {"-".join(r.path)}')


@harness('C18', configs=['RefractiveInterface', 'Mirror', 'Baffle'], time=120, quick_timeout=3, timeout=20, feas='cheap')
def there_and_back(h, b):
    """forward, turned round, reverse: every surviving ray is on its old line"""
    a, bx = h.real('s.a', -1, 1), h.real('s.b', -0.5, 0.5)
    s = b.Zernike([0, a, bx/2, 0.0])
    o = getattr(b, h.cfg)(s, name='e', coordSys=b.CoordSys(h.arr([h.real('e.x', -1, 1), 0.0, -1.0])),
                          inMedium=b.ConstMedium(h.real('n1', 1, 3)), outMedium=b.ConstMedium(h.real('n2', 1, 3)))
    rv = bundle(h, b, 1)
    u = h.unit('d')
    sp = 1/o.inMedium.n
    for f, e in zip(('vx', 'vy', 'vz'), u):
        getattr(rv, f)[0] = e*sp
    old = snap(rv)
    o.trace(rv)
    if bool(rv.failed[0]):
        return
    # away from grazing incidence, on both sides
    for r in (u, [rv.vx[0], rv.vy[0], rv.vz[0]]):
        h.assume(abs(r[2] - bx*r[0]) > 1e-3)
    for f in ('vx', 'vy', 'vz'):
        getattr(rv, f)[...] = -getattr(rv, f)
    o.trace(rv, reverse=True)
    rv.toCoordSys(old['coordSys'])
    new = snap(rv)
    h.check(not new['failed'][0], 'comes back')
    if new['failed'][0]:
        return
    v = [old[f][0] for f in ('vx', 'vy', 'vz')]
    w = [new[f][0] for f in ('vx', 'vy', 'vz')]
    d = [new[f][0] - old[f][0] for f in 'xyz']
    for x, y in zip(v, w):
        h.eq(x, -y, 'velocity reversed')
    for e in ([v[1]*d[2] - v[2]*d[1], v[2]*d[0] - v[0]*d[2], v[0]*d[1] - v[1]*d[0]]):
        h.eq(e, 0, 'back on the line')


@harness('C18', configs=[(t, s) for t in ('flat', 'mirrors', 'nested') for s in ('all', 'part')], time=60, feas='cheap')
def vertices(h, b):
    """where rays enter and leave the visited elements, in global coordinates, and how many of the places they are seen at"""
    t, span = h.cfg
    sys_ = tree(h, b, TREES[t])
    rv = light(h, b, 2, False, tilted(h, b, 'c') if t == 'mirrors' else None)
    tf = sys_.traceFull(rv)
    names = list(tf)
    if len(names) < 2:
        return
    part = {'start': names[1], 'end': names[-1]} if span == 'part' else {}
    use = names[1:] if part else names
    xyz, seen = b.optic.getGlobalRays(tf, **part)
    h.check(xyz.shape == (2, 3, len(use) + 1), 'shape')
    for k, r in enumerate([tf[use[0]]['in']] + [tf[n]['out'] for n in use]):
        for i in range(2):
            want = r.coordSys.toGlobal([r.x[i], r.y[i], r.z[i]])
            for c in range(3):
                h.eq(xyz[i][c][k], want[c], f'vertex {k}')
    for i in range(2):
        h.check(int(seen[i]) == 1 + sum(1 for n in use if not bool(tf[n]['out'].vignetted[i])), 'visible places')
    h.raises(lambda: b.optic.getGlobalRays(tf, start='nobody'), ValueError, 'unknown start')
    h.raises(lambda: b.optic.getGlobalRays(tf, end='nobody'), ValueError, 'unknown end')
    h.raises(lambda: b.optic.getGlobalRays(tf, start=names[-1], end=names[0]), ValueError, 'wrong order')
