"""C19: moving parts of an optic is exact, local and leaves the original alone."""
from vlib.harness import harness
from checks.rays import tilted

# a system whose names are prefixes of one another; (name, contents) is compound
SHAPE = ('S', ['L', ('L1', ['L1_a', 'L1_b']), 'L11', ('T', [('U', ['X', 'L']), 'L1_'])])
KINDS = ('RefractiveInterface', 'Mirror', 'Baffle', 'Detector', 'OPDScreen')


def element(h, b, kind, name, cs, **kw):
    if kind == 'OPDScreen':
        return b.optic.OPDScreen(b.Plane(), b.Plane(), name=name, coordSys=cs, obscuration=b.ObscCircle(0.5), **kw)
    med = {'RefractiveInterface': (b.ConstMedium(1.25), b.ConstMedium(1.5))}.get(kind, (b.ConstMedium(1.0),)*2)
    return getattr(b, kind)(b.Paraboloid(2.5), name=name, coordSys=cs, inMedium=med[0], outMedium=med[1],
                            obscuration=b.ObscAnnulus(0.25, 1.0), skip=(kind == 'Baffle'), extra=[kind],
                            forwardCoating=b.SimpleCoating(0.25, 0.5), **kw)


def place(h, b, i):
    """frame number i: somewhere, tilted about an axis"""
    return b.CoordSys(h.arr([h.real(f'o{i}.{k}', -3, 3) for k in 'xyz']), h.rot('r')) if i == 1 else \
        b.CoordSys(h.arr([h.real(f'o{i}.x', -3, 3), 1.0*i, -0.5*i]), h.np.array([[0.0, -1.0, 0.0], [1.0, 0.0, 0.0], [0.0, 0.0, 1.0]]) if i % 2 else h.np.eye(3))


def build(h, b, shape=SHAPE, count=None):
    count = count if count is not None else [0]
    i = count[0]
    count[0] += 1
    cs = place(h, b, i)
    if isinstance(shape, str):
        return element(h, b, KINDS[i % 5], shape, cs)
    items = [build(h, b, s, count) for s in shape[1]]
    kw = dict(skip=(shape[0] == 'U'), stopSurface=element(h, b, 'Baffle', 'stop' + shape[0], place(h, b, i + 20)), pupilSize=2.5, sphereRadius=3.0)
    cls = b.CompoundOptic
    return cls(items, name=shape[0], coordSys=cs, inMedium=b.ConstMedium(1.0), outMedium=b.ConstMedium(1.125), **kw)


def everything(o, path=()):
    """(path, optic) of every part, stop surfaces included"""
    yield path, o
    if 'stopSurface' in o.__dict__:
        yield from everything(o.stopSurface, path + ('stop',))
    for i, it in enumerate(o.__dict__.get('items', ())):
        yield from everything(it, path + (i,))


MOVING = {'coordSys', 'stopSurface', 'items', 'itemDict', '_names', 'R_inner', 'R_outer', 'path'}


def static(o):
    """everything but where it is"""
    return type(o), {k: v for k, v in o.__dict__.items() if k not in MOVING}


def frames(o):
    return {p: ([e for e in q.coordSys.origin], [e for e in q.coordSys.rot.ravel()], static(q), list(q.path)) for p, q in everything(o)}


def compare(h, new, old, moved, label):
    """new is old with moved[path] giving the frames that changed"""
    new = frames(new) if not isinstance(new, dict) else new
    h.check(list(new) == list(old), label + ': same parts in the same order')
    if list(new) != list(old):
        return
    for p in old:
        w = moved.get(p, old[p])
        for k in range(3):
            h.eq(new[p][0][k], w[0][k], f'{label}: origin of {p}')
        for k in range(9):
            h.eq(new[p][1][k], w[1][k], f'{label}: axes of {p}')
        a, c = new[p][2], old[p][2]
        h.check(a[0] is c[0] and a[1].keys() == c[1].keys(), f'{label}: kind and attributes of {p}')
        for key in c[1]:
            x, y = a[1].get(key), c[1][key]
            h.check(x is y or x == y, f'{label}: {key} of {p}')
        h.check(new[p][3] == old[p][3], f'{label}: default path of {p}')


def under(p, q):
    """q is p or inside it (its stop surface too)"""
    return q[:len(p)] == p


def shifted(h, fr, d):
    return ([x + y for x, y in zip(fr[0], d)], fr[1])


def mat(h, m, v):
    return [sum(m[3*i+k]*v[k] for k in range(3)) for i in range(3)]


def mm(h, a, c):
    return [sum(a[3*i+k]*c[3*k+j] for k in range(3)) for i in range(3) for j in range(3)]


def tr(a):
    return [a[3*j+i] for i in range(3) for j in range(3)]


def rotated(h, fr, R, g):
    d = mat(h, R, [x - y for x, y in zip(fr[0], g)])
    return ([x + y for x, y in zip(d, g)], mm(h, R, fr[1]))


def centre(h, b, own, how):
    """(arguments, global rotation centre) for a move of something in frame own;
    how: '' no centre, 'c' a centre in the default frame, 'cs' a centre in a given one"""
    if how == '':
        return {}, None
    c = h.arr(h.vec('c', 3, -2, 2))
    if how == 'c':
        return dict(rotCenter=c), ('default', c)
    cs = tilted(h, b, 'k')
    return (dict(rotCenter=c, coordSys=cs), ('given', [x + y for x, y in zip(mat(h, list(cs.rot.ravel()), list(c)), cs.origin)])) if how == 'cs' else \
        (dict(coordSys=cs), ('given', list(cs.origin)))


OBJ = ('leaf', 'tree')


def subject(h, b, what):
    if what == 'tree':
        return build(h, b, ('T', ['A', ('L', ['B', 'C'])]))
    i = KINDS.index(what)
    return element(h, b, what, 'A', place(h, b, 1), **({'stopSurface': element(h, b, 'Baffle', 'stopA', place(h, b, 20))} if i % 2 else {}))


@harness('C19', configs=[(w, o) for w in (*KINDS, 'tree') for o in ('global', 'local')], time=60, feas='cheap')
def shift_whole(h, b):
    w, how = h.cfg
    o = subject(h, b, w)
    old = frames(o)
    d = h.arr(h.vec('d', 3, -2, 2))
    d0 = list(d)
    new = o.withGlobalShift(d) if how == 'global' else o.withLocalShift(d)
    D = d0 if how == 'global' else mat(h, old[()][1], d0)
    moved = {p: shifted(h, old[p], D) for p in old}
    compare(h, new, old, moved, 'shifted')
    for k in range(3):
        h.eq(d[k], d0[k], 'the shift is only read')
    d[...] = 9.0
    new.coordSys.origin[...] = 7.0
    compare(h, o, old, {}, 'original')


@harness('C19', configs=[(w, o, c) for w in (*KINDS, 'tree') for o in ('global', 'local') for c in ('', 'c', 'cs', 's')], time=60, feas='cheap')
def rotate_whole(h, b):
    w, how, cen = h.cfg
    o = subject(h, b, w)
    old = frames(o)
    R = h.rot('R')
    R0 = [e for e in R.ravel()]
    kw, g = centre(h, b, old[()], cen)
    own = old[()]
    new = o.withGlobalRotation(R, **kw) if how == 'global' else o.withLocalRotation(R, **kw)
    if how == 'global':
        G = R0
        g = [0.0]*3 if g is None else g[1]
    else:
        G = mm(h, mm(h, own[1], R0), tr(own[1]))
        g = own[0] if g is None else (g[1] if g[0] == 'given' else [x + y for x, y in zip(mat(h, own[1], list(g[1])), own[0])])
    moved = {p: rotated(h, old[p], G, g) for p in old}
    compare(h, new, old, moved, 'rotated')
    for k in range(9):
        h.eq(R.ravel()[k], R0[k], 'the rotation is only read')
    new.coordSys.rot[...] = 7.0
    compare(h, o, old, {}, 'original')


def names(o):
    """(name, path of what it denotes) for every full and every unambiguous short name"""
    full = {}
    for p, q in everything(o):
        if 'stop' in p:
            continue
        n, x = [o.name], o
        for i in p:
            x = x.items[i]
            n.append(x.name)
        full[tuple(n)] = p
    short = {}
    for n, p in full.items():
        for k in range(len(n)):
            short.setdefault('.'.join(n[k:]), set()).add(p)
    out = {'.'.join(n): p for n, p in full.items()}
    for s, ps in short.items():
        if len(ps) == 1:
            out[s] = list(ps)[0]
    return out, [s for s, ps in short.items() if len(ps) > 1 and s not in out]


def paths(shape=SHAPE, p=()):
    yield p
    if not isinstance(shape, str):
        for i, s in enumerate(shape[1]):
            yield from paths(s, p + (i,))


WHERE = list(paths())


@harness('C19', configs=[(o, p) for o in ('globalShift', 'localShift', 'localRotation', 'localRotationC', 'localRotationCS') for p in range(len(WHERE))], time=90, feas='cheap')
def move_part(h, b):
    """moving a named part moves it and what it contains; every way of naming it"""
    op, i = h.cfg
    target = WHERE[i]
    o = build(h, b)
    old = frames(o)
    ns, _ = names(o)
    ns = sorted(n for n, p in ns.items() if p == target)
    n = ns[h.choice('name', len(ns))]
    own = old[target]
    if 'Shift' in op:
        d = h.arr(h.vec('d', 3, -2, 2))
        new = o.withGloballyShiftedOptic(n, d) if op[0] == 'g' else o.withLocallyShiftedOptic(n, d)
        D = list(d) if op[0] == 'g' else mat(h, own[1], list(d))
        moved = {p: shifted(h, old[p], D) for p in old if under(target, p)}
    else:
        R = h.rot('R')
        kw, g = centre(h, b, own, {'localRotation': '', 'localRotationC': 'c', 'localRotationCS': 'cs'}[op])
        new = o.withLocallyRotatedOptic(n, R, **kw)
        G = mm(h, mm(h, own[1], list(R.ravel())), tr(own[1]))
        g = own[0] if g is None else (g[1] if g[0] == 'given' else [x + y for x, y in zip(mat(h, own[1], list(g[1])), own[0])])
        moved = {p: rotated(h, old[p], G, g) for p in old if under(target, p)}
    compare(h, new, old, moved, 'moved')
    h.check(new is not o, 'a new system')
    compare(h, o, old, {}, 'original')
    # and the result is found under the same names
    h.check(new[n] is [q for p, q in everything(new) if p == target][0], 'lookup in the moved system')


@harness('C19', configs=['globalShift', 'localShift', 'localRotation'], time=60, feas='cheap')
def unknown_part(h, b):
    o = build(h, b)
    old = frames(o)
    _, amb = names(o)
    h.check(len(amb) > 0, 'some name is ambiguous')
    for n in amb + ['nothing', 'S.X', 'L1.', 'S.', '', 'L1.L1_', 'T.L1_.X', 'stopS']:
        if h.cfg == 'localRotation':
            h.raises(lambda: o.withLocallyRotatedOptic(n, h.np.eye(3)), ValueError, f'no {n}')
        else:
            f = o.withGloballyShiftedOptic if h.cfg[0] == 'g' else o.withLocallyShiftedOptic
            h.raises(lambda: f(n, h.arr([0.0, 0.0, 1.0])), ValueError, f'no {n}')
    compare(h, o, old, {}, 'original')


@harness('C19', configs=['shift', 'rotation'], time=60, feas='cheap')
def successive(h, b):
    """moves add up, and undoing one restores the frames"""
    o = build(h, b, ('T', ['A', ('L', ['B', 'C'])]))
    old = frames(o)
    if h.cfg == 'shift':
        d, e = h.arr(h.vec('d', 3, -2, 2)), h.arr(h.vec('e', 3, -2, 2))
        new = o.withGlobalShift(d).withGloballyShiftedOptic('L', e).withGlobalShift(-d).withGloballyShiftedOptic('T.L', -e)
    else:
        R, c = h.rot('R'), h.arr(h.vec('c', 3, -2, 2))
        new = o.withGlobalRotation(R, rotCenter=c).withGlobalRotation(R.T, rotCenter=c)
    compare(h, new, old, {}, 'restored')
