"""C22: parsed descriptions build the optic they describe."""
import copy
from vlib.harness import harness


def num(h, n):
    return h.real(n, 1, 3)


SURFACES = {
    'Plane': (), 'Tilted': ('tanx', 'tany'), 'Paraboloid': ('R',), 'Sphere': ('R',), 'Quadric': ('R', 'conic'),
    'Asphere': ('R', 'conic', ('coefs', 2)), 'Zernike': (('coef', 4),), 'Bicubic': (),
}
OBSC = {
    'ObscCircle': ('radius', 'x', 'y'), 'ObscAnnulus': ('inner', 'outer', 'x', 'y'), 'ObscRectangle': ('width', 'height', 'x', 'y', 'theta'),
    'ObscRay': ('width', 'theta', 'x', 'y'), 'ObscPolygon': (('xs', 3), ('ys', 3)),
}
REQUIRED = {'ObscCircle': 1, 'ObscAnnulus': 2, 'ObscRectangle': 2, 'ObscRay': 2, 'ObscPolygon': 2}
MEDIA = {
    'ConstMedium': ('n',), 'TableMedium': (), 'Air': ('pressure', 'temperature', 'h2o_pressure'),
    'SellmeierMedium': ('B1', 'B2', 'B3', 'C1', 'C2', 'C3'), 'SumitaMedium': ('A0', 'A1', 'A2', 'A3', 'A4', 'A5'),
}


def entries(h, keys, tag):
    """a value for each key"""
    d = {}
    for k in keys:
        if isinstance(k, tuple):
            d[k[0]] = [num(h, f'{tag}.{k[0]}{i}') for i in range(k[1])]
        else:
            d[k] = num(h, f'{tag}.{k}')
    return d


def surface(h, b, typ, tag='s', drop=0):
    """(description, what it describes)"""
    d = entries(h, SURFACES[typ], tag)
    if typ == 'Bicubic':
        d = dict(xs=[0.0, 1.0], ys=[0.0, 2.0], zs=[[num(h, tag + '.z0'), 0.5], [1.0, num(h, tag + '.z1')]])
        if h.bool(tag + '.policy'):
            d['nanpolicy'] = 'zero'
    if typ == 'Asphere' and h.bool(tag + '.imin'):
        d['imin'] = 3
    if typ == 'Zernike' and h.bool(tag + '.more'):
        d.update(R_outer=2.0, R_inner=0.5, x_origin=num(h, tag + '.x0'), y_origin=num(h, tag + '.y0'))
    return dict(type=typ, **d), getattr(b, typ)(**copy.copy(d))


def obsc(h, b, typ, tag='o', opt=True):
    keys = OBSC[typ]
    if opt and len(keys) > REQUIRED[typ]:
        keys = keys[:REQUIRED[typ]] + tuple(k for k in keys[REQUIRED[typ]:] if h.bool(f'{tag}.has.{k}'))
    d = entries(h, keys, tag)
    o = getattr(b, typ)(**copy.copy(d))
    return dict(type=typ, **d), o


def medium(h, b, typ, tag='m'):
    if typ == 'number':
        n = num(h, tag)
        return n, b.ConstMedium(n)
    if typ == 'object':
        m = b.ConstMedium(num(h, tag))
        return m, m
    d = entries(h, MEDIA[typ], tag)
    if typ == 'TableMedium':
        d = dict(wavelengths=[3.0, 5.0], ns=[num(h, tag + '0'), num(h, tag + '1')])
    return dict(type=typ, **d), getattr(b, typ)(**copy.copy(d))


def alone(h, d, old):
    h.check(d == old, 'description left alone')


@harness('C22', configs=[*SURFACES, 'Sum', 'nested'], time=30, feas='cheap')
def surfaces(h, b):
    k = h.cfg
    if k in SURFACES:
        d, s = surface(h, b, k)
    else:
        parts = [surface(h, b, t, t) for t in ('Paraboloid', 'Tilted', 'Quadric')]
        d, s = dict(type='Sum', items=[p[0] for p in parts]), b.Sum([p[1] for p in parts])
        if k == 'nested':
            d, s = dict(type='Sum', items=[d, parts[0][0]]), b.Sum([s, parts[0][1]])
    old = copy.deepcopy(d)
    got = b.parse.parse_surface(d)
    h.check(type(got) is type(s) and got == s, 'the surface written')
    alone(h, d, old)
    h.check(b.parse.parse_surface(d) == s, 'again')


@harness('C22', configs=[*OBSC, *['Clear' + k[4:] for k in OBSC], 'ObscNegation', 'ObscUnion', 'ObscIntersection', 'nested', 'ClearNegation', 'ClearUnion'], time=30, feas='cheap')
def obscurations(h, b):
    k = h.cfg
    if k in OBSC:
        d, o = obsc(h, b, k)
    elif 'Obsc' + k[5:] in OBSC:
        d, o = obsc(h, b, 'Obsc' + k[5:])
        d, o = dict(d, type=k), b.ObscNegation(o)
    else:
        p, q = obsc(h, b, 'ObscCircle', 'p', False), obsc(h, b, 'ObscRectangle', 'q', False)
        neg = dict(type='ObscNegation', original=p[0]), b.ObscNegation(p[1])
        uni = dict(type='ObscUnion', items=[p[0], q[0]]), b.ObscUnion([p[1], q[1]])
        d, o = {'ObscNegation': lambda: neg, 'ObscUnion': lambda: uni,
                'ObscIntersection': lambda: (dict(type='ObscIntersection', items=[q[0], p[0]]), b.ObscIntersection([q[1], p[1]])),
                'nested': lambda: (dict(type='ObscIntersection', items=[neg[0], uni[0]]), b.ObscIntersection([neg[1], uni[1]])),
                'ClearNegation': lambda: (dict(type='ClearNegation', original=p[0]), b.ObscNegation(neg[1])),
                'ClearUnion': lambda: (dict(uni[0], type='ClearUnion'), b.ObscNegation(uni[1]))}[k]()
    old = copy.deepcopy(d)
    got = b.parse.parse_obscuration(d)
    h.check(type(got) is type(o) and got == o, 'the obscuration written')
    alone(h, d, old)
    h.check(b.parse.parse_obscuration(d) == o, 'again')
    if k != 'ObscPolygon' and not k.endswith('Polygon'):
        x, y = 1.25, num(h, 'y')
        h.check(bool(got.contains(x, y)) is bool(o.contains(x, y)), 'the region written')


@harness('C22', configs=[*MEDIA, 'number', 'integer', 'object', 'none'], time=30, feas='cheap')
def media(h, b):
    k = h.cfg
    if k == 'none':
        h.check(b.parse.parse_medium(None) is None, 'none')
        return
    d, m = (2, b.ConstMedium(2.0)) if k == 'integer' else medium(h, b, k)
    old = copy.deepcopy(d) if isinstance(d, dict) else d
    got = b.parse.parse_medium(d)
    h.check(type(got) is type(m) and got == m, 'the medium written')
    if isinstance(d, dict):
        alone(h, d, old)
    w = 4.0 if k == 'TableMedium' else 500e-9
    h.eq(got.getN(w), m.getN(w), 'its index')


# the frame operations in the order written
FRAMES = ['', 'x', 'y', 'z', 'shift', 'rotX', 'rotY', 'rotZ', 'x y z', 'z rotX', 'rotX z', 'shift rotZ x', 'rotY shift', 'rotX rotY', 'rotY rotX', 'z rotZ y rotX']


def vecmat(h, m, v):
    return [sum(m[i][k]*v[k] for k in range(3)) for i in range(3)]


def framed(h, b, ops, parent):
    """(description, frame): each step is along, or about, the axes so far"""
    o, R = [e for e in parent.origin], [[e for e in r] for r in parent.rot]
    d = {}
    for op in ops.split():
        if op in 'xyz':
            v = [0.0]*3
            v['xyz'.index(op)] = d[op] = h.real('f.' + op, -2, 2)
            o = [a + c for a, c in zip(o, vecmat(h, R, v))]
        elif op == 'shift':
            d[op] = h.vec('f.shift', 3, -2, 2)
            o = [a + c for a, c in zip(o, vecmat(h, R, d[op]))]
        else:
            d[op] = t = h.real('f.' + op, -3, 3)
            s, c = h.np.sin(t), h.np.cos(t)
            m = {'rotX': [[1, 0, 0], [0, c, -s], [0, s, c]], 'rotY': [[c, 0, s], [0, 1, 0], [-s, 0, c]], 'rotZ': [[c, -s, 0], [s, c, 0], [0, 0, 1]]}[op]
            R = [[sum(R[i][k]*m[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
    return d, (o, R)


def same_frame(h, cs, want, label):
    o, R = want
    for i in range(3):
        h.eq(cs.origin[i], o[i], label + ': origin')
        for j in range(3):
            h.eq(cs.rot[i][j], R[i][j], label + ': axes')


@harness('C22', configs=[(f, p) for f in FRAMES for p in ('default', 'parent')], time=30, feas='cheap')
def frames(h, b):
    ops, p = h.cfg
    parent = b.CoordSys(h.arr(h.vec('po', 3, -2, 2)), h.rot('pr')) if p == 'parent' else b.CoordSys()
    d, want = framed(h, b, ops, parent)
    old, pold = copy.deepcopy(d), copy.deepcopy(parent)
    cs = b.parse.parse_coordSys(d, parent) if p == 'parent' else b.parse.parse_coordSys(d)
    same_frame(h, cs, want, 'frame')
    alone(h, d, old)
    h.check(parent == pold, 'parent frame left alone')
    h.check(b.parse.parse_coordSys({}) == b.CoordSys(), 'default frame')


ELEMENTS = ('Mirror', 'RefractiveInterface', 'Baffle', 'Detector', 'Interface', 'OPDScreen')
EXTRA = ('backDist', 'sphereRadius', 'pupilSize', 'pupilObscuration', 'R_outer', 'R_inner')


def element(h, b, typ, tag, has, cs, m):
    """(description, check function) of one element; has(entry) tells what is present,
    cs and m are what surrounds it: frame, (medium before, medium after or None)"""
    sd, s = surface(h, b, 'Paraboloid', tag + '.s')
    d = dict(type=typ, surface=sd)
    if typ == 'OPDScreen':
        d['screen'], screen = surface(h, b, 'Tilted', tag + '.scr')
    if has('name'):
        d['name'] = tag
    ob = None
    if has('obscuration'):
        d['obscuration'], ob = obsc(h, b, 'ObscAnnulus', tag + '.o', False)
    frame = ([e for e in cs.origin], [[e for e in r] for r in cs.rot])
    if has('coordSys'):
        dz = h.real(tag + '.z', -2, 2)
        d['coordSys'] = dict(z=dz)
        frame = ([a + c for a, c in zip(frame[0], vecmat(h, frame[1], [0.0, 0.0, dz]))], frame[1])
    m1, m2 = m
    if has('inMedium'):
        d['inMedium'], m1 = medium(h, b, 'number', tag + '.n1')
    if has('outMedium') and typ != 'OPDScreen':
        d['outMedium'], m2 = medium(h, b, 'SumitaMedium', tag + '.n2')
    if m2 is None:
        m2 = m1
    ex = {k: num(h, f'{tag}.{k}') for k in EXTRA if has('extra')}
    d.update(ex)
    stop = None
    if has('stopSurface'):
        sd2, stop = surface(h, b, 'Sphere', tag + '.stop')
        d['stopSurface'] = dict(type='Baffle', surface=sd2, name='stop', coordSys=dict(x=num(h, tag + '.sx')))

    def test(o, label):
        h.check(type(o) is getattr(b.optic, typ), label + ': kind')
        h.check(o.surface == s, label + ': surface')
        h.check(o.name == d.get('name', ''), label + ': name')
        h.check(o.obscuration == ob and (ob is None or type(o.obscuration) is type(ob)), label + ': obscuration')
        h.check(o.inMedium == m1 and o.outMedium == m2, label + ': media')
        h.check(o.skip is False, label + ': not skipped')
        same_frame(h, o.coordSys, frame, label)
        for k in EXTRA:
            if k in ex:
                h.eq(getattr(o, k), ex[k], f'{label}: {k}')
            elif k not in ('R_outer', 'R_inner'):
                h.check(not hasattr(o, k), f'{label}: no {k}')
        if typ == 'OPDScreen':
            h.check(o.screen == screen, label + ': screen')
        if stop is None:
            h.check(not hasattr(o, 'stopSurface'), label + ': no stop surface')
        else:
            q = o.stopSurface
            h.check(type(q) is b.Baffle and q.surface == stop and q.name == 'stop', label + ': stop surface')
            h.eq(q.coordSys.origin[0], d['stopSurface']['coordSys']['x'], label + ': stop frame')
    return d, test


ENTRIES = ('name', 'obscuration', 'coordSys', 'inMedium', 'outMedium', 'extra', 'stopSurface')


@harness('C22', configs=[(t, w) for t in ELEMENTS for w in ('bare', 'given')], time=90, paths=400, feas='cheap')
def elements(h, b):
    """any combination of the optional entries, with or without surroundings"""
    t, w = h.cfg
    has = lambda k: h.bool('has.' + k) if t in ('Mirror', 'RefractiveInterface') or k in ('inMedium', 'outMedium') else h.bool('has.rest')
    if w == 'given':
        cs, m = b.CoordSys(h.arr(h.vec('po', 3, -2, 2)), b.RotX(0.5)), (b.ConstMedium(num(h, 'pn1')), b.ConstMedium(num(h, 'pn2')))
        if t == 'OPDScreen':
            m = (m[0], None)
        args = dict(coordSys=cs, inMedium=m[0], outMedium=m[1])
    else:
        cs, m, args = b.CoordSys(), (b.ConstMedium(1.0), None), {}
    d, test = element(h, b, t, 'A', has, cs, m)
    old = copy.deepcopy(d)
    test(b.parse.parse_optic(d, **args), 'element')
    alone(h, d, old)
    test(b.parse.parse_optic(d, **args), 'again')


@harness('C22', configs=['Lens', 'CompoundOptic', 'nested'], time=120, paths=400, feas='cheap')
def systems(h, b):
    """frames are relative to the parent and media come from it unless given"""
    k = h.cfg
    bits = {}
    has = lambda tag: (lambda e: bits.setdefault((tag, e), h.bool(f'{tag}.has.{e}')) if e in ('inMedium', 'coordSys') else e in ('name', 'outMedium') and tag == 'B')
    m0 = b.ConstMedium(1.0)
    top = {}
    cs = b.CoordSys()
    if h.bool('frame'):
        d0 = dict(z=num(h, 'S.z'), rotX=num(h, 'S.rot'))
        top['coordSys'] = d0
        s, c = h.np.sin(d0['rotX']), h.np.cos(d0['rotX'])
        cs = b.CoordSys(h.arr([0.0, 0.0, d0['z']]), h.arr([[1.0, 0.0, 0.0], [0.0, c, -s], [0.0, s, c]]))
    min_, mout = m0, None
    if h.bool('media'):
        top['inMedium'], min_ = medium(h, b, 'number', 'S.in')
        if h.bool('media out'):
            top['outMedium'], mout = medium(h, b, 'Air', 'S.out')
    if mout is None:
        mout = min_

    def lens(name, cs, m1, m2):
        glass_d, glass = medium(h, b, 'SellmeierMedium', name + '.glass')
        a, ta = element(h, b, 'RefractiveInterface', name + 'A', has(name + 'A'), cs, (m1, glass))
        c, tc = element(h, b, 'RefractiveInterface', 'B', lambda e: False, cs, (glass, m2))
        a.pop('outMedium', None)

        def test(o, label):
            h.check(type(o) is b.Lens and len(o.items) == 2 and o.medium == glass and o.name == name, label + ': lens')
            h.check(o.inMedium == m1 and o.outMedium == m2, label + ': media')
            same_frame(h, o.coordSys, ([e for e in cs.origin], [[e for e in r] for r in cs.rot]), label)
            ta(o.items[0], label + ' first')
            tc(o.items[1], label + ' second')
        return dict(type='Lens', name=name, medium=glass_d, items=[a, c]), test

    if k == 'Lens':
        d, test = lens('L', cs, min_, mout)
        d.update(top)
    else:
        if k == 'nested':
            i1, t1 = lens('L', cs, min_, mout)
        else:
            i1, t1 = element(h, b, 'Mirror', 'A', has('A'), cs, (min_, mout))
        i2, t2 = element(h, b, 'Detector', 'B', has('B'), cs, (min_, mout))
        i3, t3 = element(h, b, 'Baffle', 'C', lambda e: False, cs, (min_, mout))
        d = dict(type='CompoundOptic', items=[i1, i2, i3], name='S', backDist=num(h, 'back'), **top)

        def test(o, label):
            h.check(type(o) is b.CompoundOptic and len(o.items) == 3 and o.name == 'S', label)
            h.check(o.inMedium == min_ and o.outMedium == mout, label + ': media')
            h.eq(o.backDist, d['backDist'], label + ': backDist')
            same_frame(h, o.coordSys, ([e for e in cs.origin], [[e for e in r] for r in cs.rot]), label)
            for t, i in zip((t1, t2, t3), o.items):
                t(i, label + ' part')
    old = copy.deepcopy(d)
    test(b.parse.parse_optic(d), 'system')
    alone(h, d, old)
    test(b.parse.parse_optic(d), 'again')


def broken(h, b):
    """descriptions that must be refused"""
    s = dict(type='Sphere', R=num(h, 'R'))
    o = dict(type='ObscCircle', radius=1.0)
    el = dict(type='Mirror', surface=s, name='A')
    P = b.parse
    yield 'no optic type', P.parse_optic, {k: v for k, v in el.items() if k != 'type'}
    yield 'no surface', P.parse_optic, dict(type='Mirror', name='A')
    for t in ('mirror', 'Telescope', '', 'Optic', 'Obscuration'):
        yield 'unknown optic', P.parse_optic, dict(el, type=t)
    for t in ELEMENTS:
        yield t + ' without a surface', P.parse_optic, dict(type=t, screen=s)
    yield 'screen without its screen', P.parse_optic, dict(type='OPDScreen', surface=s)
    yield 'lens without a medium', P.parse_optic, dict(type='Lens', items=[el, el])
    yield 'lens without items', P.parse_optic, dict(type='Lens', medium=1.5)
    yield 'lens with one item', P.parse_optic, dict(type='Lens', medium=1.5, items=[el])
    yield 'compound without items', P.parse_optic, dict(type='CompoundOptic')
    yield 'bad part', P.parse_optic, dict(type='CompoundOptic', items=[el, dict(el, type='Nothing')])
    yield 'bad surface', P.parse_optic, dict(el, surface=dict(type='Nothing', R=1.0))
    yield 'bad obscuration', P.parse_optic, dict(el, obscuration=dict(type='Nothing'))
    yield 'bad medium', P.parse_optic, dict(el, inMedium=dict(type='Nothing'))
    yield 'bad stop', P.parse_optic, dict(el, stopSurface=dict(type='Nothing'))
    yield 'no surface type', P.parse_surface, dict(R=1.0)
    yield 'unknown surface', P.parse_surface, dict(type='sphere', R=1.0)
    yield 'missing radius', P.parse_surface, dict(type='Sphere')
    yield 'missing conic', P.parse_surface, dict(type='Quadric', R=1.0)
    yield 'extra entry', P.parse_surface, dict(s, conic=1.0)
    yield 'sum without items', P.parse_surface, dict(type='Sum')
    for t in ('Circle', 'obscCircle', 'Clear', 'ClearSky', 'Sphere', ''):
        yield 'unknown obscuration', P.parse_obscuration, dict(o, type=t)
    yield 'no obscuration type', P.parse_obscuration, dict(radius=1.0)
    yield 'missing radius', P.parse_obscuration, dict(type='ObscCircle')
    yield 'missing outer', P.parse_obscuration, dict(type='ClearAnnulus', inner=0.5)
    yield 'extra entry', P.parse_obscuration, dict(o, outer=2.0)
    yield 'nothing negated', P.parse_obscuration, dict(type='ObscNegation')
    yield 'nothing joined', P.parse_obscuration, dict(type='ObscUnion')
    yield 'no medium type', P.parse_medium, dict(n=1.5)
    yield 'unknown medium', P.parse_medium, dict(type='Glass', n=1.5)
    yield 'missing index', P.parse_medium, dict(type='ConstMedium')


@harness('C22', time=60, feas='cheap')
def refused(h, b):
    for label, f, d in broken(h, b):
        old = copy.deepcopy(d)
        try:
            f(d)
        except Exception:
            pass
        else:
            h.check(False, label)
        h.check(d == old, label + ': description left alone')
