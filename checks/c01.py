"""C01: coordinate systems and transforms are exact rigid motions."""
from vlib.harness import harness
from checks.rays import bundle, snap, frame, FIELDS


def mv(m, v): return [sum(m[i][k]*v[k] for k in range(3)) for i in range(3)]
def mtv(m, v): return [sum(m[k][i]*v[k] for k in range(3)) for i in range(3)]
def mm(a, c): return [[sum(a[i][k]*c[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
def add(u, v): return [p + q for p, q in zip(u, v)]
def sub(u, v): return [p - q for p, q in zip(u, v)]


def toglobal(cs, v): return add(mv(cs.rot, v), list(cs.origin))
def tolocal(cs, v): return mtv(cs.rot, sub(v, list(cs.origin)))


@harness('C01', configs=[1, 2], thorough=[3])
def points(h, b):
    """CoordSys.toGlobal/toLocal for scalar and stacked points; any frame"""
    cs = frame(h, b, 'A', half=True)
    n = h.cfg
    pts = [h.vec(f'p{i}', 3, -4, 4) for i in range(n)]
    arg = pts[0] if n == 1 else pts
    g = cs.toGlobal(arg)
    l = cs.toLocal(arg)
    back = cs.toLocal(g)
    forth = cs.toGlobal(l)
    for i in range(n):
        pick = (lambda a: a) if n == 1 else (lambda a: a[i])
        h.eq(pick(g), toglobal(cs, pts[i]), 'toGlobal')
        h.eq(pick(l), tolocal(cs, pts[i]), 'toLocal')
        h.eq(pick(back), pts[i], 'toLocal after toGlobal')
        h.eq(pick(forth), pts[i], 'toGlobal after toLocal')
    h.eq(cs.xhat, [cs.rot[i][0] for i in range(3)], 'xhat')
    h.eq(cs.yhat, [cs.rot[i][1] for i in range(3)], 'yhat')
    h.eq(cs.zhat, [cs.rot[i][2] for i in range(3)], 'zhat')


@harness('C01', configs=['applyForward', 'applyReverse', 'toCoordSys'])
def bundles(h, b):
    """2 rays with free fields and flags, any two frames"""
    A, B = frame(h, b, 'A'), frame(h, b, 'B')
    rv = bundle(h, b, 2, flags=True, coordSys=A if h.cfg != 'applyReverse' else B)
    old = snap(rv)
    ct = b.CoordTransform(A, B)
    src, dst = (A, B)
    if h.cfg == 'applyForward':
        out = ct.applyForward(rv)
    elif h.cfg == 'applyReverse':
        out = ct.applyReverse(rv)
        src, dst = B, A
    else:
        out = rv.toCoordSys(B)
    h.check(out is rv, 'transforms in place')
    new = snap(rv)
    h.check(rv.coordSys == dst, 'frame recorded')
    for i in range(2):
        p = [old[k][i] for k in 'xyz']
        v = [old[k][i] for k in ('vx', 'vy', 'vz')]
        q = [new[k][i] for k in 'xyz']
        w = [new[k][i] for k in ('vx', 'vy', 'vz')]
        h.eq(toglobal(dst, q), toglobal(src, p), 'same physical point')
        h.eq(mv(dst.rot, w), mv(src.rot, v), 'same physical velocity')
        for f in ('t', 'wavelength', 'flux'):
            h.eq(new[f][i], old[f][i], f'{f} kept')
        h.check(new['vignetted'][i] == old['vignetted'][i], 'vignetted kept')
        h.check(new['failed'][i] == old['failed'][i], 'failed kept')


@harness('C01')
def there_and_back(h, b):
    """forward then reverse, and A to B to C against A to C; 1 ray"""
    A, B = frame(h, b, 'A'), frame(h, b, 'B')
    rv = bundle(h, b, 1, coordSys=A)
    old = snap(rv)
    ct = b.CoordTransform(A, B)
    ct.applyForward(rv)
    ct.applyReverse(rv)
    new = snap(rv)
    for f in FIELDS:
        h.eq(new[f], old[f], f'{f} restored')
    h.check(rv.coordSys == A, 'frame restored')


@harness('C01')
def chain(h, b):
    """A to B to C equals A to C for one ray"""
    A, B, C = frame(h, b, 'A'), frame(h, b, 'B'), frame(h, b, 'C')
    rv = bundle(h, b, 1, coordSys=A)
    r2 = rv.copy()
    rv.toCoordSys(B)
    rv.toCoordSys(C)
    r2.toCoordSys(C)
    a, c = snap(rv), snap(r2)
    for f in FIELDS:
        h.eq(a[f], c[f], f'{f} path independent', tol=1e-6)


@harness('C01', configs=[1, 2])
def arrays(h, b):
    """array forms agree with the frames, leave inputs alone; n points"""
    from_, to = frame(h, b, 'A'), frame(h, b, 'B')
    ct = b.CoordTransform(from_, to)
    n = h.cfg
    P = [h.arr([h.real(f'{c}{i}', -4, 4) for i in range(n)]) for c in 'xyz']
    keep = [[e for e in a] for a in P]
    F = ct.applyForwardArray(*P)
    R = ct.applyReverseArray(*P)
    for i in range(n):
        p = [keep[k][i] for k in range(3)]
        h.eq(toglobal(to, [F[k][i] for k in range(3)]), toglobal(from_, p), 'forward array')
        h.eq(toglobal(from_, [R[k][i] for k in range(3)]), toglobal(to, p), 'reverse array')
    for a, k in zip(P, keep):
        h.eq(a, k, 'inputs untouched')
    # in-place kernels
    from_trace = __import__(b.__name__ + '.trace', fromlist=['x'])
    Q = [h.arr([e for e in k]) for k in keep]
    from_trace.applyForwardTransformArrays(ct, *Q)
    h.eq([list(q) for q in Q], [[F[k][i] for i in range(n)] for k in range(3)], 'kernel forward')
    Q = [h.arr([e for e in k]) for k in keep]
    from_trace.applyReverseTransformArrays(ct, *Q)
    h.eq([list(q) for q in Q], [[R[k][i] for i in range(n)] for k in range(3)], 'kernel reverse')


@harness('C01', configs=['shiftGlobal', 'shiftLocal', 'rotateGlobal', 'rotateLocal', 'rotateGlobalAbout', 'rotateLocalAbout',
                         'rotateGlobalAboutIn', 'rotateLocalAboutIn'])
def motions(h, b):
    """any frame, shift, rotation, centre and centre frame"""
    A = frame(h, b, 'A')
    o, R = [e for e in A.origin], [[e for e in r] for r in A.rot]
    op = h.cfg
    if op.startswith('shift'):
        d = h.vec('d', 3, -3, 3)
        N = getattr(A, op)(h.arr(d))
        h.eq(N.rot, A.rot, 'orientation kept')
        h.eq(N.origin, add(o, d if op == 'shiftGlobal' else mv(R, d)), 'origin moved')
    else:
        M = h.rot('M')
        c = h.vec('c', 3, -3, 3)
        g = op.startswith('rotateGlobal')
        kw, cg = {}, ([0, 0, 0] if g else o)
        if 'About' in op:
            kw['rotCenter'] = c
            cg = c if g else toglobal(A, c)
        if op.endswith('In'):
            B = frame(h, b, 'B')
            kw['coordSys'] = B
            cg = toglobal(B, c)
        N = (A.rotateGlobal if g else A.rotateLocal)(M, **kw)
        # the rigid motion in global coordinates
        G = [[M[i][j] for j in range(3)] for i in range(3)] if g else mm(mm(R, M), [[R[j][i] for j in range(3)] for i in range(3)])
        h.eq(N.rot, mm(G, R), 'orientation', tol=1e-6)
        h.eq(N.origin, add(mv(G, sub(o, cg)), cg), 'origin', tol=1e-6)
    h.eq(A.origin, o, 'original origin untouched')
    h.eq(A.rot, R, 'original orientation untouched')


@harness('C01')
def elementary(h, b):
    """RotX, RotY, RotZ for every angle: right-handed rotations about the axis"""
    t = h.real('t', -3, 3)
    s, c = h.np.sin(t), h.np.cos(t)
    h.eq(b.RotX(t), [[1, 0, 0], [0, c, -s], [0, s, c]], 'RotX')
    h.eq(b.RotY(t), [[c, 0, s], [0, 1, 0], [-s, 0, c]], 'RotY')
    h.eq(b.RotZ(t), [[c, -s, 0], [s, c, 0], [0, 0, 1]], 'RotZ')
