"""Symbolic ray bundles shared by several checks."""
FIELDS = ('x', 'y', 'z', 'vx', 'vy', 'vz', 't', 'wavelength', 'flux')


def bundle(h, b, n=1, p='r', coordSys=None, flags=False, speed=None, lo=-4, hi=4):
    """RayVector of n rays with free fields (and free flags)"""
    d = {}
    for f in FIELDS:
        l, u = (lo, hi)
        if f == 'wavelength':
            l, u = (0.25, 2)
        if f == 'flux':
            l, u = (0, 3)
        if f in ('vx', 'vy', 'vz'):
            l, u = (-1, 1)
        d[f] = [h.real(f'{p}{i}.{f}', l, u) for i in range(n)]
    if flags:
        vig = [h.bool(f'{p}{i}.vig') for i in range(n)]
        fail = [h.bool(f'{p}{i}.fail') for i in range(n)]
    else:
        vig = fail = [False]*n
    kw = {} if coordSys is None else {'coordSys': coordSys}
    rv = b.RayVector(*[h.arr(d[f]) for f in FIELDS], h.np.array(vig, dtype=bool), h.np.array(fail, dtype=bool), **kw)
    return rv


def snap(rv):
    """field values as lists (copies)"""
    rv._syncToHost()
    d = {f: [e for e in getattr(rv, f)] for f in FIELDS}
    d['vignetted'] = [bool(e) for e in rv.vignetted]
    d['failed'] = [bool(e) for e in rv.failed]
    d['coordSys'] = rv.coordSys
    return d


def same_rays(h, a, b, label, fields=FIELDS, tol=1e-7, sel=None, flags=True):
    a = a if isinstance(a, dict) else snap(a)
    b = b if isinstance(b, dict) else snap(b)
    h.check(len(a['x']) == len(b['x']), label + ': same number of rays')
    for i in range(min(len(a['x']), len(b['x']))):
        if sel is not None and not sel(i):
            continue
        for f in fields:
            h.eq(a[f][i], b[f][i], f'{label}: {f}[{i}]', tol=tol)
        if flags:
            h.check(a['vignetted'][i] == b['vignetted'][i], f'{label}: vignetted[{i}]')
            h.check(a['failed'][i] == b['failed'][i], f'{label}: failed[{i}]')


def frame(h, b, p, half=False):
    return b.CoordSys(h.arr(h.vec(p + '.o', 3, -3, 3)), h.rot(p, half=half))


def tilted(h, b, p):
    """anywhere, rotated about its x axis"""
    a = h.real(p + '.a', -2, 2)
    n = 1 + a*a
    c, s = (1 - a*a)/n, 2*a/n
    return b.CoordSys(h.arr(h.vec(p + '.o', 3, -3, 3)), h.arr([[1.0, 0.0, 0.0], [0.0, c, -s], [0.0, s, c]]))


def tangent(h, b, p='s'):
    """surface that is an arbitrary non-vertical plane, handled by the generic
    polynomial code (Newton step exact)"""
    a, bx, by = (h.real(f'{p}.{c}', -3, 3) for c in 'abc')
    s = b.Zernike([0, a, bx/2, by/2])
    return s, (a, bx, by)


def vignetted_twin(rv):
    """the same rays, all marked vignetted"""
    out = rv.copy()
    out.vignetted[:] = True
    return out


def vignetted_alike(h, b, rv, act, label, fields=FIELDS):
    """act on rays and on their vignetted twins: only the mark differs"""
    tw = vignetted_twin(rv)
    act(rv)
    act(tw)
    a, c = snap(rv), snap(tw)
    for i in range(len(a['x'])):
        for f in fields:
            h.eq(c[f][i], a[f][i], f'{label}: {f} whether vignetted or not')
        h.check(c['failed'][i] == a['failed'][i], f'{label}: failed whether vignetted or not')
        h.check(c['vignetted'][i], f'{label}: vignetted stays')
