"""Symbolic surfaces shared by several checks."""


def make(h, b, kind, p='s', lo=1, hi=8):
    """surface of the given kind with symbolic parameters; returns (surface, domain)

    domain(x, y): strictly inside the region where the sag is defined"""
    ok = lambda x, y: True
    if kind == 'Plane':
        return b.Plane(), ok
    if kind == 'Tilted':
        return b.Tilted(h.real(p+'.tanx', -3, 3), h.real(p+'.tany', -3, 3)), ok
    if kind == 'Paraboloid':
        R = h.real(p+'.R', -hi, hi)
        h.assume(h.neg(h.same(R, 0)))
        return b.Paraboloid(R), ok
    if kind == 'Sphere':
        R = h.real(p+'.R', -hi, hi)
        h.assume(h.neg(h.same(R, 0)))
        return b.Sphere(R), (lambda x, y: x*x + y*y < R*R)
    if kind in ('Quadric', 'Asphere'):
        R = h.real(p+'.R', -hi, hi)
        h.assume(h.neg(h.same(R, 0)))
        k = h.real(p+'.conic', -3, 3)
        h.assume(h.neg(h.same(k, -1)))
        dom = lambda x, y: (x*x + y*y)*(1 + k) < R*R
        if kind == 'Quadric':
            return b.Quadric(R, k), dom
        cs = [h.real(f'{p}.a{i}', -1, 1) for i in range(2)]
        return b.Asphere(R, k, cs), dom
    if kind == 'Poly':      # any tangent plane through any height
        a, bx, by = (h.real(f'{p}.{c}', -3, 3) for c in 'abc')
        return b.Zernike([0, a, bx/2, by/2]), ok
    if kind.startswith('Zernike'):
        j = int(kind[7:])
        c = [0.0] + [h.real(f'{p}.z{i}', -1, 1) for i in range(1, j+1)]
        return b.Zernike(c, R_outer=2.0, R_inner=0.5, x_origin=h.real(p+'.x0', -1, 1), y_origin=h.real(p+'.y0', -1, 1)), ok
    raise KeyError(kind)
