"""C14: position, propagation, phase and amplitude of the plane wave of a ray."""
from math import pi
from vlib.harness import harness
from checks.rays import bundle, snap, same_rays, frame, tilted, tangent, FIELDS


def moving(h, b, n=1, flags=False):
    """n rays of any direction and any speed from 1/4, any other fields"""
    rv = bundle(h, b, n, flags=flags)
    d = snap(rv)
    for i in range(n):
        u, sp = h.unit(f'u{i}', flip=(n == 1)), h.real(f'sp{i}', 0.25, 1)
        for k, f in enumerate(('vx', 'vy', 'vz')):
            d[f][i] = u[k]*sp
    vs = [h.arr(d[f]) for f in ('vx', 'vy', 'vz')]
    rv = b.RayVector(rv.x, rv.y, rv.z, *vs, rv.t, rv.wavelength, rv.flux, rv.vignetted, rv.failed)
    return rv, d


def at(d, i, t):
    return [d[p][i] + d['v' + p][i]*(t - d['t'][i]) for p in 'xyz']


def expected_phase(d, i, r, t):
    v = [d[f][i] for f in ('vx', 'vy', 'vz')]
    v2 = sum(e*e for e in v)
    opd = sum((r[k] - d[p][i])*v[k] for k, p in enumerate('xyz'))/v2 - (t - d['t'][i])
    return 2*pi*opd/d['wavelength'][i]


@harness('C14', configs=[1, 2, 3], thorough=[5], feas=False, paths=2000)
def position(h, b):
    """any rays, flags and times; the bundle is left alone"""
    rv = bundle(h, b, h.cfg, flags=True)
    d = snap(rv)
    t = h.real('T', -4, 4)
    r = rv.positionAtTime(t)
    h.check(r.shape == (h.cfg, 3), 'one position per ray')
    for i in range(h.cfg):
        h.eq(list(r[i]), at(d, i, t), 'position plus velocity times elapsed time')
    same_rays(h, rv, d, 'bundle after asking for positions')
    h.check(rv.coordSys == d['coordSys'], 'frame kept')


@harness('C14', configs=[1, 2, 3], thorough=[5], feas=False, paths=2000)
def propagate(h, b):
    rv = bundle(h, b, h.cfg, flags=True)
    d = snap(rv)
    t = h.real('T', -4, 4)
    out = rv.propagate(t)
    h.check(out is rv, 'propagates the bundle itself')
    e = snap(rv)
    for i in range(h.cfg):
        h.eq([e[p][i] for p in 'xyz'], at(d, i, t), 'moved to the position at that time')
        h.eq(e['t'][i], t, 'time')
    same_rays(h, e, d, 'everything else', fields=[f for f in FIELDS if f not in ('x', 'y', 'z', 't')])
    h.check(rv.coordSys == d['coordSys'], 'frame kept')


@harness('C14', configs=[1, 2], feas=False, paths=2000)
def propagate_twice(h, b):
    rv = bundle(h, b, h.cfg, flags=True)
    one = rv.copy()
    t1, t2 = h.real('T1', -4, 4), h.real('T2', -4, 4)
    rv.propagate(t1).propagate(t2)
    one.propagate(t2)
    same_rays(h, rv, one, 'twice is once')


@harness('C14', configs=['free', 'frame'], time=60, feas=False)
def propagate_in_any_frame(h, b):
    """propagation commutes with changing the frame"""
    rv = bundle(h, b, 1)
    two = rv.copy()
    cs = tilted(h, b, 'c') if h.cfg == 'free' else frame(h, b, 'c')
    t = h.real('T', -4, 4)
    rv.propagate(t).toCoordSys(cs)
    two.toCoordSys(cs).propagate(t)
    same_rays(h, rv, two, 'frame first or last')


@harness('C14', configs=[1, 2, 3], paths=20000)
def phase(h, b):
    rv, d = moving(h, b, h.cfg, flags=True)
    r, t = h.arr(h.vec('R', 3, -4, 4)), h.real('T', -4, 4)
    p = rv.phase(r, t)
    h.check(p.shape == (h.cfg,), 'one phase per ray')
    for i in range(h.cfg):
        h.eq(p[i], expected_phase(d, i, list(r), t), 'two pi over wavelength times path difference')
    same_rays(h, rv, d, 'bundle after asking for phases')


@harness('C14', configs=[1, 2, 3], paths=20000)
def amplitude(h, b):
    rv, d = moving(h, b, h.cfg, flags=True)
    r, t = h.arr(h.vec('R', 3, -4, 4)), h.real('T', -4, 4)
    a = rv.amplitude(r, t)
    h.check(a.shape == (h.cfg,), 'one amplitude per ray')
    for i in range(h.cfg):
        p = expected_phase(d, i, list(r), t)
        h.eq(a[i].real, h.np.cos(p), 'real part is the cosine of the phase')
        h.eq(a[i].imag, h.np.sin(p), 'imaginary part is the sine of the phase')
        h.eq(a[i].real*a[i].real + a[i].imag*a[i].imag, 1, 'unit modulus')
    same_rays(h, rv, d, 'bundle after asking for amplitudes')


@harness('C14', configs=[(1, None), (2, None), (2, True), (2, False), (3, False)], thorough=[(3, None), (4, True), (4, False)], paths=20000, time=120)
def summed_amplitude(h, b):
    """flux-weighted sum over unfailed, unvignetted rays (vignetted ones too on request)"""
    n, ign = h.cfg
    rv, d = moving(h, b, n, flags=True)
    r, t = h.arr(h.vec('R', 3, -4, 4)), h.real('T', -4, 4)
    s = rv.sumAmplitude(r, t) if ign is None else rv.sumAmplitude(r, t, ignoreVignetted=ign)
    re = im = 0
    for i in range(n):
        if d['failed'][i] or (d['vignetted'][i] and ign is not False):
            continue
        p = expected_phase(d, i, list(r), t)
        re = re + h.np.cos(p)*d['flux'][i]
        im = im + h.np.sin(p)*d['flux'][i]
    h.eq(s.real, re, 'real part')
    h.eq(s.imag, im, 'imaginary part')
    same_rays(h, rv, d, 'bundle after summing amplitudes')


@harness('C14', configs=['time', 'along', 'across'])
def wave_character(h, b):
    """the wave moves along the ray: constant on planes across it"""
    rv, d = moving(h, b, 1)
    r, t = h.vec('R', 3, -4, 4), h.real('T', -4, 4)
    dt = h.real('dt', -2, 2)
    v = [d[f][0] for f in ('vx', 'vy', 'vz')]
    p0 = rv.phase(h.arr(r), t)[0]
    if h.cfg == 'time':
        # one wavelength of time is a full turn backwards
        h.eq(rv.phase(h.arr(r), t + dt)[0], p0 - 2*pi*dt/d['wavelength'][0], 'angular frequency')
    elif h.cfg == 'along':
        q = rv.phase(h.arr([r[k] + v[k]*dt for k in range(3)]), t + dt)[0]
        h.eq(q, p0, 'moving with the ray keeps the phase')
    else:
        w = h.vec('W', 3, -2, 2)
        c = [v[1]*w[2] - v[2]*w[1], v[2]*w[0] - v[0]*w[2], v[0]*w[1] - v[1]*w[0]]
        q = rv.phase(h.arr([r[k] + c[k] for k in range(3)]), t)[0]
        h.eq(q, p0, 'constant across the ray')


@harness('C14', configs=[1, 2])
def wavevector(h, b):
    rv, d = moving(h, b, h.cfg)
    k, om = rv.k, rv.omega
    h.check(k.shape == (h.cfg, 3), 'one wavevector per ray')
    for i in range(h.cfg):
        v = [d[f][i] for f in ('vx', 'vy', 'vz')]
        v2 = sum(e*e for e in v)
        w = d['wavelength'][i]
        for j, c in enumerate('xyz'):
            h.eq(k[i][j]*w*v2, 2*pi*v[j], 'wavevector')
            h.eq(getattr(rv, 'k' + c)[i]*w*v2, 2*pi*v[j], 'component ' + c)
        h.eq(om[i]*w, 2*pi, 'frequency')
        h.eq([list(rv.r[i]), list(rv.v[i])], [[d[p][i] for p in 'xyz'], v], 'position and velocity as arrays')
    same_rays(h, rv, d, 'bundle afterwards')


@harness('C14', configs=[1.0, 'n'], time=60)
def after_refraction(h, b):
    """phase continues across a surface: the same before and after at the crossing point"""
    n2 = h.real('n2', 1, 2)
    n1 = 1.0 if h.cfg == 1.0 else h.real('n1', 1, 2)
    u = h.unit('v')
    h.assume(u[2] >= 0.25)
    w = h.real('w', 0.25, 2)
    x, y = h.real('x', -2, 2), h.real('y', -2, 2)
    rv = b.RayVector(x, y, -1.0, u[0]/n1, u[1]/n1, u[2]/n1, 0.0, w, 1.0)
    d = snap(rv)
    one = rv.copy()
    b.intersect(b.Plane(), one)
    hit = snap(one)
    b.refract(b.Plane(), rv, b.ConstMedium(n1), b.ConstMedium(n2))
    e = snap(rv)
    if not e['failed'][0]:
        r = h.arr([e[p][0] for p in 'xyz'])
        t = h.real('T', -2, 2)
        q = one.phase(r, t)[0]
        h.eq(rv.phase(r, t)[0], q, 'continuous at the crossing')
        h.eq(q, 2*pi*(hit['t'][0] - t)/w, 'phase of the arrival time')
