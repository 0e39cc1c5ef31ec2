"""C26: interfaces use the media and coating of the travel side; coatings touch
only the flux."""
from vlib.harness import harness
from checks.hit import aimed, niter
from checks.rays import bundle, snap, frame, tilted, tangent, FIELDS
from checks.c03 import one_ray

KINDS = ['RefractiveInterface', 'Mirror', 'Detector', 'Baffle']


def coat(h, b, p):
    R, T = h.real(p + '.R', 0, 1), h.real(p + '.T', 0, 1)
    return b.SimpleCoating(R, T), R, T


def element(h, b, kind, same=False, **kw):
    """element of the kind, with its own frame, media and coatings"""
    cs = b.CoordSys(h.arr(h.vec('o', 3, -3, 3)))
    n1, n2 = h.real('n1', 1, 3), h.real('n2', 1, 3)
    m1, m2 = b.ConstMedium(n1), b.ConstMedium(n1 if same else n2)
    F, B = coat(h, b, 'F'), coat(h, b, 'B')
    el = getattr(b, kind)(b.Plane(), name='el', coordSys=cs, inMedium=m1, outMedium=m2,
                          forwardCoating=F[0], reverseCoating=B[0], **kw)
    return el, cs, m1, m2, F, B


def agree(h, got, want, label, flux=True):
    got, want = snap(got), snap(want)
    h.check(got['coordSys'] == want['coordSys'], label + ': frame')
    h.check(got['failed'] == want['failed'], label + ': failed')
    h.check(got['vignetted'] == want['vignetted'], label + ': vignetted')
    for i in range(len(want['x'])):
        for f in FIELDS:
            if f != 'flux' or flux:
                h.eq(got[f][i], want[f][i], f'{label}: {f}[{i}]')


@harness('C26', configs=[(k, r, how) for k in KINDS for r in (False, True) for how in ('interact', 'trace')], timeout=10, time=60, feas='cheap')
def crossing_an_element(h, b):
    """each kind of element, forwards and in reverse, on its own plane and frame"""
    kind, reverse, how = h.cfg
    el, cs, m1, m2, F, B = element(h, b, kind)
    rv = one_ray(h, b)
    want = rv.copy()
    s = b.Plane()
    if kind == 'RefractiveInterface':
        b.refract(s, want, *((m2, m1) if reverse else (m1, m2)), cs)
    elif kind == 'Mirror':
        b.reflect(s, want, cs)
    else:
        b.intersect(s, want, cs)
    if how == 'interact':
        out = el.interact(rv, reverse=reverse)
    else:
        out = el.trace(rv, reverse=reverse)
    h.check(out is rv, 'in place')
    agree(h, out, want, 'like the bare surface between the media of the travel side')


@harness('C26', configs=['refract', 'reflect'], timeout=10, time=60, feas='cheap')
def named_methods(h, b):
    kind = {'refract': 'RefractiveInterface', 'reflect': 'Mirror'}[h.cfg]
    el, cs, m1, m2, F, B = element(h, b, kind)
    for reverse in (False, True):
        rv = one_ray(h, b)
        want = rv.copy()
        getattr(el, h.cfg)(rv, reverse=reverse)
        el.interact(want, reverse=reverse)
        agree(h, rv, want, f'{h.cfg} is the interaction')


@harness('C26', configs=[('RefractiveInterface', False), ('RefractiveInterface', True), ('Detector', False)], timeout=10, time=60, feas='cheap')
def splitting_an_element(h, b):
    """refracted with the transmittance, reflected with the reflectance of the travel side"""
    kind, reverse = h.cfg
    el, cs, m1, m2, F, B = element(h, b, kind)
    rv = one_ray(h, b)
    t, r = rv.copy(), rv.copy()
    c = (B if reverse else F)[0]
    media = (m2, m1) if reverse else (m1, m2)
    b.refract(b.Plane(), t, *media, cs, c)
    b.reflect(b.Plane(), r, cs, c)
    x, y = el.rSplit(rv, reverse=reverse)
    X, Y, T, R = snap(x), snap(y), snap(t), snap(r)
    h.check(X['coordSys'] == cs and Y['coordSys'] == cs, 'both in the frame of the element')
    for got, want, l in ((X, T, 'refracted'), (Y, R, 'reflected')):
        h.check(got['failed'] == want['failed'], l + ': failed')
        h.check(got['vignetted'] == want['vignetted'], l + ': vignetted')
        if not want['failed'][0]:
            for f in FIELDS:
                h.eq(got[f][0], want[f][0], f'{l}: {f}')


@harness('C26', configs=[('Mirror', False), ('Mirror', True), ('Baffle', False), ('Baffle', True)], timeout=10, time=60, feas='cheap')
def one_way_split(h, b):
    """a mirror only reflects, a baffle only passes"""
    kind, reverse = h.cfg
    el, cs, m1, m2, F, B = element(h, b, kind)
    rv = one_ray(h, b)
    want = rv.copy()
    x, y = el.rSplit(rv, reverse=reverse)
    if kind == 'Mirror':
        b.reflect(b.Plane(), want, cs)
        h.check(x is None, 'nothing refracted')
        agree(h, y, want, 'reflected')
    else:
        b.intersect(b.Plane(), want, cs)
        h.check(y is None, 'nothing reflected')
        agree(h, x, want, 'passed')


@harness('C26', configs=[(k, r) for k in KINDS for r in (False, True) if (k, r) != ('Detector', True)], timeout=10, time=60, feas='cheap')
def split_trace(h, b):
    """traceSplit of one element sorts its outputs by direction and notes the path"""
    kind, reverse = h.cfg
    el, cs, m1, m2, F, B = element(h, b, kind)
    rv, ref = one_ray(h, b), None
    ref = rv.copy()
    fwd, rev = el.traceSplit(rv, reverse=reverse)
    x, y = el.rSplit(ref, reverse=reverse)
    along, back = (rev, fwd) if reverse else (fwd, rev)
    if kind == 'Mirror':
        along, back, x, y = along, back, y, x
    for got, want, l in ((along, x, 'going on'), (back, y, 'turned back')):
        h.check(len(got) == 1, l + ': one bundle')
        if want is None:
            h.check(got[0] is None, l + ': none')
        else:
            agree(h, got[0], want, l)
            h.check(got[0].path == ['el'], l + ': path')


@harness('C26', configs=KINDS, timeout=10, time=60)
def default_coatings(h, b):
    """without coatings given: refraction transmits all, mirrors reflect all"""
    el = getattr(b, h.cfg)(b.Plane(), name='el')
    w, c = h.real('w', 0.25, 2), h.real('c', -1, 1)
    want = (1, 0) if h.cfg == 'Mirror' else (0, 1)
    coats = [el.forwardCoating] + ([el.reverseCoating] if h.cfg != 'Detector' else [])
    for k in coats:
        R, T = k.getCoefs(w, c)
        h.eq(R, want[0], 'reflectance')
        h.eq(T, want[1], 'transmittance')


@harness('C26', timeout=10, time=60)
def simple_coating(h, b):
    """any wavelength, any angle"""
    c, R, T = coat(h, b, 'C')
    w, a = h.real('w', 0.25, 2), h.real('a', -1, 1)
    r, t = c.getCoefs(w, a)
    h.eq(r, R, 'getCoefs reflectance')
    h.eq(t, T, 'getCoefs transmittance')
    h.eq(c.getReflect(w, a), R, 'getReflect')
    h.eq(c.getTransmit(w, a), T, 'getTransmit')
    h.eq(c.reflectivity, R, 'reflectivity')
    h.eq(c.transmissivity, T, 'transmissivity')
    c.__setstate__((h.real('R2', 0, 1), h.real('T2', 0, 1)))
    h.eq(c.getReflect(w, a), h.real('R2', 0, 1), 'restored reflectance')
    h.eq(c.getTransmit(w, a), h.real('T2', 0, 1), 'restored transmittance')


@harness('C26', configs=[(o, k) for o in ('intersect', 'reflect', 'refract') for k in ('Plane', 'Tangent')], timeout=10, quick_timeout=2, time=90, paths=20000, feas=False)
def coating_changes_only_flux(h, b):
    """with and without a coating: same rays except for the flux, which is multiplied by
    the reflectance when reflecting and by the transmittance otherwise"""
    op, kind = h.cfg
    s = b.Plane() if kind == 'Plane' else tangent(h, b)[0]
    niter(b, 1)
    rv = bundle(h, b, 1, flags=True)
    ref = rv.copy()
    old = snap(rv)
    c, R, T = coat(h, b, 'C')
    m = (b.ConstMedium(1.0), b.ConstMedium(h.real('n2', 1, 3)))
    if op == 'refract':
        b.refract(s, rv, *m, coating=c)
        b.refract(s, ref, *m)
    else:
        getattr(b, op)(s, rv, coating=c)
        getattr(b, op)(s, ref)
    agree(h, rv, ref, 'other data', flux=False)
    h.eq(snap(ref)['flux'], old['flux'], 'flux kept without coating')
    if not snap(rv)['failed'][0]:
        h.eq(snap(rv)['flux'][0], old['flux'][0]*(R if op == 'reflect' else T), 'flux factor')
    elif old['failed'][0]:
        h.eq(snap(rv)['flux'][0], old['flux'][0], 'flux of a failed ray kept')


@harness('C26', configs=[(k, r) for k in KINDS for r in (False, True)], timeout=10, time=60, feas='cheap')
def aperture_after_interaction(h, b):
    """the element's obscuration is applied once the ray is at the element, in its frame"""
    kind, reverse = h.cfg
    rad = h.real('rad', 0.25, 3)
    el, cs, m1, m2, F, B = element(h, b, kind, same=True, obscuration=b.ObscCircle(rad))
    rv = one_ray(h, b)
    want = rv.copy()
    el.interact(want, reverse=reverse)
    old = snap(want)
    el.trace(rv, reverse=reverse)
    new = snap(rv)
    for f in FIELDS:
        h.eq(new[f][0], old[f][0], f)
    h.check(new['failed'] == old['failed'], 'failed')
    r2 = new['x'][0]*new['x'][0] + new['y'][0]*new['y'][0]
    if new['failed'][0]:
        h.check(new['vignetted'][0], 'failed stays vignetted')
    elif new['vignetted'][0]:
        h.check(h.le_(r2, rad*rad), 'vignetted only inside the obscuration')
    else:
        h.check(h.le_(rad*rad, r2), 'not vignetted only outside')
