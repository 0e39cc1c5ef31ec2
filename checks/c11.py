"""C11: media return the documented index for every wavelength."""
from vlib.harness import harness
from checks.rays import bundle, snap


def documented(h, b, kind):
    """(medium, index squared or index as documented, squared?)"""
    if kind == 'Const':
        n = h.real('n', 1, 3)
        return b.ConstMedium(n), lambda w: n, False
    if kind.startswith('Sellmeier'):
        B = [h.real(f'B{i}', 0.0625, 2) for i in range(3)]
        C = [h.real(f'C{i}', 0.0009765625, 0.03125) for i in range(3)]
        m = {'Sellmeier': lambda: b.SellmeierMedium(*B, *C), 'SellmeierList': lambda: b.SellmeierMedium([*B, *C]),
             'SellmeierKw': lambda: b.SellmeierMedium(B1=B[0], B2=B[1], B3=B[2], C1=C[0], C2=C[1], C3=C[2])}[kind]()

        def f(w):
            x = (w*1e6)*(w*1e6)
            return 1 + sum(p*x/(x - q) for p, q in zip(B, C))
        return m, f, True
    if kind.startswith('Sumita'):
        A = [h.real(f'A{i}', 2 if i == 0 else 0, 3 if i == 0 else 0.125) for i in range(6)]
        m = {'Sumita': lambda: b.SumitaMedium(*A), 'SumitaList': lambda: b.SumitaMedium(A),
             'SumitaKw': lambda: b.SumitaMedium(**{f'A{i}': a for i, a in enumerate(A)})}[kind]()

        def f(w):
            x = (w*1e6)*(w*1e6)
            y = A[0] + A[1]*x
            xi = 1
            for i in range(2, 6):
                xi = xi*x
                y = y + A[i]/xi
            return y
        return m, f, True
    if kind == 'Air':
        p, T, e = h.real('p', 60, 110), h.real('T', 260, 310), h.real('e', 0, 3)
        m = b.Air(p, T, e)
    else:
        ref = b.Air(69.328, 293.15, 1.067)
        return b.Air(), ref.getN, False

    def f(w):
        # Filippenko (1982), eqs. 1 to 3; mmHg and degrees C
        P, t, f = p*7.50061683, T - 273.15, e*7.50061683
        s2 = 1e-12/(w*w)
        n = 64.328 + 29498.1/(146.0 - s2) + 255.4/(41.0 - s2)
        n = n*P*(1 + (1.049 - 0.0157*t)*1e-6*P)/(720.883*(1 + 0.003661*t))
        n = n - f*(0.0624 - 0.000680*s2)/(1 + 0.003661*t)
        return 1 + n*1e-6
    return m, f, False


FORMULAS = ['Const', 'Sellmeier', 'SellmeierList', 'SellmeierKw', 'Sumita', 'SumitaList', 'SumitaKw', 'Air', 'AirDefault']


def agree(h, n, want, squared, label):
    if squared:
        h.check(h.le_(0, n), label + ': positive root')
        h.eq(n*n, want, label)
    else:
        h.eq(n, want, label, tol=1e-10)


def wavelength(h, name='w'):
    return h.real(name, 0.25, 2)*1e-6


@harness('C11', configs=FORMULAS, timeout=10, time=60)
def dispersion_formula(h, b):
    m, f, squared = documented(h, b, h.cfg)
    w = wavelength(h)
    agree(h, m.getN(w), f(w), squared, 'documented index')


@harness('C11', configs=FORMULAS, timeout=10, time=60)
def array_equals_scalar(h, b):
    m, f, squared = documented(h, b, h.cfg)
    w = h.arr([[wavelength(h, 'w0'), wavelength(h, 'w1')], [wavelength(h, 'w2'), wavelength(h, 'w3')]])
    for a, l in ((w, 'C'), (w.T, 'transposed'), (w[:, ::-1], 'reversed'), (w[0], 'row'), (w[:, 1], 'column')):
        n = m.getN(a)
        h.check(n.shape == a.shape, l + ': shape')
        for x, y in zip(list(a.ravel()), list(n.ravel())):
            h.eq(y, m.getN(x), l + ': element')


@harness('C11', configs=FORMULAS, timeout=10, time=60)
def restored(h, b):
    m, f, squared = documented(h, b, h.cfg)
    k = type(m).__new__(type(m))
    k.__setstate__(m.__getstate__())
    w = wavelength(h)
    agree(h, k.getN(w), f(w), squared, 'index after restoring the state')


def table(h, b, n, equal=False):
    ws = [h.real('w0', 0.25, 1)]
    for i in range(1, n):
        ws.append(ws[-1] + h.real(f'dw{i}', 0.0625, 1))
    ns = [h.real(f'n{i}', 1, 3) for i in range(n)]
    return ws, ns


@harness('C11', configs=[2, 3, 4], thorough=[5, 6], timeout=10, time=60)
def table_interpolates(h, b):
    """linear between neighbouring entries, undefined outside the table"""
    ws, ns = table(h, b, h.cfg)
    m = b.TableMedium(ws, ns)
    w = h.real('w', 0.0625, 5)
    got = m.getN(w)
    if w < ws[0]:
        h.check(h.isnan(got), 'undefined below the table')
    elif w > ws[-1]:
        h.check(h.isnan(got), 'undefined above the table')
    else:
        h.check(not h.isnan(got), 'defined inside')
        for i in range(h.cfg - 1):
            if ws[i] <= w and w <= ws[i+1]:
                h.eq((got - ns[i])*(ws[i+1] - ws[i]), (w - ws[i])*(ns[i+1] - ns[i]), 'on the line through the neighbours')


@harness('C11', configs=[2, 3, 4], timeout=10, time=60)
def table_nodes(h, b):
    ws, ns = table(h, b, h.cfg)
    m = b.TableMedium(h.arr(ws), h.arr(ns))
    for w, n in zip(ws, ns):
        h.eq(m.getN(w), n, 'entry at its wavelength')


@harness('C11', configs=['int', 'strided', 'list', 'copy', 'restored'], timeout=10, time=60)
def table_inputs(h, b):
    """values count, not the storage they came in; later changes of the arguments do not"""
    if h.cfg == 'int':
        m = b.TableMedium([1, 2, 4], [1, 3, 2])
        ws, ns = [1.0, 2.0, 4.0], [1.0, 3.0, 2.0]
    else:
        ws, ns = table(h, b, 3)
        a = h.arr([[x, y] for x, y in zip(ws, ns)])
        if h.cfg == 'strided':
            m = b.TableMedium(a[:, 0], a[:, 1])
        elif h.cfg == 'list':
            m = b.TableMedium(ws, ns)
        else:
            u, v = h.arr(ws), h.arr(ns)
            m = b.TableMedium(u, v)
            if h.cfg == 'copy':
                u[:] = [0.125, 0.25, 0.5]
                v[:] = [9.0, 9.0, 9.0]
            else:
                k = type(m).__new__(type(m))
                k.__setstate__(m.__getstate__())
                m = k
    w = h.real('w', 0.0625, 5)
    ref = b.TableMedium(h.arr(ws), h.arr(ns))
    h.eq(m.getN(w), ref.getN(w), 'same index')
    h.eq(m.getN(h.arr([w, ws[1]]))[1], ns[1], 'array query')


@harness('C11', timeout=10, time=60)
def bad_arguments(h, b):
    h.raises(lambda: b.TableMedium([1.0, 2.0, 3.0], [1.0, 2.0]), ValueError, 'sizes must match')
    h.raises(lambda: b.TableMedium([1.0], [1.0]), ValueError, 'one entry')
    h.raises(lambda: b.SellmeierMedium(1.0, 2.0), ValueError, 'too few Sellmeier coefficients')
    h.raises(lambda: b.SumitaMedium(1.0, 2.0), ValueError, 'too few Sumita coefficients')
    h.raises(lambda: b.SellmeierMedium(), ValueError, 'no Sellmeier coefficients')
    h.raises(lambda: b.SumitaMedium(), ValueError, 'no Sumita coefficients')


@harness('C11', timeout=10, time=60)
def vacuum(h, b):
    h.eq(b.vacuum.getN(wavelength(h)), 1, 'vacuum') if hasattr(b, 'vacuum') else h.eq(b.constants.vacuum.getN(wavelength(h)), 1, 'vacuum')


@harness('C11', configs=['Table', 'Sellmeier'], timeout=10, time=60, feas='cheap')
def speed_of_rays(h, b):
    """rays entering a medium get the index of their own wavelength; beyond a table
    the speed is undefined, not stray"""
    if h.cfg == 'Table':
        ws, ns = table(h, b, 3)
        m = b.TableMedium(ws, ns)
    else:
        m, f, sq = documented(h, b, 'Sellmeier')
    w = h.real('w', 0.0625, 5) if h.cfg == 'Table' else wavelength(h)
    rv = b.RayVector(h.arr([0.0]), h.arr([0.0]), h.arr([1.0]), h.arr([0.0]), h.arr([0.0]), h.arr([-1.0]), h.arr([0.0]), h.arr([w]), h.arr([1.0]))
    b.refract(b.Plane(), rv, b.ConstMedium(1.0), m)
    n = m.getN(w)
    v = snap(rv)['vz'][0]
    if h.isnan(n):
        h.check(h.isnan(v) or bool(rv.failed[0]), 'no made-up speed outside the table')
    else:
        h.eq(v*n, -1, 'speed is the reciprocal index')
