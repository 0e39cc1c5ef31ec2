"""Sparse polynomials and factored rational functions over named generators.

A monomial is one Python int holding 10 bits of exponent per generator, so that
multiplying monomials is integer addition.  A generator may carry a rule
g**2 -> rational function (square roots, cosines)."""
from fractions import Fraction
from math import gcd

BITS = 10
MASK = (1 << BITS) - 1
LIMIT = 40000


class TooBig(Exception):
    pass


def nrm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        s = r.get(m, 0) + c
        if s == 0:
            r.pop(m, None)
        else:
            r[m] = nrm(s)
    return r


def pscale(a, k):
    if k == 0:
        return {}
    if k == 1:
        return a
    return {m: nrm(c * k) for m, c in a.items()}


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) > len(b):
        a, b = b, a
    if len(a) * len(b) > 4 * 10**6:
        raise TooBig()
    if len(a) == 1:
        (m1, c1), = a.items()
        if m1 == 0:
            return pscale(b, c1)
        return {m1 + m: nrm(c1 * c) for m, c in b.items()}
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m1 + m2
            r[m] = r.get(m, 0) + c1 * c2
    r = {m: nrm(c) for m, c in r.items() if c != 0}
    if len(r) > LIMIT:
        raise TooBig()
    return r


ONEP = {0: 1}


def isqrt_q(c):
    """square root of a rational, or None"""
    from math import isqrt
    c = Fraction(c)
    if c < 0:
        return None
    p, q = isqrt(c.numerator), isqrt(c.denominator)
    if p*p != c.numerator or q*q != c.denominator:
        return None
    return nrm(Fraction(p, q))


def mono_sqrt(m):
    h, sh = 0, 0
    while m:
        e = m & MASK
        if e & 1:
            return None
        h |= (e >> 1) << sh
        m >>= BITS
        sh += BITS
    return h


def mono_div(a, b):
    """a/b as monomials or None"""
    r, sh = 0, 0
    while a or b:
        e = (a & MASK) - (b & MASK)
        if e < 0:
            return None
        r |= e << sh
        a >>= BITS
        b >>= BITS
        sh += BITS
    return r


def pdivexact(n, p, limit=3000):
    """n/p if p divides n, else None"""
    mp, lp = max(p), min(p)
    if mono_div(max(n), mp) is None or mono_div(min(n), lp) is None:
        return None
    if len(n) > limit:
        return None
    cp = p[mp]
    q, r = {}, dict(n)
    steps = 0
    while r:
        mr = max(r)
        m = mono_div(mr, mp)
        steps += 1
        if m is None or steps > limit:
            return None
        c = nrm(Fraction(r[mr])/cp)
        q[m] = c
        for k, v in p.items():
            s = r.get(k + m, 0) - v*c
            if s == 0:
                r.pop(k + m, None)
            else:
                r[k + m] = nrm(s)
    return q


def psqrt(p, limit=600):
    """q with q*q == p, or None"""
    if not p or len(p) > 20000:
        return None
    for m in (max(p), min(p)):
        if mono_sqrt(m) is None or isqrt_q(p[m]) is None:
            return None
    m0 = mono_sqrt(max(p))
    c0 = isqrt_q(p[max(p)])
    q = {m0: c0}
    r = dict(p)
    del r[max(p)]
    last = m0
    while r:
        mr = max(r)
        m = mono_div(mr, m0)
        if m is None or m >= last or len(q) > limit:
            return None
        c = nrm(Fraction(r[mr]) / (2*c0))
        t = {m: c}
        r = padd(r, pscale(pmul(t, padd(pscale(q, 2), t)), -1))
        q[m] = c
        last = m
    return q


class Ring:
    def __init__(self):
        self.names = []          # generator names
        self.index = {}
        self.rule = {}           # gen index -> (num, den dict) for g**2
        self.rule_order = []     # gens with rules, creation order
        self.factors = {}        # key -> (id, poly)
        self.flist = []

    def gen(self, name):
        i = self.index.get(name)
        if i is None:
            i = len(self.names)
            self.names.append(name)
            self.index[name] = i
        return i

    def mono(self, i, e=1):
        return {e << (BITS * i): 1}

    def degree(self, p, i):
        sh = BITS * i
        return max(((m >> sh) & MASK for m in p), default=0)

    def factor(self, p):
        """normalise p to (const, factor id); p nonconstant"""
        lead = p[max(p)]
        q = pscale(p, Fraction(1) / lead) if lead != 1 else p
        key = frozenset(q.items())
        f = self.factors.get(key)
        if f is None:
            f = len(self.flist)
            self.factors[key] = f
            self.flist.append(q)
        return lead, f

    def split_mono(self, p):
        """p = x^g * q with q free of monomial content"""
        it = iter(p)
        g = next(it)
        if g == 0:
            return 0, p
        for m in it:
            r, sh, a, b = 0, 0, g, m
            while a and b:
                e = min(a & MASK, b & MASK)
                r |= e << sh
                a >>= BITS
                b >>= BITS
                sh += BITS
            g = r
            if g == 0:
                return 0, p
        return g, {m - g: c for m, c in p.items()}

    # --- rational functions: (num, den) with den {factor id: exp} -------
    def rf_const(self, c):
        c = nrm(c)
        return ({0: c} if c else {}, {})

    def rf_gen(self, name):
        return (self.mono(self.gen(name)), {})

    def den_poly(self, den):
        r = ONEP
        for f, e in den.items():
            for _ in range(e):
                r = pmul(r, self.flist[f])
        return r

    def rf_add(self, a, b):
        (na, da), (nb, db) = a, b
        if not na:
            return b
        if not nb:
            return a
        if da == db:
            return self.cancel(padd(na, nb), da)
        d = dict(da)
        for f, e in db.items():
            if d.get(f, 0) < e:
                d[f] = e
        ma = {f: e - da.get(f, 0) for f, e in d.items() if e > da.get(f, 0)}
        mb = {f: e - db.get(f, 0) for f, e in d.items() if e > db.get(f, 0)}
        na = self.reduce_mul(na, ma)
        nb = self.reduce_mul(nb, mb)
        # reduce_mul may have introduced denominators
        return self._add2(na, nb, d)

    def reduce_mul(self, n, m):
        r = (n, {})
        for f, e in m.items():
            for _ in range(e):
                r = self.rf_mul(r, (self.flist[f], {}))
        return r

    def _add2(self, a, b, d):
        (na, da), (nb, db) = a, b
        if not da and not db:
            return self.cancel(padd(na, nb), d)
        r = self.rf_add(a, b)
        dd = dict(r[1])
        for f, e in d.items():
            dd[f] = dd.get(f, 0) + e
        return self.cancel(r[0], dd)

    def cancel(self, n, d):
        if not n:
            return ({}, {})
        if d:
            for f in list(d):
                p = self.flist[f]
                if len(p) == 1:      # single generator factor
                    (m, _), = p.items()
                    i = (m.bit_length() - 1) // BITS
                    sh = BITS * i
                    e = min(min((k >> sh) & MASK for k in n), d[f])
                    if e:
                        n = {k - (e << sh): c for k, c in n.items()}
                        d = dict(d)
                        d[f] -= e
                        if d[f] == 0:
                            del d[f]
                elif len(n) == len(p) and n.keys() == p.keys():
                    l = n[max(n)]
                    if pscale(p, l) == n:
                        d = dict(d)
                        d[f] -= 1
                        if d[f] == 0:
                            del d[f]
                        n = {0: l}
                elif len(n) > len(p) // 2 and len(n)*len(p) < 200000:
                    while d.get(f):
                        q = pdivexact(n, p)
                        if q is None:
                            break
                        n = q
                        d = dict(d)
                        d[f] -= 1
                        if d[f] == 0:
                            del d[f]
        return (n, d)

    def rf_mul(self, a, b):
        (na, da), (nb, db) = a, b
        if not na or not nb:
            return ({}, {})
        n = pmul(na, nb)
        d = dict(da)
        for f, e in db.items():
            d[f] = d.get(f, 0) + e
        n, d2 = self.reduce(n)
        for f, e in d2.items():
            d[f] = d.get(f, 0) + e
        return self.cancel(n, d)

    def reduce(self, n):
        """apply g**2 rules; returns (num, den)"""
        den = {}
        changed = True
        while changed:
            changed = False
            for g in reversed(self.rule_order):
                sh = BITS * g
                if not any(((m >> sh) & MASK) >= 2 for m in n):
                    continue
                changed = True
                parts = {}
                for m, c in n.items():
                    e = (m >> sh) & MASK
                    parts.setdefault(e >> 1, {})[m - ((e - (e & 1)) << sh)] = c
                rn, rd = self.rule[g]
                K = max(parts)
                rdp = self.den_poly(rd)
                tot = {}
                for k, p in parts.items():
                    for _ in range(k):
                        p = pmul(p, rn)
                    for _ in range(K - k):
                        p = pmul(p, rdp)
                    tot = padd(tot, p)
                n = tot
                for f, e in rd.items():
                    den[f] = den.get(f, 0) + e * K
                if not n:
                    return {}, {}
                break
        return n, den

    def rf_inv(self, a):
        n, d = a
        if not n:
            raise ZeroDivisionError
        g, q = self.split_mono(n)
        den = {}
        i = 0
        while g:
            e = g & MASK
            if e:
                _, f = self.factor(self.mono(i))
                den[f] = den.get(f, 0) + e
            g >>= BITS
            i += 1
        if len(q) == 1 and 0 in q:
            k = q[0]
        else:
            k, f = self.factor(q)
            den[f] = den.get(f, 0) + 1
        num = {0: nrm(Fraction(1) / k)}
        r = (num, den)
        for f, e in d.items():
            for _ in range(e):
                # cancel against den when possible
                if r[1].get(f, 0):
                    dd = dict(r[1])
                    dd[f] -= 1
                    if not dd[f]:
                        del dd[f]
                    r = (r[0], dd)
                else:
                    r = self.rf_mul(r, (self.flist[f], {}))
        return r

    # --- printing -------------------------------------------------------
    def smt(self, p, names):
        if not p:
            return "0.0"
        ts = []
        for m, c in p.items():
            t = []
            i = 0
            while m:
                e = m & MASK
                t.extend([names[i]] * e)
                m >>= BITS
                i += 1
            if c != 1 or not t:
                t.insert(0, smtnum(c))
            ts.append(t[0] if len(t) == 1 else "(* " + " ".join(t) + ")")
        return ts[0] if len(ts) == 1 else "(+ " + " ".join(ts) + ")"


def smtnum(c):
    c = Fraction(c)
    s = f"{abs(c.numerator)}.0"
    if c.denominator != 1:
        s = f"(/ {s} {c.denominator}.0)"
    return f"(- {s})" if c < 0 else s
