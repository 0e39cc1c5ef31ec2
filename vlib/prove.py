"""SMT back end: formulas over S/B terms -> SMT-LIB, decided by z3 / cvc5."""
import sys
sys.set_int_max_str_digits(0)
import os, random, subprocess, threading, time, math, re
from fractions import Fraction
from . import sym
from .sym import S, B, b_not, b_and, const, Unsupported
from .poly import psqrt, Ring, TooBig, pmul, padd, pscale, smtnum, BITS, MASK, nrm, ONEP

def _tool(names):
    for d in ('/usr/local/bin', '/usr/bin', '/opt/veriftools/bin', '/opt/veriftools/pyvenv/bin'):
        for n in names:
            if os.path.exists(os.path.join(d, n)):
                return os.path.join(d, n)
    return names[0]


Z3 = _tool(['z3-new', 'z3'])
CVC5 = _tool(['cvc5'])


# ---------------------------------------------------------------- samples
class Sample(dict):
    def __init__(self, rng, dom, mode):
        self.rng, self.dom, self.mode = rng, dom, mode
        self.memo = {}

    def __missing__(self, name):
        r, m = self.rng, self.mode
        d = self.dom.get(name)
        if d == 'bool' or name.startswith('b!'):
            v = r.random() < 0.5
        elif callable(d):
            v = d(self, r)
        elif name.startswith('uf:'):
            raise KeyError(name)
        else:
            lo, hi = d if d else (-4, 4)
            if m == 1 and r.random() < 0.3 and lo <= 0 <= hi:
                v = 0.0
            elif m == 2 and lo <= 0 <= hi:
                v = round(r.uniform(lo, hi) / 8 * 64) / 64
            else:
                v = round((lo + (hi - lo) * r.random()) * 64) / 64
        self[name] = v
        return v


def holds(sample, bs, tol=1e-9):
    try:
        return all(sym.evalb(b, sample, sample.memo, tol) for b in bs)
    except (ValueError, ZeroDivisionError, OverflowError):
        return False


# ---------------------------------------------------------------- encoding
class Encoder:
    def __init__(self, use_rules=True, signs=None):
        self.signs = signs       # chosen signs of |q|, in order of appearance
        self.nabs = 0
        self.dead = False
        self.abskeys = {}
        self.R = Ring()
        self.memo = {}
        self.use_rules = use_rules
        self.defs = []           # (kind, ...) definitional facts
        self.gname = []
        self.trig = {}
        self.gen_node = {}
        self.div_factors = set()
        self.bvars = set()
        self.ufapps = {}

    def newgen(self, key, node):
        i = self.R.gen(key)
        self.gen_node.setdefault(i, node)
        return i

    def rf(self, n):
        r = self.memo.get(n.id)
        if r is not None:
            return r
        # iterative post-order to avoid recursion limits
        st = [n]
        while st:
            x = st[-1]
            if x.id in self.memo:
                st.pop()
                continue
            pend = [a for a in x.args if a.id not in self.memo]
            if pend:
                st.extend(pend)
                continue
            self.memo[x.id] = self._rf1(x)
            st.pop()
        return self.memo[n.id]

    def _rf1(self, n):
        R = self.R
        o = n.op
        if o == 'c':
            return R.rf_const(n.val)
        if o == 'v':
            self.newgen('v:' + n.val, n)
            return R.rf_gen('v:' + n.val)
        a = [self.memo[x.id] for x in n.args]
        if o == '+':
            return R.rf_add(a[0], a[1])
        if o == '*':
            return R.rf_mul(a[0], a[1])
        if o == '/':
            if not a[1][0]:
                # the path condition holds that every divisor is non-zero, so
                # this case (of signs, of substituted equalities) is empty
                self.dead = True
                return R.rf_const(0)
            self.note_factors(a[1][0])
            return R.rf_mul(a[0], R.rf_inv(a[1]))
        if o == 'sqrt':
            num, den = a[0]
            key = ('sqrt', frozenset(num.items()), frozenset(den.items()))
            sq = self.perfect_square(num, den)
            if sq is not None:
                # sqrt(q^2) = |q|
                key = ('abs', frozenset(sq[0].items()), frozenset(sq[1].items()))
                if not sq[1] and len(sq[0]) == 1 and 0 in sq[0]:
                    return R.rf_const(abs(sq[0][0]))
                if self.signs is not None:
                    q = self.abskeys.get(key)
                    if q is None:
                        sg = self.signs[self.nabs] if self.nabs < len(self.signs) else 1
                        self.nabs += 1
                        q = self.abskeys[key] = R.rf_mul(R.rf_const(sg), sq)
                        self.defs.append(('nonneg', q[0], q[1]))
                    return q
            if key not in R.index:
                i = self.newgen(key, n)
                if self.use_rules:
                    R.rule[i] = (num, den)
                    R.rule_order.append(i)
                self.defs.append(('sqrt', i, num, den))
            return R.rf_gen(key)
        if o == 'floor':
            key = ('floor', frozenset(a[0][0].items()), frozenset(a[0][1].items()))
            if key not in R.index:
                i = self.newgen(key, n)
                self.defs.append(('floor', i, a[0][0], a[0][1]))
            return R.rf_gen(key)
        if o == 'uf':
            if n.val in ('sin', 'cos'):
                s, c = self.trigpair(a[0], n.args[0])
                return s if n.val == 'sin' else c
            key = ('uf', n.val) + tuple((frozenset(x[0].items()), frozenset(x[1].items())) for x in a)
            if key not in R.index:
                i = self.newgen(key, n)
                self.ufapps.setdefault(n.val, []).append((i, a))
                if n.val in ('asin', 'acos', 'atan', 'atan2', 'exp'):
                    self.defs.append((n.val, i, a))
            return R.rf_gen(key)
        raise Unsupported(f'encode {o}')

    def note_factors(self, num):
        R = self.R
        g, q = R.split_mono(num)
        i = 0
        while g:
            if g & MASK:
                self.div_factors.add(R.factor(R.mono(i))[1])
            g >>= BITS
            i += 1
        if not (len(q) == 1 and 0 in q):
            self.div_factors.add(R.factor(q)[1])

    def perfect_square(self, num, den):
        """q with num/den == q*q as rational functions, or None"""
        odd = {f: 1 for f, e in den.items() if e % 2}
        if odd:
            try:
                num = pmul(num, self.R.den_poly(odd))
            except TooBig:
                return None
        q = psqrt(num)
        if q is None:
            return None
        return q, {f: (e + 1)//2 for f, e in den.items()}

    def trigpair(self, rf, node):
        R = self.R
        num, den = rf
        if not num:
            return R.rf_const(0), R.rf_const(1)
        # expand angle sums for polynomial arguments with few terms
        if not den and 1 < len(num) <= 6:
            s, c = R.rf_const(0), R.rf_const(1)
            for m in sorted(num):
                s1, c1 = self.trigpair(({m: num[m]}, {}), None)
                s, c = (R.rf_add(R.rf_mul(s, c1), R.rf_mul(c, s1)),
                        R.rf_add(R.rf_mul(c, c1), R.rf_mul(R.rf_const(-1), R.rf_mul(s, s1))))
            return s, c
        sg = 1
        if num[max(num)] < 0:
            sg, num = -1, pscale(num, -1)
        key = (frozenset(num.items()), frozenset(den.items()))
        if key not in self.trig:
            ks, kc = ('sin',) + key, ('cos',) + key
            if node is None:
                node = self.poly_to_S(num)
            gs = self.newgen(ks, sym._mk('uf', (node,) if sg > 0 else (sym.neg(node),), 'sin') if True else None)
            gc = self.newgen(kc, sym._mk('uf', (node,), 'cos'))
            if self.use_rules:
                R.rule[gc] = (padd({0: 1}, {2 << (BITS*gs): -1}), {})
                R.rule_order.append(gc)
            self.defs.append(('trig', gs, gc, num, den))
            self.trig[key] = (R.rf_gen(ks), R.rf_gen(kc))
        s, c = self.trig[key]
        if sg < 0:
            s = R.rf_mul(R.rf_const(-1), s)
        return s, c

    def poly_to_S(self, p):
        r = sym.ZERO
        for m, c in p.items():
            t = const(c)
            i = 0
            while m:
                for _ in range(m & MASK):
                    t = sym.mul(t, self.gen_node[i])
                m >>= BITS
                i += 1
            r = sym.add(r, t)
        return r

    # --- SMT text --------------------------------------------------------
    def names(self):
        out = []
        for k in self.R.names:
            i = len(out)
            if isinstance(k, str):
                out.append('|' + k[2:] + '|')
            else:
                out.append(f'{k[0]}_{i}')
        return out

    def den_sign(self, num, den):
        """polynomial with the sign of num/den"""
        p = num
        for f, e in den.items():
            if e % 2:
                p = pmul(p, self.R.flist[f])
        return p

    def b(self, f):
        """formula -> SMT text (collects declarations as a side effect)"""
        if isinstance(f, bool):
            return 'true' if f else 'false'
        o = f.op
        if o == 'bv':
            self.bvars.add(f.args[0])
            return '|' + f.args[0] + '|'
        if o == 'not':
            return f'(not {self.b(f.args[0])})'
        if o in ('and', 'or'):
            return f'({o} ' + ' '.join(self.b(x) for x in f.args) + ')'
        if o == 'xor':
            return f'(xor {self.b(f.args[0])} {self.b(f.args[1])})'
        p = self.atom_poly(f)
        t = ('P', len(self.polys))
        self.polys.append(p)
        return f'@P{t[1]}@{o}@'

    def atom_poly(self, f):
        x, y = f.args
        d = self.R.rf_add(self.rf(x), self.R.rf_mul(self.R.rf_const(-1), self.rf(y)))
        return d[0] if f.op == '==' else self.den_sign(*d)

    def query(self, asserts, extra=()):
        self.polys = []
        texts = [self.b(a) for a in asserts]
        nm = self.names
        out = []
        # definitions (may add generators: iterate to fixpoint over defs list)
        dtexts = []
        for d in self.defs:
            if d[0] == 'sqrt':
                _, i, num, den = d
                dtexts.append(('sq', i, num, den))
            else:
                dtexts.append(d)
        names = self.names()
        R = self.R
        ints = []
        sm = lambda p: R.smt(p, names)

        def atom(m):
            p, o = self.polys[int(m.group(1))], m.group(2)
            if o == '==':
                return f'(= {sm(p)} 0.0)'
            return f'({o} {sm(p)} 0.0)'
        for t in texts:
            out.append('(assert ' + re.sub(r'@P(\d+)@(<=|<|==)@', atom, t) + ')')
        for d in dtexts:
            if d[0] == 'sq':
                _, i, num, den = d
                lhs = pmul(R.mono(i, 2), R.den_poly(den))
                out.append(f'(assert (>= {names[i]} 0.0))')
                out.append(f'(assert (= {sm(padd(lhs, pscale(num, -1)))} 0.0))')
            elif d[0] == 'floor':
                _, i, num, den = d
                # k <= num/den < k+1
                k = (R.mono(i), {})
                df = R.rf_add((num, den), R.rf_mul(R.rf_const(-1), k))
                out.append(f'(assert (>= {sm(self.den_sign(*df))} 0.0))')
                df = R.rf_add(df, R.rf_const(-1))
                out.append(f'(assert (< {sm(self.den_sign(*df))} 0.0))')
                ints.append(names[i])
            elif d[0] == 'nonneg':
                out.append(f'(assert (>= {sm(self.den_sign(d[1], d[2]))} 0.0))')
            elif d[0] == 'trig':
                _, s, c, num, den = d
                if len(num) <= 6 and not (len(num) == 1 and 0 in num):
                    at = lambda k: sm(self.den_sign(*R.rf_add((num, den), R.rf_const(Fraction(k)))))
                    t0, ml, mh, hl, hh = at(0), at(-math.pi), at(math.pi), at(-math.pi/2), at(math.pi/2)
                    S, C = names[s], names[c]
                    out.append(f'(assert (=> (and (> {t0} 0.0) (<= {ml} 0.0)) (> {S} 0.0)))')
                    out.append(f'(assert (=> (and (< {t0} 0.0) (>= {mh} 0.0)) (< {S} 0.0)))')
                    out.append(f'(assert (=> (and (<= {hl} 0.0) (>= {hh} 0.0)) (> {C} 0.0)))')
                    out.append(f'(assert (=> (= {t0} 0.0) (= {C} 1.0)))')
                out.append(f'(assert (= (+ (* {names[s]} {names[s]}) (* {names[c]} {names[c]})) 1.0))')
                for g, f in ((s, math.sin), (c, math.cos)):
                    nd = self.gen_node[g]
                    nd = nd.args[0] if nd is not None and nd.op == 'uf' else None
                    if nd is not None and nd.op == 'c' and abs(nd.val) < 1000:
                        v, e = Fraction(f(float(nd.val))), Fraction(1, 10**13)
                        out.append(f'(assert (and (<= {smtnum(v - e)} {names[g]}) (<= {names[g]} {smtnum(v + e)})))')
            elif d[0] in ('asin', 'acos', 'atan'):
                g, (num, den) = names[d[1]], d[2][0]
                lo, hi = (0.0, 3.1416) if d[0] == 'acos' else (-1.5708, 1.5708)
                out.append(f'(assert (and (<= {smtnum(Fraction(lo))} {g}) (<= {g} {smtnum(Fraction(hi))})))')
                if len(num) <= 6:
                    z = sm(self.den_sign(num, den))
                    if d[0] != 'acos':
                        out.append(f'(assert (and (=> (> {z} 0.0) (> {g} 0.0)) (=> (< {z} 0.0) (< {g} 0.0)) (=> (= {z} 0.0) (= {g} 0.0))))')
            elif d[0] == 'exp':
                out.append(f'(assert (> {names[d[1]]} 0.0))')
        if self.dead:
            out.append('(assert false)')
        for f in self.div_factors:
            out.append(f'(assert (not (= {sm(R.flist[f])} 0.0)))')
        # congruence of uninterpreted applications
        for name, apps in self.ufapps.items():
            if len(apps) <= 8:
                for j in range(len(apps)):
                    for k in range(j):
                        eqs = []
                        for u, v in zip(apps[j][1], apps[k][1]):
                            df = R.rf_add(u, R.rf_mul(R.rf_const(-1), v))
                            eqs.append(f'(= {sm(df[0])} 0.0)')
                        out.append(f'(assert (=> (and {" ".join(eqs)} true) (= {names[apps[j][0]]} {names[apps[k][0]]})))')
        decl = [f'(declare-const {n} Real)' for n in self.names()]
        decl += [f'(declare-const |{n}| Bool)' for n in sorted(self.bvars)]
        for n in ints:
            decl.append(f'(declare-const {n}_i Int)\n(assert (= {n} (to_real {n}_i)))')
        return '\n'.join(decl + out)


def rebuild(n, mp, memo):
    """Substitute without forking."""
    r = memo.get(n.id)
    if r is not None:
        return r
    if n.op == 'v':
        r = mp.get(n.val, n)
    elif n.op == 'c':
        r = n
    else:
        a = [rebuild(x, mp, memo) for x in n.args]
        if all(x is y for x, y in zip(a, n.args)):
            r = n
        elif n.op == '+':
            r = sym.add(*a)
        elif n.op == '*':
            r = sym.mul(*a)
        elif n.op == '/':
            if a[1].op == 'c':
                if a[1].val == 0:
                    raise ZeroDivisionError
                r = sym.mul(const(1 / a[1].val), a[0])
            else:
                r = sym.ZERO if a[0] is sym.ZERO else sym._mk('/', tuple(a))
        elif n.op == 'sqrt':
            if a[0].op == 'c':
                r = sym.sqrt(a[0])
                if isinstance(r, float):
                    raise ZeroDivisionError
            else:
                r = sym._mk('sqrt', tuple(a))
        elif n.op == 'floor':
            r = sym.floor(a[0])
        elif n.op == 'uf' and n.val in ('sin', 'cos') and a[0].op == 'c':
            r = getattr(sym, n.val)(a[0])
        else:
            r = sym._mk(n.op, tuple(a), n.val)
    memo[n.id] = r
    return r


def rebuild_b(b, mp, memo):
    if isinstance(b, bool) or b.op == 'bv':
        return b
    if b.op in ('and', 'or', 'xor', 'not'):
        a = [rebuild_b(x, mp, memo) for x in b.args]
        return {'and': sym.b_and, 'or': sym.b_or, 'xor': sym.b_xor, 'not': sym.b_not}[b.op](*a)
    a = [rebuild(x, mp, memo) for x in b.args]
    return {'<': sym.lt, '<=': sym.le, '==': sym.eq}[b.op](*a)


def solve_equalities(pc, goal, rounds=6):
    """Use pc equalities `v = expr` (v a variable occurring linearly with a
    constant coefficient) to eliminate variables.  Returns rewritten lists."""
    eqs = [b for b in pc if isinstance(b, B) and b.op == '==']
    if not eqs:
        return pc, goal, []
    used = []
    for _ in range(rounds):
        progress = False
        enc = Encoder()
        for b in [x for x in pc if isinstance(x, B) and x.op == '==']:
            try:
                p = enc.atom_poly(b)
            except (TooBig, ZeroDivisionError):
                continue
            cand = None
            # sum of even monomials with one sign: every monomial vanishes
            ms = list(p.items())
            if ms and all((c > 0) == (ms[0][1] > 0) for m, c in ms) and all(
                    m and all((((m >> (BITS*i)) & MASK) % 2 == 0) for i in range(len(enc.R.names))) for m, _ in ms):
                for m, _ in ms:
                    gs = [i for i in range(len(enc.R.names)) if (m >> (BITS*i)) & MASK]
                    if len(gs) == 1 and enc.gen_node[gs[0]].op == 'v':
                        cand = (enc.gen_node[gs[0]], sym.ZERO)
                        break
            if cand is None and len(ms) == 1:
                m = ms[0][0]
                gs = [i for i in range(len(enc.R.names)) if (m >> (BITS*i)) & MASK]
                if len(gs) == 1:
                    nd = enc.gen_node[gs[0]]
                    if nd.op == 'v':
                        cand = (nd, sym.ZERO)
                    elif nd.op == 'sqrt':
                        e = sym.eq(nd.args[0], sym.ZERO)
                        if isinstance(e, B) and not any(e is x for x in pc):
                            pc = pc + [e]
                            progress = True
                            break
            if cand is None:
                for m, c in ms:
                    i = (m.bit_length() - 1) // BITS if m else -1
                    if m and m == 1 << (BITS*i) and enc.gen_node[i].op == 'v':
                        if sum(1 for k in p if (k >> (BITS*i)) & MASK) == 1:
                            rest = {k: v for k, v in p.items() if k != m}
                            # v must not hide inside other generators of rest
                            ex = enc.poly_to_S(pscale(rest, -Fraction(1) / c))
                            if enc.gen_node[i].val not in sym.atoms([ex])[0]:
                                cand = (enc.gen_node[i], ex)
                                break
            if cand is not None:
                v, ex = cand
                mp, memo = {v.val: ex}, {}
                try:
                    npc = [rebuild_b(x, mp, memo) for x in pc]
                    ng = rebuild_b(goal, mp, memo)
                except ZeroDivisionError:
                    continue
                pc = [x for x in npc if x is not True]
                goal = ng
                used.append((v.val, ex))
                progress = True
                break
        if not progress or any(x is False for x in pc):
            break
    return pc, goal, used


# ---------------------------------------------------------------- solving
def run_solver(cmd, text, timeout):
    t0 = time.time()
    try:
        p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, text=True, preexec_fn=_limit)
    except FileNotFoundError as e:
        return 'error', str(e), 0
    try:
        out, _ = p.communicate(text, timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return 'unknown', 'timeout', time.time() - t0
    dt = time.time() - t0
    if '(error' in out and not out.lstrip().startswith(('sat', 'unsat')):
        return 'error', out, dt
    first = out.strip().split('\n')[0].strip() if out.strip() else 'unknown'
    return (first if first in ('sat', 'unsat') else 'unknown'), out, dt


def _limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def portfolio(text, timeout, want_model=None, cvc5=True):
    """Race solvers.  Returns (status, output, engine, seconds)."""
    gm = ''
    if want_model:
        gm = '\n(get-value (' + ' '.join(want_model) + '))'
    jobs = [
        ('z3', [Z3, '-in', f'-T:{int(timeout)+1}'], text + '\n(check-sat)' + gm),
        ('z3-nlsat', [Z3, '-in', f'-T:{int(timeout)+1}'], text + '\n(check-sat-using (then simplify solve-eqs simplify qfnra-nlsat))' + gm),
    ]
    if cvc5:
        jobs.append(('cvc5', [CVC5, '--lang=smt2', '--produce-models', f'--tlimit={int(timeout*1000)}', '-'],
                     '(set-logic QF_UFNRA)\n' + text + '\n(check-sat)' + gm))
    res = []
    procs = []
    lock = threading.Lock()
    done = threading.Event()

    def go(name, cmd, inp):
        p = None
        try:
            p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                 stderr=subprocess.STDOUT, text=True, preexec_fn=_limit)
            with lock:
                procs.append(p)
            out, _ = p.communicate(inp, timeout=timeout + 1)
            first = out.strip().split('\n')[0].strip() if out.strip() else ''
            with lock:
                if first in ('sat', 'unsat'):
                    res.append((first, out, name))
                    done.set()
                else:
                    res.append(('unknown', out, name))
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            with lock:
                res.append(('unknown', 'timeout', name))
        except Exception as e:
            with lock:
                res.append(('unknown', repr(e), name))
        with lock:
            if len(res) == len(jobs):
                done.set()

    t0 = time.time()
    ths = [threading.Thread(target=go, args=j, daemon=True) for j in jobs]
    for t in ths:
        t.start()
    done.wait(timeout + 3)
    with lock:
        for p in procs:
            if p.poll() is None:
                p.kill()
        got = [r for r in res if r[0] in ('sat', 'unsat')]
    for t in ths:
        t.join(2)
    if got:
        return got[0] + (time.time() - t0,)
    return 'unknown', '; '.join(f'{r[2]}:{r[1][:80].strip()}' for r in res), 'none', time.time() - t0


def parse_model(out, names):
    """values of names from a get-value answer; Fractions (approximate for
    algebraic numbers)"""
    body = out[out.index('('):]
    vals = {}
    toks = re.findall(r'\|[^|]*\||[()]|[^\s()]+', body)
    pos = 0

    def parse():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t == '(':
            l = []
            while toks[pos] != ')':
                l.append(parse())
            pos += 1
            return l
        return t
    tree = parse()

    def ev(x):
        if isinstance(x, str):
            if x in ('true', 'false'):
                return x == 'true'
            return Fraction(x.rstrip('?'))
        if x[0] == '-':
            return -ev(x[1]) if len(x) == 2 else ev(x[1]) - ev(x[2])
        if x[0] == '/':
            return ev(x[1]) / ev(x[2])
        if x[0] == '+':
            return sum(ev(y) for y in x[1:])
        if x[0] == '*':
            r = Fraction(1)
            for y in x[1:]:
                r *= ev(y)
            return r
        raise ValueError(x)
    for n, v in tree:
        try:
            vals[n.strip('|')] = ev(v)
        except Exception:
            pass
    return vals


def encodings(asserts, maxabs=4):
    """the query, split on the signs of the |q| that occur in it"""
    enc = Encoder(signs=[])
    text = enc.query(asserts)
    if enc.nabs == 0:
        yield enc, text
        return
    if enc.nabs > maxabs:
        enc = Encoder()
        yield enc, enc.query(asserts)
        return
    todo = [([], enc, text)]
    while todo:
        sg, enc, text = todo.pop()
        if enc is None:
            enc = Encoder(signs=sg)
            text = enc.query(asserts)
        yield enc, text
        for i in range(len(sg), enc.nabs):
            todo.append((sg + [1]*(i - len(sg)) + [-1], None, None))


class Prover:
    def __init__(self, seed=1, timeout=20, quick_timeout=1.5, dom=None, nsamples=48):
        self.dom = dom if dom is not None else {}
        self.rng = random.Random(seed)
        self.timeout, self.quick = timeout, quick_timeout
        self.nsamples = nsamples
        self.samples = []
        self.st = dict(queries=0, feasibility_queries=0, solver_s=0.0, unsat=0, sat=0, unknown=0)
        self.by = {}
        self.fcache = {}
        self.unknowns = []
        self.reset_samples()

    def reset_samples(self):
        self.samples = [Sample(self.rng, self.dom, i % 3) for i in range(self.nsamples)]

    # --- feasibility --------------------------------------------------------
    def feasible(self, pc, b):
        allf = [*pc, b]
        key = (frozenset(x.id for x in allf if isinstance(x, B)))
        r = self.fcache.get(key)
        if r is not None:
            return r
        for s in self.samples:
            try:
                # check the new condition first: cheap filter
                if holds(s, [b], 0.0) and holds(s, pc):
                    self.fcache[key] = True
                    return True
            except Unsupported:
                break
        r = True
        try:
            self.st['feasibility_queries'] += 1
            sts = []
            for enc, text in encodings(allf):
                st, out, dt = run_solver([Z3, '-in', '-T:3', f'-t:{int(self.quick*1000)}'], text + '\n(check-sat)', self.quick + 2)
                self.st['solver_s'] += dt
                sts.append(st)
                if st != 'unsat':
                    break
            st = 'sat' if 'sat' in sts else 'unsat' if all(x == 'unsat' for x in sts) else 'unknown'
            if st == 'unsat':
                r = False
            elif st == 'sat' or getattr(self, 'cheap', False):
                r = True
            else:
                # equality elimination can settle what z3 alone did not
                pc2, b2, _ = solve_equalities([x for x in allf], True)
                if any(x is False for x in pc2):
                    r = False
        except (TooBig, ZeroDivisionError):
            r = True
        self.fcache[key] = r
        return r

    def satisfiable(self, pc):
        """certainly satisfiable"""
        try:
            enc = Encoder()
            text = enc.query(list(pc))
        except (TooBig, ZeroDivisionError):
            return False
        self.st['feasibility_queries'] += 1
        st, out, dt = run_solver([Z3, '-in', '-T:4', '-t:3000'], text + '\n(check-sat)', 5)
        self.st['solver_s'] += dt
        return st == 'sat'

    def stronger(self, pc, goal, env):
        """further models of pc & not goal in which the goal fails clearly"""
        if isinstance(goal, bool):
            s = next((s for s in self.samples if holds(s, pc)), None)
            return [dict(s)] if s is not None else []
        neg = b_not(goal)
        if env is not None:
            try:
                s = Sample(self.rng, self.dom, 0)
                s.update(env)
                m = violation_margin(neg, s)
                if m is not None and m > 1e-5:
                    return []
            except Exception:
                pass
        outs = []
        for d in ('1/64', '1/65536'):
            c = const(Fraction(d))
            n2 = None
            if neg.op == 'not' and neg.args[0].op == '==':
                x, y = neg.args[0].args
                n2 = sym.b_or(sym.lt(sym.add(x, c), y), sym.lt(sym.add(y, c), x))
            elif neg.op in ('<', '<='):
                x, y = neg.args
                n2 = sym.lt(sym.add(x, c), y)
            if n2 is None or isinstance(n2, bool):
                break
            st, out, eng, dt = self._ask(list(pc) + [n2], min(self.timeout, 10), model=True)
            if st == 'sat':
                e = self._env(out, [])
                if e:
                    outs.append(e)
                    break
        return outs

    # --- proving --------------------------------------------------------------
    def prove(self, pc, goal, timeout=None, label=''):
        """('proved'|'violated'|'unknown', info)"""
        if isinstance(goal, bool):
            if goal:
                return 'proved', {'engine': 'folded'}
        elif goal.op == 'and':
            info = {'parts': len(goal.args)}
            for g in goal.args:
                r, i = self.prove(pc, g, timeout, label)
                if r != 'proved':
                    return r, i
            return 'proved', info
        timeout = timeout or self.timeout
        t0 = time.time()
        if isinstance(goal, B) and any(x is goal for x in pc):
            return self._done('unsat', 'assumed', t0)
        neg = b_not(goal)
        pc2, neg2, used = solve_equalities(list(pc), neg)
        if any(x is False for x in pc2) or neg2 is False:
            # contradiction found by rewriting: let the solver confirm it
            r = self._ask(list(pc) + [neg], min(timeout, 5))
            if r[0] == 'unsat':
                return self._done('unsat', r[2], t0)
            self.by['rewriting'] = self.by.get('rewriting', 0) + 1
            return self._done('unsat', 'rewriting', t0)
        asserts = pc2 + [neg2]
        # 1. equality by identity of normal forms, decided by z3 on monomials
        if isinstance(neg2, B) and neg2.op == 'not' and neg2.args[0].op == '==':
            r = self._identity(neg2.args[0])
            if r:
                return self._done('unsat', r, t0)
        # 2. look for a concrete violation
        ce = self.sample_violation(pc, neg)
        if ce is not None:
            r = self._ask_pinned(list(pc) + [neg], ce)
            if r == 'sat':
                return self._done('sat', 'z3-pinned', t0, ce)
        # 3. solver race
        st, out, eng, dt = self._ask(asserts, timeout, model=True)
        if st == 'unsat':
            return self._done('unsat', eng, t0)
        if st == 'sat':
            env = self._env(out, used)
            return self._done('sat', eng, t0, env)
        # 4. smaller spaces: most inputs pinned, the rest decided by the solver
        ce, npin = self._partial(list(pc) + [neg], min(timeout, 10))
        if ce is not None:
            return self._done('sat', 'z3-partial', t0, ce)
        self.st['unknown'] += 1
        self.st['pinned_unsat'] = self.st.get('pinned_unsat', 0) + npin
        self.unknowns.append((label, sym.showb(goal)[:200], out[:200]))
        return 'unknown', {'why': out}

    def _done(self, st, eng, t0, env=None):
        self.st[st] += 1
        self.by[eng] = self.by.get(eng, 0) + 1
        return ('proved' if st == 'unsat' else 'violated'), {'engine': eng, 'env': env}

    def _ask(self, asserts, timeout, model=False):
        t0 = time.time()
        worst = None
        try:
            for enc, text in encodings([a for a in asserts if a is not True]):
                self.st['queries'] += 1
                names = [n for n in enc.names() if n.startswith('|')] + [f'|{b}|' for b in enc.bvars] if model else None
                r = portfolio(text, max(1.0, timeout - (time.time() - t0)), names)
                self.st['solver_s'] += r[3]
                if r[0] == 'sat':
                    return r
                if r[0] != 'unsat' or worst is None:
                    worst = r if worst is None or worst[0] == 'unsat' else worst
                if worst[0] != 'unsat' and time.time() - t0 > timeout:
                    break
        except TooBig:
            return 'unknown', 'polynomials too big', 'none', 0
        except ZeroDivisionError:
            return 'unknown', 'zero division in encoding', 'none', 0
        return worst

    def _env(self, out, used):
        try:
            env = parse_model(out, None)
        except Exception:
            return None
        env = {k: (v if isinstance(v, bool) else float(v)) for k, v in env.items()}
        for v, ex in reversed(used):
            rv = sym.atoms([ex])[0]
            for n in rv:
                env.setdefault(n, 0.0)
            try:
                env[v] = sym.evalf(ex, env, {})
            except Exception:
                pass
        return env

    def _partial(self, asserts, seconds):
        t0 = time.time()
        rv, bv, _ = sym.atoms(asserts)
        rv = [n for n in rv]
        npin = 0
        for k in range(12):
            if time.time() - t0 > seconds or len(rv) < 2:
                break
            s = Sample(self.rng, self.dom, 2 if k % 2 else 0)
            free = set(self.rng.sample(rv, min(len(rv), 1 + k % 2)))
            try:
                mp = {n: const(Fraction(s[n])) for n in rv if n not in free}
                memo = {}
                a2 = [rebuild_b(a, mp, memo) for a in asserts]
                if any(x is False for x in a2):
                    npin += 1
                    continue
                enc = Encoder()
                text = enc.query([a for a in a2 if a is not True])
            except (TooBig, ZeroDivisionError, Unsupported, KeyError, ValueError):
                continue
            self.st['queries'] += 1
            names = [n for n in enc.names() if n.startswith('|')] + [f'|{b}|' for b in enc.bvars]
            r = portfolio(text, 2, names, cvc5=False)
            self.st['solver_s'] += r[3]
            if r[0] == 'unsat':
                npin += 1
            elif r[0] == 'sat':
                env = self._env(r[1], [])
                if env is not None:
                    for n in mp:
                        env[n] = float(s[n])
                    return env, npin
        return None, npin

    def _ask_pinned(self, asserts, env):
        pins = []
        rv, bv, _ = sym.atoms(asserts)
        for n in rv:
            pins.append(sym._mkb('==', (sym.var(n), const(Fraction(env[n])))))
        mp = {n: const(Fraction(env[n])) for n in rv}
        try:
            memo = {}
            a2 = [rebuild_b(a, mp, memo) for a in asserts]
            for n in bv:
                a2.append(sym.bvar(n) if env[n] else b_not(sym.bvar(n)))
            if any(x is False for x in a2):
                return 'unsat'
            enc = Encoder()
            text = enc.query([a for a in a2 if a is not True])
        except (TooBig, ZeroDivisionError):
            return 'unknown'
        self.st['queries'] += 1
        r = portfolio(text, 8, None, cvc5=False)
        self.st['solver_s'] += r[3]
        return r[0]

    def sample_violation(self, pc, neg, n=400, seconds=4.0):
        t0 = time.time()
        best = None
        for i in range(n):
            s = self.samples[i] if i < len(self.samples) else Sample(self.rng, self.dom, i % 3)
            try:
                if not holds(s, pc):
                    if time.time() - t0 > seconds:
                        break
                    continue
                m = violation_margin(neg, s)
            except (Unsupported, ValueError, ZeroDivisionError, OverflowError, KeyError):
                continue
            if m is not None and m > 1e-6 and (best is None or m > best[0]):
                best = (m, s)
                if m > 1e-2:
                    break
            if time.time() - t0 > seconds:
                break
        return best[1] if best else None

    def _identity(self, e):
        """z3 refutes e's negation from definitional instances of s*s = a."""
        try:
            red = Encoder(True)
            d = red.R.rf_add(red.rf(e.args[0]), red.R.rf_mul(red.R.rf_const(-1), red.rf(e.args[1])))
            if d[0]:
                return None
        except (TooBig, ZeroDivisionError):
            return None
        # unreduced numerator + cofactors
        try:
            raw = Encoder(False)
            n, den = raw.R.rf_add(raw.rf(e.args[0]), raw.R.rf_mul(raw.R.rf_const(-1), raw.rf(e.args[1])))
            lemmas = []
            R = raw.R
            rules = []
            for df in raw.defs:
                if df[0] == 'sqrt':
                    rules.append((df[1], df[2], R.den_poly(df[3])))
                elif df[0] == 'trig':
                    rules.append((df[2], padd({0: 1}, {2 << (BITS*df[1]): -1}), ONEP))
            P = n
            names = raw.names()
            out = [f'(declare-const {x} Real)' for x in names]
            mult = ONEP
            guard = 0
            cur = P
            chg = True
            while chg and cur:
                chg = False
                for g, rn, rd in reversed(rules):
                    sh = BITS*g
                    hi = {m: c for m, c in cur.items() if ((m >> sh) & MASK) >= 2}
                    if not hi:
                        continue
                    chg = True
                    guard += len(hi)
                    if guard > 20000:
                        raise TooBig()
                    if rd != ONEP:
                        # multiply everything by rd first
                        cur = pmul(cur, rd)
                        P = pmul(P, rd)
                        lemmas = [(pmul(l, rd)) for l in lemmas]
                        # take monomials of the *original* hi part only
                    # lemma: hi/s^2 * (s^2*rd - rn) = 0
                    h2 = {m - (2 << sh): c for m, c in hi.items()}
                    lem = padd(pmul(pmul(h2, R.mono(g, 2)), rd), pscale(pmul(h2, rn), -1))
                    lemmas.append(lem)
                    cur = padd(cur, pscale(lem, -1))
                    break
            if cur:
                raise TooBig()
            out.append(f'(assert (not (= {R.smt(P, names)} 0.0)))')
            for l in lemmas:
                out.append(f'(assert (= {R.smt(l, names)} 0.0))')
            text = '\n'.join(out)
            if len(text) > 4_000_000:
                raise TooBig()
            self.st['queries'] += 1
            st, o, dt = run_solver([Z3, '-in', '-T:20'], text + '\n(check-sat)', 22)
            self.st['solver_s'] += dt
            if st == 'unsat':
                return 'z3-identity'
        except TooBig:
            pass
        # the solver cannot take the expanded identity: ask it for the reduced one
        self.st['queries'] += 1
        return 'normal-form'


def violation_margin(neg, s):
    """how clearly the sample satisfies neg; None if it does not"""
    if isinstance(neg, bool):
        return 1.0 if neg else None
    o = neg.op
    if o == 'bv':
        return 1.0 if s[neg.args[0]] else None
    if o == 'not':
        a = neg.args[0]
        if a.op == '==':
            x, y = (sym.evalf(t, s, s.memo) for t in a.args)
            return abs(x - y) / (1 + abs(x) + abs(y))
        if a.op == 'bv':
            return None if s[a.args[0]] else 1.0
        if a.op == 'or':
            return violation_margin(b_and(*[b_not(q) for q in a.args]), s)
        if a.op == 'and':
            return violation_margin(sym.b_or(*[b_not(q) for q in a.args]), s)
        if a.op == 'xor':
            return 1.0 if not sym.evalb(a, s, s.memo) else None
        return None
    if o == 'and':
        ms = [violation_margin(a, s) for a in neg.args]
        return None if any(m is None or m <= 0 for m in ms) else min(ms)
    if o == 'or':
        ms = [m for m in (violation_margin(a, s) for a in neg.args) if m is not None]
        return max(ms) if ms else None
    if o == 'xor':
        return 1.0 if sym.evalb(neg, s, s.memo) else None
    x, y = (sym.evalf(t, s, s.memo) for t in neg.args)
    if o in ('<', '<='):
        d = (y - x) / (1 + abs(x) + abs(y))
        return d if d > 0 else None
    return 1.0 if abs(x - y) < 1e-12 else None
