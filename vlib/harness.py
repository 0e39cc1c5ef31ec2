"""Harness functions: the same Python function is run symbolically (deciding
the property) and concretely against the real build (replaying a model)."""
import importlib, itertools, math, os, sys, time, traceback
from fractions import Fraction

from . import sym
from .sym import S, B, SC, lift, PathAbort, Fault, Unsupported

REG = {}          # check id -> list of Harness


class Harness:
    def __init__(self, check, fn, **kw):
        self.check, self.fn = check, fn
        self.name = kw.pop('name', None) or fn.__name__
        self.configs = kw.pop('configs', [None])      # quick-tier configurations
        self.thorough = kw.pop('thorough', [])        # extra configurations
        self.tier = kw.pop('tier', 'quick')
        self.time = kw.pop('time', 60)
        self.paths = kw.pop('paths', 400)
        self.timeout = kw.pop('timeout', 10)          # per obligation
        self.quick_timeout = kw.pop('quick_timeout', 1.0)
        self.depth = kw.pop('depth', 400)
        self.int_range = kw.pop('int_range', range(-2, 12))
        self.finding = kw.pop('finding', None)        # expected to fail while listed
        self.feas = kw.pop('feas', True)
        self.bound = kw.pop('bound', '')
        self.asan = kw.pop('asan', False)
        self.omp = kw.pop('omp', False)
        assert not kw, kw


def harness(check, **kw):
    def deco(fn):
        REG.setdefault(check, []).append(Harness(check, fn, **kw))
        return fn
    return deco


def load(check):
    importlib.import_module('checks.' + check.lower())
    return REG[check]


def find(check, name):
    for h in load(check):
        if h.name == name:
            return h
    raise KeyError(name)


class AssumeFailed(Exception):
    pass


# ------------------------------------------------------------------ shared
class HBase:
    def __init__(self, cfg, known):
        self.cfg = cfg
        self._known = set(known)

    def known(self, fid):
        return fid in self._known

    def zernike_basis(self, *a, **kw):
        """galsim's basis (its stand-in in symbolic runs)"""
        if self.symbolic:
            from . import symgalsim
            return symgalsim.zernikeBasis(*a, **kw)
        import galsim.zernike
        return galsim.zernike.zernikeBasis(*a, **kw)

    def exact_roots(self):
        """Zernike basis functions carry exact square roots from here on"""
        if self.symbolic:
            sym.CTX.roots = True

    def numeric(self):
        """round irrational constants to doubles from here on (compare with tolerances)"""
        if self.symbolic:
            sym.CTX.numeric = True

    def vec(self, name, n=3, lo=None, hi=None, **kw):
        return [self.real(f'{name}{i}', lo, hi, **kw) for i in range(n)]

    def unit(self, name, lo=-3, hi=3, flip=False):
        """every unit vector except one pole (both with flip)"""
        a, b = self.real(name + '.a', lo, hi), self.real(name + '.b', lo, hi)
        n = 1 + a*a + b*b
        z = (1 - a*a - b*b)/n
        if flip and self.bool(name + '.flip'):
            z = -z
        return [2*a/n, 2*b/n, z]

    def rot(self, name, lo=-2, hi=2, half=False):
        """every rotation matrix (half turns only with half=True)"""
        w = 1
        if half and self.bool(name + '.half'):
            w = 0
        a, b, c = (self.real(f'{name}.{k}', lo, hi) for k in 'abc')
        if w == 0:
            self.assume(a*a + b*b + c*c > 0)
        n = w + a*a + b*b + c*c
        m = [[w + a*a - b*b - c*c, 2*(a*b - w*c), 2*(a*c + w*b)],
             [2*(a*b + w*c), w - a*a + b*b - c*c, 2*(b*c - w*a)],
             [2*(a*c - w*b), 2*(b*c + w*a), w - a*a - b*b + c*c]]
        return self.arr([[e/n for e in r] for r in m])

    def arr(self, x):
        return self.np.array(x, dtype=float)

    def raises(self, fn, exc, label):
        try:
            fn()
        except Unsupported:
            raise
        except exc:
            self.check(True, label)
            return
        except Exception as e:
            self.check(False, label + f': raised {type(e).__name__}')
            return
        self.check(False, label + ': no error raised')

    def race_free(self, label='no data race'):
        """no two threads of any parallel region so far conflict (real runs: ThreadSanitizer decides)"""
        if self.symbolic:
            r = self.W.interp.races
            self.check(not r, label + ' (race)' + (': ' + r[0] if r else ''))

    def team(self, b, n):
        """parallel regions run with n threads from here on"""
        if self.symbolic:
            self.W.interp.size = n
        else:
            b.global_vars._batoid_max_threads = n

    def lifetimes(self):
        """from here on memory of dropped objects is gone"""
        if self.symbolic:
            self.W.life = True

    def strict(self):
        """from here on numbers converted to integers have to fit"""
        if self.symbolic:
            self.W.interp.strict = True

    def churn(self):
        """reuse whatever memory has been given back"""
        import gc
        gc.collect()
        if not self.symbolic:
            import numpy as np
            self._junk = [np.full(n, 7e77) for n in range(1, 65) for _ in range(12)]

    def dot(self, a, b):
        return sum(x*y for x, y in zip(list(a), list(b)))


def flat(x):
    """nested numbers -> flat list"""
    import numpy as np
    if isinstance(x, np.ndarray):
        x = x.view(np.ndarray)
        return list(x.ravel())
    if isinstance(x, (list, tuple)):
        r = []
        for y in x:
            r += flat(y)
        return r
    return [x]


def shape_of(x):
    import numpy as np
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, (list, tuple)):
        return (len(x), *shape_of(x[0])) if len(x) else (0,)
    return ()


# ------------------------------------------------------------------ symbolic
class SymH(HBase):
    symbolic = True

    def __init__(self, cfg, known, ctx, world, prover):
        super().__init__(cfg, known)
        from .npshim import NP
        self.np, self.ctx, self.W, self.P = NP, ctx, world, prover
        self.obls = []
        self.names = []

    def real(self, name, lo=None, hi=None, gen=None):
        v = sym.var(name)
        if gen is not None:
            self.P.dom[name] = gen
        elif lo is not None or hi is not None:
            l = -8 if lo is None else lo
            self.P.dom[name] = (l, hi if hi is not None else l + 8)
        if lo is not None:
            self.ctx.assume(sym.le(sym.const(lo), v))
        if hi is not None:
            self.ctx.assume(sym.le(v, sym.const(hi)))
        return v

    def bool(self, name):
        return self.ctx.choose('b!' + name)

    def sbool(self, name):
        """boolean that does not fork when created"""
        return sym.bvar('b!' + name)

    def choice(self, name, n):
        for i in range(n - 1):
            if self.ctx.choose(f'b!{name}={i}'):
                return i
        return n - 1

    def assume(self, c):
        if isinstance(c, S):
            c = sym.b_not(sym.eq(c, sym.ZERO))
        if not isinstance(c, B):
            c = bool(c)
        self.ctx.assume(c)

    def check(self, c, label):
        if not isinstance(c, B):
            c = bool(c)
        self.obls.append((len(self.ctx.pc), c, label))

    def eq(self, a, b, label, tol=1e-7, scale=1.0):
        if isinstance(a, (str, bytes, type(None), bool, set, frozenset, dict)) or isinstance(b, (str, bytes, type(None), bool)):
            return self.check(a == b, label)
        fa, fb = flat(a), flat(b)
        if len(fa) != len(fb):
            if len(fb) == 1:
                fb = fb*len(fa)
            elif len(fa) == 1:
                fa = fa*len(fb)
            else:
                return self.check(False, label + f': sizes {len(fa)} vs {len(fb)}')
        for k, (x, y) in enumerate(zip(fa, fb)):
            l = label if len(fa) == 1 else f'{label}[{k}]'
            if isinstance(x, (SC, complex)) or isinstance(y, (SC, complex)):
                x, y = SC.of(x), SC.of(y)
                self.check(sym.same(x.re, y.re), l + '.re')
                self.check(sym.same(x.im, y.im), l + '.im')
                continue
            lx, ly = lift(x), lift(y)
            if lx is None or ly is None:
                self.check(x == y, l)
            else:
                self.check(sym.same(lx, ly), l)

    def le(self, a, b, label, tol=1e-7):
        self.check(sym.le(lift(a), lift(b)), label)

    def lt(self, a, b, label, tol=1e-7):
        self.check(sym.lt(lift(a), lift(b)), label)

    def le_(self, a, b): return sym.le(lift(a), lift(b))
    def lt_(self, a, b): return sym.lt(lift(a), lift(b))
    def both(self, *c): return sym.b_and(*[x if isinstance(x, B) else bool(x) for x in c])
    def either(self, *c): return sym.b_or(*[x if isinstance(x, B) else bool(x) for x in c])
    def neg(self, c): return sym.b_not(c) if isinstance(c, B) else not c
    def iff(self, a, b): return sym.b_iff(a if isinstance(a, B) else bool(a), b if isinstance(b, B) else bool(b))
    def implies(self, a, b): return sym.b_implies(a if isinstance(a, B) else bool(a), b if isinstance(b, B) else bool(b))
    def same(self, a, b): return sym.same(lift(a), lift(b))

    def grad(self, f, *xs):
        """partial derivatives of f at (xs): exact, of the term f computes"""
        t = lift(f(*xs))
        return [t if isinstance(t, float) else sym.diff(t, x) for x in xs]

    def holds(self, c):
        """is c implied here? (no fork); used only to choose what to state"""
        return bool(c)

    def isnan(self, x):
        x = lift(x)
        return isinstance(x, float) and x != x

    def isinf(self, x):
        return lift(x) in (sym.INF, -sym.INF) if isinstance(lift(x), float) else False


# ------------------------------------------------------------------ concrete
class RealH(HBase):
    symbolic = False

    def __init__(self, cfg, known, env):
        super().__init__(cfg, known)
        import numpy
        self.np = numpy
        self.env = env
        self.failed = []
        self.passed = 0

    def real(self, name, lo=None, hi=None, gen=None):
        v = float(self.env.get(name, lo if lo is not None else 0.0))
        if lo is not None and v < lo:
            v = float(lo)
        if hi is not None and v > hi:
            v = float(hi)
        return v

    def bool(self, name):
        return bool(self.env.get('b!' + name, False))

    sbool = bool

    def choice(self, name, n):
        for i in range(n - 1):
            if self.env.get(f'b!{name}={i}'):
                return i
        return n - 1

    def assume(self, c):
        if not bool(c):
            raise AssumeFailed()

    def check(self, c, label):
        if bool(c):
            self.passed += 1
        else:
            self.failed.append(label)

    def eq(self, a, b, label, tol=1e-7, scale=1.0):
        if isinstance(a, (str, bytes, type(None), bool, set, frozenset, dict)) or isinstance(b, (str, bytes, type(None), bool)):
            return self.check(a == b, label)
        fa, fb = flat(a), flat(b)
        if len(fa) != len(fb):
            if len(fb) == 1:
                fb = fb*len(fa)
            elif len(fa) == 1:
                fa = fa*len(fb)
            else:
                return self.check(False, label + f': sizes {len(fa)} vs {len(fb)}')
        for k, (x, y) in enumerate(zip(fa, fb)):
            l = label if len(fa) == 1 else f'{label}[{k}]'
            self.check(close(x, y, tol, scale), l)

    def le(self, a, b, label, tol=1e-7):
        self.check(a <= b + tol*(1 + abs(b)), label)

    def lt(self, a, b, label, tol=1e-7):
        self.check(a < b + tol*(1 + abs(b)), label)

    def le_(self, a, b): return a <= b + 1e-7*(1 + abs(b))
    def lt_(self, a, b): return a < b + 1e-7*(1 + abs(b))
    def both(self, *c): return all(bool(x) for x in c)
    def either(self, *c): return any(bool(x) for x in c)
    def neg(self, c): return not c
    def iff(self, a, b): return bool(a) == bool(b)
    def implies(self, a, b): return (not a) or bool(b)
    def same(self, a, b): return close(a, b, 1e-9, 1.0)
    def holds(self, c): return bool(c)
    def isnan(self, x): return x != x
    def isinf(self, x): return abs(x) == math.inf

    def grad(self, f, *xs):
        out = []
        for i, x in enumerate(xs):
            e = 1e-5*(1 + abs(x))
            hi, lo = list(xs), list(xs)
            hi[i] += e
            lo[i] -= e
            out.append((f(*hi) - f(*lo))/(2*e))
        return out


def close(x, y, tol, scale):
    import numpy as np
    if isinstance(x, (int, float, complex, np.number, np.bool_)) and isinstance(y, (int, float, complex, np.number, np.bool_)):
        if x != x or y != y:
            return x != x and y != y
        if abs(x) == math.inf or abs(y) == math.inf:
            return x == y
        return abs(x - y) <= tol*(scale + abs(x) + abs(y))
    return x == y


def run_real(h, cfg, env, pkg, known):
    r = RealH(cfg, known, env)
    try:
        h.fn(r, pkg)
    except AssumeFailed:
        if not r.failed:
            return {'status': 'assume', 'passed': r.passed}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        return {'status': 'exception', 'exc': f'{type(e).__name__}: {e}'[:300],
                'at': [f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb][-4:], 'failed': r.failed}
    if r.failed:
        return {'status': 'failed', 'failed': r.failed[:20]}
    return {'status': 'passed', 'passed': r.passed}


# ------------------------------------------------------------------ driver
def run_symbolic(h, cfg, world, pkg, known, seed=1, deadline=None, scale=1.0, log=None):
    """Explore every path of the harness and discharge its obligations."""
    from .prove import Prover
    P = Prover(seed=seed, timeout=h.timeout*scale, quick_timeout=h.quick_timeout, dom={})
    if not h.feas:
        P.feasible = lambda pc, b: True
    P.cheap = h.feas == 'cheap'
    ex = sym.Explorer(P, max_paths=h.paths, max_depth=h.depth, int_range=h.int_range)
    t0 = time.time()
    limit = t0 + h.time*scale
    if deadline:
        limit = min(limit, deadline)
    out = dict(harness=h.name, cfg=cfg, paths=0, aborted=0, obligations=0, proved=0, violated=[], unknown=[],
               unsupported=[], labels={}, witnessed=0, functions=set(), python=set(), complete=False)
    prof = []

    def tracer(frame, event, arg):
        if event == 'call':
            f = frame.f_code
            k = f.co_filename.find('/batoid/')
            if k >= 0 and '/vlib/' not in f.co_filename:
                out['python'].add(f.co_filename[k+1:] + ':' + f.co_qualname)

    def body(ctx):
        world.new_path()
        H = SymH(cfg, known, ctx, world, P)
        first = out['paths'] < 3
        if first:
            sys.setprofile(tracer)
        try:
            h.fn(H, pkg)
        except Unsupported as e:
            tb = traceback.extract_tb(e.__traceback__)
            out['unsupported'].append(f'{e} @ ' + ' < '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in reversed(tb[-4:])))
            H.partial = True
        except Fault as e:
            H.obls.append((len(ctx.pc), False, f'memory/UB: {e.kind}: {e.detail}'))
            H.fault = True
        except PathAbort:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            H.obls.append((len(ctx.pc), False, f'exception {type(e).__name__}: {e} @ ' +
                           ' < '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in reversed(tb[-4:]))))
        finally:
            if first:
                sys.setprofile(None)
        out['functions'] |= set(world.interp.called)
        return H
    try:
        P.limit = limit
        for ctx, H, fault in ex.run(body):
            out['paths'] += 1
            if H is None:
                out['unsupported'].append(f'fault outside harness: {fault}')
                continue
            old, sym.CTX = sym.CTX, ctx
            try:
                discharge(P, ctx, H, out, limit)
            finally:
                sym.CTX = old
            if log:
                log(f'  path {out["paths"]}: {len(H.obls)} obligations, pc {len(ctx.pc)}  {time.time()-t0:.1f}s')
            if time.time() > limit:
                out['unsupported'].append('time limit')
                break
            if len(out['violated']) >= 12:
                break
        else:
            out['complete'] = not out['unsupported'] and not out['unknown']
    except Unsupported as e:
        out['unsupported'].append(str(e))
    out['aborted'] = ex.aborted
    out['stats'] = P.st
    out['by'] = P.by
    out['wall'] = round(time.time() - t0, 2)
    dm = world.module
    out['functions'] = sorted(demangle(dm, out['functions']))
    out['python'] = sorted(out['python'])
    out['vars'] = sorted(P.dom)
    return out


def demangle(module, names):
    from .llvmir import demangle as dg
    names = [n.split(':')[-1] for n in names]
    d = dg(names)
    r = set()
    for n in names:
        s = d.get(n, n) if isinstance(d, dict) else n
        if 'batoid::' in s and 'pyExport' not in s:
            r.add(s.split('(')[0] if not s.startswith('(') else s)
    return r


def pc_env(pc, env):
    for b in pc:
        if b.op == 'bv':
            env[b.args[0]] = True
        elif b.op == 'not' and b.args[0].op == 'bv':
            env[b.args[0].args[0]] = False
    return env


def discharge(P, ctx, H, out, limit):
    from .prove import holds
    seen = set()
    for npc, goal, label in H.obls:
        pc = ctx.pc[:npc]
        key = (npc, goal if isinstance(goal, bool) else goal.id, label if isinstance(goal, bool) else '')
        if key in seen:
            continue
        seen.add(key)
        out['obligations'] += 1
        base = label.split('[')[0]
        lb = out['labels'].setdefault(base, [0, 0, 0])       # proved, total, witnessed
        lb[1] += 1
        if lb[2] == 0 or out['witnessed'] == 0:
            if any(holds(s, pc) for s in P.samples):
                lb[2] += 1
                out['witnessed'] += 1
            elif lb[1] <= 3 and P.satisfiable(pc):
                lb[2] += 1
                out['witnessed'] += 1
        if goal is True:
            out['proved'] += 1
            lb[0] += 1
            P.by['folded'] = P.by.get('folded', 0) + 1
            continue
        if time.time() > limit:
            out['unknown'].append((label, 'time limit'))
            continue
        r, info = P.prove(pc, goal, label=label, timeout=min(P.timeout, max(1.0, limit - time.time())))
        if r == 'proved':
            out['proved'] += 1
            lb[0] += 1
        elif r == 'violated':
            envs = [e for e in (info.get('env'),) if e is not None]
            envs += P.stronger(pc, goal, envs[0] if envs else None)
            out['violated'].append(dict(label=label, envs=[pc_env(ctx.pc[:npc], {k: v for k, v in e.items()}) for e in envs] or
                                        [pc_env(ctx.pc[:npc], {})],
                                        engine=info.get('engine'), fault=getattr(H, 'fault', False),
                                        goal=(sym.showb(goal)[:300] if isinstance(goal, B) else str(goal))))
        else:
            out['unknown'].append((label, str(info.get('why', ''))[:120]))
