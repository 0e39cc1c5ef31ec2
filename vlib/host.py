"""Symbolic world: the package's Python source run against compiler IR.

World.load(repo) compiles src/*.cpp and pysrc/*.cpp to LLVM IR (pysrc against
the recording pybind11 stand-in), executes the module initialiser to learn
what is exported under which name, and imports /repo/batoid with numpy and
_batoid replaced, so that every call goes through the current sources.
"""
import importlib, importlib.abc, importlib.machinery, importlib.util
import os, sys, types
import numpy as _np
from . import sym, llvmir, npshim
from .sym import S, B, SC, lift, Fault, Unsupported
from .llvmir import Interp, Module, HostBuf, DBL, INT, PTR
from .npshim import NP, MATH, SymArray, Ptr, base, symfloat

CLANG = next((p for p in ('/usr/bin/clang++', '/usr/lib/llvm-18/bin/clang++') if os.path.exists(p)), 'clang++')
HERE = os.path.dirname(os.path.abspath(__file__))
I64, I32, I8 = INT(64), INT(32), INT(8)


class ComplexBuf:
    """object array of SC seen as pairs of doubles"""
    def __init__(self, arr1d, name):
        self.a, self.name = arr1d, name
        self.it = 8
        self.size = 16*len(arr1d)
        self.base = None
        self.freed = False
        self.ro = False

    def load(self, off, size, ty):
        v = SC.of(self.a[off // 16])
        return v.im if off % 16 else v.re

    def store(self, off, size, v):
        o = SC.of(self.a[off // 16])
        self.a[off // 16] = SC(o.re, v) if off % 16 else SC(v, o.im)


class IntBuf(HostBuf):
    """integer array read through a double pointer: bits reinterpreted"""
    def load(self, off, size, ty):
        import struct
        v = int(self.a[off // self.it])
        if ty.k == 'd':
            return lift(struct.unpack('<d', struct.pack('<q', v))[0])
        return v


class World:
    def __init__(self):
        self.reg = {}          # (cls, name) -> entry
        self.classes = {}
        self.bases = {}
        self.members = {}
        self.interp = None
        self.py = {}
        self.epoch = 0
        self.life = False
        self.pyfuncs = {}

    # --- IR ------------------------------------------------------------------
    def load_ir(self, repo, extra=()):
        m = Module()
        m.openmp = '-fopenmp' in extra
        srcs = sorted(f for f in os.listdir(os.path.join(repo, 'src')) if f.endswith('.cpp'))
        psrcs = sorted(f for f in os.listdir(os.path.join(repo, 'pysrc')) if f.endswith('.cpp'))
        jobs = [os.path.join(repo, 'src', f) for f in srcs] + [os.path.join(repo, 'pysrc', f) for f in psrcs]
        import subprocess
        from concurrent.futures import ThreadPoolExecutor

        def one(p):
            cmd = [CLANG, *llvmir.CFLAGS, *extra, '-fno-exceptions', '-I' + os.path.join(repo, 'include')]
            if m.openmp:
                cmd += ['-I' + os.path.join(HERE, 'fakeomp')]
            if os.sep + 'pysrc' + os.sep in p:
                cmd += ['-I' + os.path.join(HERE, 'fakepy')]
            r = subprocess.run(cmd + ['-S', '-emit-llvm', p, '-o', '-'], capture_output=True, text=True)
            if r.returncode:
                cmd.remove('-fno-exceptions')
                r = subprocess.run(cmd + ['-S', '-emit-llvm', p, '-o', '-'], capture_output=True, text=True)
            if r.returncode:
                raise Unsupported(f'clang cannot compile {p}: {r.stderr[:800]}')
            return p, r.stdout
        with ThreadPoolExecutor(8) as ex:
            for p, text in ex.map(one, jobs):
                m.load(text, os.path.basename(os.path.dirname(p)) + '/' + os.path.basename(p))
        self.module = m
        self._registry()

    def _registry(self):
        it = Interp(self.module)
        mem = it.mem

        def cstr(a):
            o, off = mem.find(a, 1, 'read')
            s = ''
            while True:
                ch = o.load(off, 1, I8)
                if ch == 0:
                    return s
                s += chr(ch)
                off += 1

        def cls_(i, a):
            self.classes[cstr(a[0])] = None
            self.bases.setdefault(cstr(a[0]), [])

        def base_(i, a):
            self.bases.setdefault(cstr(a[0]), []).append(cstr(a[1]))

        def reg_(i, a):
            c, n, sig = cstr(a[0]), cstr(a[1]), cstr(a[2])
            tramp = it.addr2f[a[3]]
            o, off = mem.find(a[4], a[5], 'read')
            cells = [(k - off, v) for k, v in o.cells.items() if off <= k < off + a[5]]
            cells = [(k, (('fn', it.addr2f[v[0]]) if v[0] in it.addr2f and v[1] == 8 else v[0], v[1])) for k, v in cells]
            self.reg[(c, n)] = dict(sig=sig, tramp=tramp, cells=cells, size=a[5], args=[])

        def arg_(i, a):
            self.reg[(cstr(a[0]), cstr(a[1]))]['args'].append(cstr(a[2]))

        def mem_(i, a):
            self.members[(cstr(a[0]), cstr(a[1]))] = (a[2], cstr(a[3]), cstr(a[4]))
        it.hooks.update(vf_class=cls_, vf_base=base_, vf_reg=reg_, vf_arg=arg_, vf_member=mem_)
        self.static_init(it)
        it.call('vf_init', [])
        self.build_stub()

    def static_init(self, it):
        for n in list(self.module.funcs):
            if n.split(':')[-1].startswith('_GLOBAL__sub_I_'):
                it.call(n, [])

    # --- per path --------------------------------------------------------------
    def new_path(self):
        self.interp = Interp(self.module)
        self.interp.mem.trace = None
        self.static_init(self.interp)
        self.epoch += 1
        self.life = False      # objects the program drops are gone
        self.bufs = {}
        self.fobjs = {}

    def ptr(self, p):
        """host pointer value -> interpreter address"""
        if isinstance(p, (int, _np.integer)) and not isinstance(p, Ptr):
            if p == 0:
                return 0
            raise Unsupported('raw address without its array')
        arr = p.arr
        root = base(arr)
        while isinstance(root.base, _np.ndarray):
            root = root.base
        key = id(root)
        ent = self.bufs.get(key)
        if ent is not None and self.life and ent[1]() is not root:
            ent = None
        if ent is None and self.life and root.dtype.kind in 'Ofb' and not getattr(arr, 'cplx', False):
            if root.size and not _np.shares_memory(root.ravel(order='K'), root):
                raise Unsupported('non-contiguous root array')
            b = llvmir.WeakBuf(root, 1 if root.dtype.kind == 'b' else 8, f'array{root.shape}')
            self.interp.mem.add(b)
            ent = self.bufs[key] = (b, b.w)
        elif ent is None:
            flat = root.ravel(order='K')
            if root.size and not _np.shares_memory(flat, root):
                raise Unsupported('non-contiguous root array')
            flat = base(flat)
            k = root.dtype.kind
            nm = f'array{root.shape}'
            if k == 'O' and getattr(arr, 'cplx', False):
                b = ComplexBuf(flat, nm)
            elif k == 'O' or k == 'f':
                b = HostBuf(flat, 8, nm)
            elif k == 'b':
                b = HostBuf(flat, 1, nm)
            else:
                b = IntBuf(flat, root.dtype.itemsize, nm)
            self.interp.mem.add(b)
            ent = self.bufs[key] = (b, (lambda r: lambda: r)(root))
        b = ent[0]
        off = int(p) - root.__array_interface__['data'][0]
        if isinstance(b, ComplexBuf):
            off *= 2
        return b.base + off

    def cell(self, size, name='arg'):
        return self.interp.mem.alloc(size, name)

    def put(self, code, v):
        """argument -> interpreter address of its storage"""
        mem = self.interp.mem
        if code == 'P':
            if v is None:
                return 0
            if not isinstance(v, CppObject):
                raise TypeError(f'incompatible function arguments: {v!r}')
            return v._addr()
        if code == 'd':
            x = lift(v) if not isinstance(v, SymArray) else lift(v.item())
            if x is None:
                raise TypeError(f'incompatible function arguments: {v!r}')
            a = self.cell(8)
            mem.store(a, DBL, x)
            return a
        if code in 'lu':
            a = self.cell(8)
            if isinstance(v, Ptr):
                mem.store(a, I64, self.ptr(v))
            elif isinstance(v, S):
                raise Unsupported('symbolic size')
            else:
                if isinstance(v, float):
                    raise TypeError(f'incompatible function arguments: {v!r}')
                mem.store(a, I64, int(v) & (2**64 - 1))
            return a
        if code in 'ij':
            a = self.cell(4)
            if isinstance(v, float):
                raise TypeError(f'incompatible function arguments: {v!r}')
            mem.store(a, I32, int(v) & (2**32 - 1))
            return a
        if code == 'b':
            a = self.cell(1)
            mem.store(a, I8, int(bool(v)))
            return a
        if code in '39':
            n = int(code)
            w = base(NP.array(v, dtype=float))
            if w.shape != (n,):
                raise TypeError('incompatible function arguments: expected %d floats' % n)
            a = self.cell(8*n)
            for k in range(n):
                mem.store(a + 8*k, DBL, w[k])
            return a
        if code == 'V':
            n = len(v)
            buf = self.cell(max(16*n, 1), 'vector')
            for k, o in enumerate(v):
                mem.store(buf + 16*k, I64, o._addr())
                mem.store(buf + 16*k + 8, I64, 0)
            a = self.cell(24)
            mem.store(a, I64, buf)
            mem.store(a + 8, I64, buf + 16*n)
            mem.store(a + 16, I64, buf + 16*n)
            return a
        raise Unsupported(f'argument code {code}')

    def invoke(self, cls, name, args, kw=None):
        e = self.reg[(cls, name)]
        sig = e['sig'].lstrip('Z')
        codes = sig[1:]
        if kw:
            names = e['args']
            off = len(codes) - len(names)
            for k, v in list(kw.items()):
                if k not in names:
                    raise TypeError(f'unexpected keyword {k}')
            args = list(args) + [kw[n] for n in names[len(args) - off:]]
        if len(args) != len(codes):
            raise TypeError(f'{cls}.{name}(): incompatible function arguments ({len(args)} given, {len(codes)} expected)')
        it = self.interp
        mem = it.mem
        fo = self.fobjs.get((cls, name))
        if fo is None:
            fo = self.cell(max(e['size'], 8), 'functor')
            for k, (v, s) in e['cells']:
                if isinstance(v, tuple):
                    v = it.addr_of(v[1])
                mem.find(fo, 1, 'x')[0].store(k, s, v)
            self.fobjs[(cls, name)] = fo
        addrs = [self.put(c, a) for c, a in zip(codes, args)]
        av = self.cell(8*max(len(addrs), 1), 'args')
        for k, a in enumerate(addrs):
            mem.store(av + 8*k, PTR, a)
        ret = self.cell(96, 'ret')
        it.call(e['tramp'], [fo, av, ret])
        r = sig[0]
        if r == 'v':
            return None
        if r == 'd':
            return mem.load(ret, DBL)
        if r in 'lu':
            return mem.load(ret, I64)
        if r in 'ij':
            return llvmir.sgn(mem.load(ret, I32), 32)
        if r == 'b':
            return bool(mem.load(ret, I8) & 1)
        if r == 'c':
            return SC(mem.load(ret, DBL), mem.load(ret + 8, DBL))
        if r == 'P':
            return mem.load(ret, PTR)
        if r == 'T':
            n = mem.load(ret + 64, I64)
            return tuple(mem.load(ret + 8*k, DBL) for k in range(n))
        raise Unsupported(f'return code {r}')

    def vectorized(self, cls, name, args):
        sig = self.reg[(cls, name)]['sig'][1:]
        obj, rest = args[0], args[1:]
        arrs = [base(NP.asarray(a)) for a in rest]
        bc = _np.broadcast(*arrs)
        out = _np.empty(bc.shape, dtype=object)
        flat = []
        for vals in bc:
            flat.append(self.invoke(cls, name, [obj, *vals]))
        if bc.shape == ():
            return flat[0]
        of = out.reshape(-1)
        for i, v in enumerate(flat):
            of[i] = v
        out = of.reshape(bc.shape)
        if sig[0] == 'b':
            out = out.astype(bool)
        return out.view(SymArray)

    # --- the _batoid stand-in -----------------------------------------------------
    def build_stub(self):
        W = self
        mod = types.ModuleType('batoid._batoid')
        mod.__file__ = 'symbolic'
        made = {}

        def mk(c):
            if c in made:
                return made[c]
            bs = tuple(mk(b) for b in self.bases.get(c, [])) or (CppObject,)
            # drop bases implied by others
            bs = tuple(b for b in bs if not any(o is not b and issubclass(o, b) for o in bs))
            d = {'_cls': c, '_world': W}
            for (k, n), e in self.reg.items():
                if k != c or n == '__init__':
                    continue
                d[n] = _method(W, c, n, e)
            for (k, n), (off, code, typ) in self.members.items():
                if k == c:
                    d[n] = _member(W, off, code, typ)
            t = type(c, bs, d)
            made[c] = t
            setattr(mod, c, t)
            return t
        for c in self.classes:
            mk(c)
        for (k, n), e in self.reg.items():
            if k == '':
                setattr(mod, n, (lambda n: lambda *a, **kw: W.invoke('', n, a, kw))(n))
        self.stub = mod
        self.pyclasses = made

    # --- the Python layer ---------------------------------------------------------
    def import_package(self, repo):
        """import <repo>/batoid under the stand-ins; returns the package"""
        import numpy
        import galsim, galsim.zernike, yaml  # real, before the swap
        for k in [k for k in sys.modules if k == 'batoid' or k.startswith('batoid.')]:
            del sys.modules[k]
        overrides = {'float': symfloat}

        class Finder(importlib.abc.MetaPathFinder):
            def find_spec(f, name, path, target=None):
                if name == 'batoid._batoid':
                    return importlib.machinery.ModuleSpec(name, Stub())
                if name != 'batoid' and not name.startswith('batoid.'):
                    return None
                p = os.path.join(repo, *name.split('.'))
                if os.path.isdir(p):
                    return importlib.util.spec_from_file_location(
                        name, os.path.join(p, '__init__.py'), loader=Src(name, os.path.join(p, '__init__.py')),
                        submodule_search_locations=[p])
                if os.path.exists(p + '.py'):
                    return importlib.util.spec_from_file_location(name, p + '.py', loader=Src(name, p + '.py'))
                return None

        class Stub(importlib.abc.Loader):
            def create_module(s, spec):
                return self.stub

            def exec_module(s, m):
                pass

        class Src(importlib.abc.Loader):
            def __init__(s, name, path):
                s.name, s.path = name, path

            def create_module(s, spec):
                return None

            def exec_module(s, m):
                with open(s.path) as f:
                    text = f.read()
                m.__dict__.update(overrides)
                exec(compile(text, s.path, 'exec'), m.__dict__)
        fd = Finder()
        sys.meta_path.insert(0, fd)
        from . import symgalsim
        sg = symgalsim.module()
        olds = {k: sys.modules[k] for k in ('numpy', 'math', 'galsim', 'galsim.zernike')}
        sys.modules.update({'numpy': NP, 'math': MATH, 'galsim': sg, 'galsim.zernike': sg.zernike})
        self.sg = sg
        wb, sys.dont_write_bytecode = sys.dont_write_bytecode, True
        self.new_path()
        try:
            pkg = importlib.import_module('batoid')
            for sub in ('lattice', 'analysis', 'utils', 'parse', 'optic', 'surface', 'rayVector', 'trace'):
                importlib.import_module('batoid.' + sub)
        finally:
            sys.modules.update(olds)
            sys.dont_write_bytecode = wb
        self.finder = fd
        self.pkg = pkg
        self.lazy_numpy()
        return pkg

    def lazy_numpy(self):
        """functions that import numpy when called still get the stand-in"""
        import builtins
        real = builtins.__import__

        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if name == 'numpy' and globals is not None and str(globals.get('__name__', '')).split('.')[0] == 'batoid':
                return NP
            if name == 'math' and globals is not None and str(globals.get('__name__', '')).split('.')[0] == 'batoid':
                return MATH
            if name.split('.')[0] == 'galsim' and globals is not None and str(globals.get('__name__', '')).split('.')[0] == 'batoid':
                return self.sg if not fromlist or name == 'galsim' else self.sg.zernike
            return real(name, globals, locals, fromlist, level)
        builtins.__import__ = imp


class CppObject:
    """Proxy of an exported C++ object.  Rebuilt on demand in each path."""
    _cls = None
    _world = None

    def __init__(self, *a, **kw):
        self._args = (a, kw)
        self._ep = None
        self._raw = None
        self._addr()
        if self._world.life:
            self._args = None
            self._own = self._world.epoch

    def __del__(self):
        w = self._world
        if w is not None and self.__dict__.get('_own') == w.epoch and w.life:
            w.interp.mem.find(self._raw, 0, 'x')[0].freed = True

    @classmethod
    def _at(cls, addr, world):
        o = cls.__new__(cls)
        o._args = None
        o._ep = world.epoch
        o._raw = addr
        return o

    def _addr(self):
        w = self._world
        if self._ep != w.epoch:
            if self._args is None:
                raise Unsupported('stale C++ object')
            if (self._cls, '__init__') not in w.reg:
                raise TypeError(f'{self._cls}: No constructor defined!')
            self._raw = w.invoke(self._cls, '__init__', *self._args)
            self._ep = w.epoch
        return self._raw


def _method(W, c, n, e):
    if n in ('__eq__', '__ne__'):
        def f(self, o):
            if not isinstance(o, W.pyclasses[c]):
                return NotImplemented
            return W.invoke(c, n, [self, o])
        return f
    if e['sig'][0] == 'Z':
        return lambda self, *a: W.vectorized(c, n, [self, *a])
    return lambda self, *a, **kw: W.invoke(c, n, [self, *a], kw)


def _member(W, off, code, typ):
    def get(self):
        a = self._addr() + off
        if code == 'P':
            return W.pyclasses[typ]._at(a, W)
        if code == 'b':
            return bool(W.interp.mem.load(a, I8))
        if code == 'd':
            return W.interp.mem.load(a, DBL)
        return W.interp.mem.load(a, I64)
    return property(get)
