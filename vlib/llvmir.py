"""Parser and symbolic interpreter for the LLVM IR that clang emits for
/repo/src/*.cpp.  Doubles are S terms (exact reals) or special floats; integers
are Python ints modulo 2**bits (or S terms when derived from floor()); pointers
are flat integer addresses into a bounds-checked object map."""
import bisect, math, os, re, struct, subprocess, tempfile, hashlib
import numpy as _np
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
from . import sym
from .sym import S, B, Unsupported, Fault, NAN, INF, lift, const

TOK = re.compile(r'"[^"]*"|c"[^"]*"|%"[^"]*"|@"[^"]*"|[%@!#][-\w.$]+|[-+]?\d+\.\d+e[-+]?\d+|0x[0-9A-Fa-f]+|-?\d+|[\w.]+|\.\.\.|<\{|\}>|[(){}\[\]<>,=*]|.')


# ------------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'bits', 'n', 'el', 'fields', 'packed', '_size', '_align', '_offs')

    def __init__(self, k, bits=0, n=0, el=None, fields=None, packed=False):
        self.k, self.bits, self.n, self.el, self.fields, self.packed = k, bits, n, el, fields, packed
        self._size = self._align = self._offs = None

    def align(self):
        if self._align is None:
            if self.k == 'i':
                self._align = min(8, max(1, 1 << ((self.bits + 7)//8 - 1).bit_length()))
            elif self.k in ('d', 'p'):
                self._align = 8
            elif self.k == 'f':
                self._align = 4
            elif self.k in ('arr', 'vec'):
                self._align = self.el.align()
            else:
                self._align = 1 if self.packed or not self.fields else max(f.align() for f in self.fields)
        return self._align

    def size(self):
        if self._size is None:
            if self.k == 'i':
                b = (self.bits + 7)//8
                self._size = 1 << (b - 1).bit_length() if b > 1 else 1
            elif self.k in ('d', 'p'):
                self._size = 8
            elif self.k == 'f':
                self._size = 4
            elif self.k in ('arr', 'vec'):
                self._size = self.n * self.el.size()
            elif self.k == 'st':
                self.offs()
            else:
                self._size = 0
        return self._size

    def offs(self):
        if self._offs is None:
            o, offs = 0, []
            for f in self.fields:
                if not self.packed:
                    a = f.align()
                    o = (o + a - 1)//a*a
                offs.append(o)
                o += f.size()
            if not self.packed and self.fields:
                a = self.align()
                o = (o + a - 1)//a*a
            self._offs, self._size = offs, o
        return self._offs


VOID, PTR, DBL, FLT = Ty('v'), Ty('p'), Ty('d'), Ty('f')
_ints = {}


def INT(b):
    if b not in _ints:
        _ints[b] = Ty('i', bits=b)
    return _ints[b]


ATTRS = {'inrange', 'noundef', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'readnone', 'noalias', 'signext', 'zeroext',
         'immarg', 'returned', 'nofree', 'inreg', 'tail', 'musttail', 'notail', 'fastcc', 'ccc', 'coldcc', 'nonlazybind',
         'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'hidden', 'internal', 'private', 'linkonce_odr', 'weak_odr',
         'external', 'constant', 'global', 'protected', 'weak', 'linkonce', 'inbounds', 'nuw', 'nsw', 'exact', 'nneg',
         'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'volatile', 'mustprogress', 'available_externally',
         'dso_preemptable', 'thread_local', 'comdat', 'disjoint', 'samesign', 'noalias', 'allocptr', 'allocalign', 'common',
         'common', 'appending', 'extern_weak', 'default', 'range', 'captures', 'writable', 'dead_on_unwind', 'nuw'}
PATTRS = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'captures', 'range', 'memory', 'elementtype'}


class P:
    """token cursor"""
    def __init__(self, text, mod):
        self.t = [x for x in TOK.findall(text) if not x.isspace()]
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise Unsupported(f'IR parse: expected {x}, got {y} in {" ".join(self.t)[:200]}')

    def skip_attrs(self):
        while True:
            t = self.peek()
            if t in ATTRS and t not in ('range', 'captures'):
                self.i += 1
                if t == 'align':
                    pass
            elif t in PATTRS:
                self.i += 1
                if self.peek() == '(':
                    self.skip_paren()
                elif t == 'align':
                    self.i += 1
            else:
                return

    def skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            d += (x == '(') - (x == ')')

    def type(self):
        t = self.next()
        if t == 'void':
            r = VOID
        elif t == 'ptr':
            r = PTR
        elif t == 'double':
            r = DBL
        elif t == 'float':
            r = FLT
        elif t in ('metadata', 'label', 'token', 'opaque', 'x86_fp80'):
            r = Ty(t)
        elif t[0] == 'i' and t[1:].isdigit():
            r = INT(int(t[1:]))
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            el = self.type()
            self.expect(']')
            r = Ty('arr', n=n, el=el)
        elif t == '<':
            n = int(self.next())
            self.expect('x')
            el = self.type()
            self.expect('>')
            r = Ty('vec', n=n, el=el)
        elif t in ('{', '<{'):
            close = '}' if t == '{' else '}>'
            fs = []
            if self.peek() != close:
                fs.append(self.type())
                while self.accept(','):
                    fs.append(self.type())
            self.expect(close)
            r = Ty('st', fields=fs, packed=(t == '<{'))
        elif t[0] == '%':
            r = self.mod.named(t)
        else:
            raise Unsupported(f'IR type {t} in {" ".join(self.t)[:160]}')
        if self.peek() == '(':       # function type
            self.skip_paren()
            return Ty('fn')
        return r

    def value(self, ty):
        """constant or local operand -> ('c', v) or ('l', name)"""
        t = self.next()
        if t[0] == '%':
            return ('l', t)
        if t[0] == '@':
            return ('g', self.mod.gname(t))
        if t in ('true', 'false'):
            return ('c', int(t == 'true'))
        if t == 'null':
            return ('c', 0)
        if t in ('undef', 'poison'):
            return ('c', zero_of(ty, undef=True))
        if t == 'zeroinitializer':
            return ('c', zero_of(ty))
        if t == 'getelementptr':
            self.skip_attrs()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            self.type()
            base = self.value(PTR)
            idx = []
            while self.accept(','):
                self.skip_attrs()
                it = self.type()
                idx.append((it, self.value(it)))
            self.expect(')')
            return ('gep', bt, base, idx)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            self.expect('(')
            st = self.type()
            v = self.value(st)
            self.expect('to')
            self.type()
            self.expect(')')
            return v
        if t in ('[', '{', '<', '<{'):
            close = {'[': ']', '{': '}', '<': '>', '<{': '}>'}[t]
            vs = []
            while self.peek() != close:
                et = self.type()
                vs.append((et, self.value(et)))
                self.accept(',')
            self.next()
            return ('agg', vs)
        if t.startswith('c"'):
            return ('str', t)
        if t == 'c' and self.peek().startswith('"'):
            return ('str', t + self.next())
        if ty.k in ('d', 'f'):
            if t.startswith('0x'):
                f = struct.unpack('>d', bytes.fromhex(t[2:].zfill(16)))[0]
            else:
                f = float(t)
            return ('c', lift(f))
        return ('c', int(t) & ((1 << ty.bits) - 1) if ty.k == 'i' else int(t))


UNDEF = object()


def zero_of(ty, undef=False):
    if ty.k in ('st',):
        return [zero_of(f, undef) for f in ty.fields]
    if ty.k in ('arr', 'vec'):
        return [zero_of(ty.el, undef) for _ in range(ty.n)]
    if undef:
        return UNDEF
    return sym.ZERO if ty.k in ('d', 'f') else 0


class Func:
    def __init__(self, name, ret, params, mod):
        self.name, self.ret, self.params, self.mod = name, ret, params, mod
        self.blocks = {}
        self.entry = None
        self.body = None

    def parse(self):
        if self.body is None:
            return
        cur = None
        lines = self.body
        self.body = None
        i = 0
        n_unnamed = sum(1 for p in self.params if p[1] and p[1][1:].isdigit())
        first = True
        while i < len(lines):
            ln = lines[i]
            i += 1
            m = re.match(r'^("[^"]*"|[-\w.$]+):', ln)
            if m:
                nm = m.group(1)
                if nm in ('if.then', ):
                    pass
                cur = []
                self.blocks['%' + nm] = cur
                if first:
                    self.entry = '%' + nm
                    first = False
                continue
            s = ln.strip()
            if not s or s.startswith(';'):
                continue
            if cur is None:
                cur = []
                self.entry = '%' + str(n_unnamed)
                self.blocks[self.entry] = cur
                first = False
            if s.startswith('switch') and s.endswith('['):
                while not lines[i].strip().startswith(']'):
                    s += ' ' + lines[i].strip()
                    i += 1
                s += ' ]'
                i += 1
            if s.startswith(('invoke', '%')) and ' invoke ' in ' ' + s and 'unwind' not in s:
                s += ' ' + lines[i].strip()
                i += 1
            s = re.sub(r', ![\w.]+ ![\w.]+', '', s)
            s = re.sub(r', !\w+ !DIExpression\(.*', '', s)
            s = re.sub(r' #\d+', '', s)
            ins = parse_instr(s, self.mod)
            if ins is not None:
                cur.append(ins)


def parse_instr(s, mod):
    p = P(s, mod)
    dst = None
    if p.peek()[0] == '%' and p.peek(1) == '=':
        dst = p.next()
        p.next()
    op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op == 'ret':
        t = p.type()
        return ('ret', None, t, None if t is VOID else p.value(t))
    if op == 'br':
        t = p.type()
        if t.k == 'label':
            return ('br', None, p.next())
        c = p.value(t)
        p.expect(',')
        p.type()
        a = p.next()
        p.expect(',')
        p.type()
        return ('cbr', None, c, a, p.next())
    if op == 'switch':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.type()
        d = p.next()
        p.expect('[')
        cs = []
        while p.peek() != ']':
            p.type()
            cv = p.value(t)
            p.expect(',')
            p.type()
            cs.append((cv[1], p.next()))
        return ('switch', None, v, d, cs)
    if op == 'unreachable':
        return ('unreachable', None)
    if op == 'alloca':
        p.skip_attrs()
        t = p.type()
        n = ('c', 1)
        if p.accept(',') and p.peek() != 'align':
            it = p.type()
            n = p.value(it)
        return ('alloca', dst, t, n)
    if op == 'load':
        p.skip_attrs()
        t = p.type()
        p.expect(',')
        p.type()
        return ('load', dst, t, p.value(PTR))
    if op == 'store':
        p.skip_attrs()
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.type()
        return ('store', None, t, v, p.value(PTR))
    if op == 'getelementptr':
        p.skip_attrs()
        bt = p.type()
        p.expect(',')
        p.type()
        base = p.value(PTR)
        idx = []
        while p.accept(','):
            it = p.type()
            idx.append((it, p.value(it)))
        return ('gep', dst, bt, base, idx)
    if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem',
              'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
        p.skip_attrs()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        return ('bin', dst, op, t, a, p.value(t))
    if op == 'fneg':
        p.skip_attrs()
        t = p.type()
        return ('fneg', dst, t, p.value(t))
    if op in ('icmp', 'fcmp'):
        p.skip_attrs()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        return (op, dst, pred, t, a, p.value(t))
    if op == 'select':
        p.skip_attrs()
        t = p.type()
        c = p.value(t)
        p.expect(',')
        t1 = p.type()
        a = p.value(t1)
        p.expect(',')
        p.type()
        return ('select', dst, t1, c, a, p.value(t1))
    if op == 'phi':
        p.skip_attrs()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            inc.append((p.next(), v))
            p.expect(']')
            if not p.accept(','):
                break
        return ('phi', dst, t, dict(inc))
    if op in ('zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'ptrtoint', 'inttoptr', 'bitcast',
              'fpext', 'fptrunc'):
        p.skip_attrs()
        t = p.type()
        v = p.value(t)
        p.expect('to')
        return ('cast', dst, op, t, v, p.type())
    if op == 'freeze':
        t = p.type()
        return ('copy', dst, p.value(t))
    if op in ('call', 'invoke'):
        p.skip_attrs()
        rt = p.type()
        if p.peek() == '(':
            p.skip_paren()
        callee = p.next()
        if callee[0] == '@':
            callee = ('g', mod.gname(callee))
        elif callee[0] == '%':
            callee = ('l', callee)
        else:
            return ('unsup', dst, s[:160])
        p.expect('(')
        args = []
        while p.peek() != ')':
            at = p.type()
            p.skip_attrs()
            if at.k == 'metadata':
                d = 0
                while not (d == 0 and p.peek() in (',', ')')):
                    x = p.next()
                    d += (x == '(') - (x == ')')
                args.append((at, ('c', 0)))
            else:
                args.append((at, p.value(at)))
            p.accept(',')
        p.expect(')')
        dest = None
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.next()
            p.type()
            dest = p.next()
        return ('call', dst, rt, callee, args, dest)
    if op == 'insertvalue':
        t = p.type()
        a = p.value(t)
        p.expect(',')
        t2 = p.type()
        v = p.value(t2)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return ('insertvalue', dst, t, a, v, idx)
    if op == 'extractvalue':
        t = p.type()
        a = p.value(t)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return ('extractvalue', dst, t, a, idx)
    if op == 'fence':
        return None
    if op == 'atomicrmw':
        p.skip_attrs()
        o = p.next()
        p.type()
        ptr = p.value(PTR)
        p.expect(',')
        t = p.type()
        return ('atomicrmw', dst, o, t, ptr, p.value(t))
    return ('unsup', dst, s[:160])


class Module:
    """One merged module"""
    def __init__(self):
        self.types = {}
        self.funcs = {}
        self.globals = {}     # name -> (type, init parser value)
        self.aliases = {}
        self.tag = ''
        self.decls = set()
        self.openmp = False    # compiled with -fopenmp

    def named(self, t):
        key = self.tag + t
        if key not in self.types:
            self.types[key] = Ty('st', fields=[])
        return self.types[key]

    def gname(self, t):
        t = t[1:].strip('"') if t[1:2] == '"' else t[1:]
        pk = self.tag + t
        return pk if pk in self.privates else t

    def load(self, text, tag):
        self.tag = tag + ':'
        lines = text.split('\n')
        self.privates = {self.tag + m.group(1).strip('"') for m in re.finditer(
            r'^@("[^"]*"|[-\w.$]+) = (?:private|internal)', text, re.M)}
        self.privates |= {self.tag + m.group(1).strip('"') for m in re.finditer(
            r'^define (?:internal|private) .*?@("[^"]*"|[-\w.$]+)\(', text, re.M)}
        mod_priv = self.privates
        for ln in lines:
            if ln.startswith('%') and ' = type ' in ln:
                nm, body = ln.split(' = type ', 1)
                if body.strip() == 'opaque':
                    continue
                t = self.named(nm)
                b = P(body, _Scope(self, self.tag, mod_priv)).type()
                t.fields, t.packed = b.fields, b.packed
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            if ln.startswith('@'):
                sc = _Scope(self, self.tag, mod_priv)
                nm, rest = ln.split(' = ', 1)
                name = sc.gname(nm)
                p = P(re.sub(r', !\w+ !\d+', '', rest), sc)
                p.skip_attrs()
                if p.accept('alias'):
                    p.type()
                    p.expect(',')
                    p.type()
                    v = p.value(PTR)
                    self.aliases[name] = v[1]
                    continue
                ext = ' external ' in ' ' + rest
                while p.peek() in ('thread_local',):
                    p.next()
                try:
                    ty = p.type()
                    init = None if ext or p.peek() in (None, ',') else p.value(ty)
                except Unsupported:
                    continue
                if init is not None or name not in self.globals:
                    self.globals[name] = (ty, init)
            elif ln.startswith('define'):
                sc = _Scope(self, self.tag, mod_priv)
                body = []
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                i += 1
                p = P(ln[len('define'):], sc)
                p.skip_attrs()
                rt = p.type()
                name = sc.gname(p.next())
                p.expect('(')
                params = []
                while p.peek() != ')':
                    t = p.type()
                    p.skip_attrs()
                    nm = p.next() if p.peek()[0] == '%' else None
                    params.append((t, nm))
                    p.accept(',')
                k = 0
                ps = []
                for t, nm in params:
                    if nm is None:
                        nm = f'%{k}'
                    if nm[1:].isdigit():
                        k += 1
                    ps.append((t, nm))
                f = Func(name, rt, ps, sc)
                f.body = body
                if name not in self.funcs:
                    self.funcs[name] = f
            elif ln.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', ln)
                if m:
                    self.decls.add(m.group(1).strip('"'))


class _Scope:
    def __init__(self, mod, tag, priv):
        self.mod, self.tag, self.priv = mod, tag, priv

    def named(self, t):
        key = self.tag + t
        if key not in self.mod.types:
            self.mod.types[key] = Ty('st', fields=[])
        return self.mod.types[key]

    def gname(self, t):
        t = t[1:]
        if t[:1] == '"':
            t = t[1:-1]
        pk = self.tag + t
        return pk if pk in self.priv else t


CFLAGS = ['-std=c++17', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-ffp-contract=off',
          '-fno-math-errno', '-fno-threadsafe-statics', '-w']


def compile_ir(repo, files=None, extra=(), cflags=CFLAGS):
    """clang -> {file: IR text} from the working tree"""
    src = os.path.join(repo, 'src')
    files = files or sorted(f for f in os.listdir(src) if f.endswith('.cpp'))

    def one(f):
        base = ['clang++', *cflags, *extra, '-I' + os.path.join(repo, 'include'), '-S', '-emit-llvm', os.path.join(src, f), '-o', '-']
        r = subprocess.run(base + ['-fno-exceptions'], capture_output=True, text=True)
        if r.returncode:
            r = subprocess.run(base, capture_output=True, text=True)
        if r.returncode:
            raise Unsupported(f'clang cannot compile {f}: {r.stderr[:600]}')
        return f, r.stdout
    with ThreadPoolExecutor(8) as ex:
        return dict(ex.map(one, files))


def load_repo(repo, extra=(), files=None):
    m = Module()
    for f, text in compile_ir(repo, files, extra).items():
        m.load(text, f)
    return m


_demangle_cache = {}


def demangle(names):
    todo = [n for n in names if n not in _demangle_cache]
    if todo:
        r = subprocess.run([next((p for p in ('/usr/bin/c++filt', '/usr/bin/llvm-cxxfilt') if os.path.exists(p)), 'c++filt')], input='\n'.join(todo), capture_output=True, text=True)
        for n, d in zip(todo, r.stdout.split('\n')):
            _demangle_cache[n] = d
    return {n: _demangle_cache[n] for n in names}


# ------------------------------------------------------------------ memory
class Obj:
    __slots__ = ('base', 'size', 'cells', 'name', 'freed', 'ro')

    def __init__(self, base, size, name):
        self.base, self.size, self.name = base, size, name
        self.cells = {}
        self.freed = False
        self.ro = False

    def load(self, off, size, ty):
        c = self.cells.get(off)
        if c is None:
            # bytes of a larger or smaller cell
            for o in range(max(0, off-8), off):
                d = self.cells.get(o)
                if d is not None and o + d[1] > off and isinstance(d[0], int):
                    return (d[0] >> (8*(off-o))) & ((1 << (8*size)) - 1)
            raise Fault('uninitialised-read', f'{self.name}+{off}')
        v, s = c
        if s == size:
            return v
        if s > size and isinstance(v, int):
            return v & ((1 << (8*size)) - 1)
        if s < size:
            r = 0
            for k in range(0, size):
                d = self.cells.get(off + k)
                if d is None:
                    continue
                if not isinstance(d[0], int):
                    raise Unsupported('wide load over non-integer cells')
                r |= d[0] << (8*k)
            return r
        raise Unsupported('partial load')

    def store(self, off, size, v):
        if size > 1 or True:
            for o in range(max(0, off-7), off+size):
                d = self.cells.get(o)
                if d is not None and o != off and o + d[1] > off:
                    if o < off or o >= off:
                        # overlapping cell: split integers into bytes, drop others
                        if isinstance(d[0], int):
                            del self.cells[o]
                            for k in range(d[1]):
                                if not (off <= o+k < off+size):
                                    self.cells[o+k] = ((d[0] >> (8*k)) & 255, 1)
                        else:
                            del self.cells[o]
            d = self.cells.get(off)
            if d is not None and d[1] > size and isinstance(d[0], int):
                for k in range(size, d[1]):
                    self.cells[off+k] = ((d[0] >> (8*k)) & 255, 1)
        self.cells[off] = (v, size)


class Memory:
    def __init__(self, start=0x10000):
        self.objs = []
        self.bases = []
        self.top = start
        self.trace = None       # (kind, addr, size) recorder

    def alloc(self, size, name):
        o = Obj(self.top, size, name)
        self.top += (size + 64 + 15)//16*16
        self.objs.append(o)
        self.bases.append(o.base)
        return o.base

    def add(self, o):
        """map an external object (HostBuf)"""
        o.base = self.top
        self.top += (o.size + 64 + 15)//16*16
        self.objs.append(o)
        self.bases.append(o.base)
        return o.base

    def find(self, addr, size, what):
        i = bisect.bisect_right(self.bases, addr) - 1
        if addr == 0 or i < 0:
            raise Fault('null-access', f'{what} of {size} bytes at {addr:#x}')
        o = self.objs[i]
        if addr + size > o.base + o.size:
            raise Fault('out-of-bounds', f'{what} of {size} bytes at {o.name}[{addr-o.base}], object has {o.size} bytes')
        if o.freed:
            raise Fault('use-after-free', f'{what} at {o.name}')
        return o, addr - o.base

    def load(self, addr, ty):
        if ty.k == 'st':
            return [self.load(addr + o, f) for o, f in zip(ty.offs(), ty.fields)]
        if ty.k in ('arr', 'vec'):
            return [self.load(addr + k*ty.el.size(), ty.el) for k in range(ty.n)]
        n = ty.size()
        o, off = self.find(addr, n, 'read')
        if self.trace is not None:
            self.trace('r', addr, n)
        v = o.load(off, n, ty)
        if ty.k == 'd' and isinstance(v, int):
            v = lift(struct.unpack('<d', struct.pack('<Q', v & (2**64-1)))[0])
        if ty.k == 'i' and not isinstance(v, int) and isinstance(v, float):
            raise Unsupported('integer load of a float cell')
        return v

    def store(self, addr, ty, v):
        if ty.k == 'st':
            for o, f, x in zip(ty.offs(), ty.fields, v):
                self.store(addr + o, f, x)
            return
        if ty.k in ('arr', 'vec'):
            for k in range(ty.n):
                self.store(addr + k*ty.el.size(), ty.el, v[k])
            return
        if v is UNDEF:
            return
        n = ty.size()
        o, off = self.find(addr, n, 'write')
        if getattr(o, 'ro', False):
            raise Fault('write-to-const', o.name)
        if self.trace is not None:
            self.trace('w', addr, n)
        if isinstance(v, B):
            v = int(bool(v))
        o.store(off, n, v)


class HostBuf:
    """A window on the elements of a numpy array (8-byte or 1-byte cells)."""
    def __init__(self, arr1d, itemsize, name):
        self.a, self.it, self.name = arr1d, itemsize, name
        self.size = len(arr1d) * itemsize
        self.base = None
        self.freed = False
        self.ro = False

    def load(self, off, size, ty):
        if off % self.it or size != self.it:
            raise Unsupported(f'misaligned access to {self.name}')
        v = self.a[off // self.it]
        if ty.k == 'i':
            return int(bool(v)) if self.it == 1 else int(v)
        r = lift(v)
        if r is None:
            raise Unsupported(f'element {v!r}')
        return r

    def store(self, off, size, v):
        if off % self.it or size != self.it:
            raise Unsupported(f'misaligned access to {self.name}')
        if self.it == 1:
            v = bool(v)
        elif isinstance(v, int):
            v = 0.0 if v == 0 else struct.unpack('<d', struct.pack('<Q', v & (2**64-1)))[0]
            if self.a.dtype == object:
                v = lift(v)
        elif isinstance(v, S) and self.a.dtype != object:
            v = float(v)
        self.a[off // self.it] = v


class WeakBuf(HostBuf):
    """the same, without keeping the array alive: gone once the program drops it"""
    def __init__(self, root, itemsize, name):
        import weakref
        self.w = weakref.ref(root)
        self.it, self.name, self.size = itemsize, name, root.size*itemsize
        self.base, self.ro = None, False

    @property
    def freed(self):
        return self.w() is None

    @property
    def a(self):
        r = self.w()
        if r is None:
            raise Fault('use-after-free', self.name)
        return r.view(_np.ndarray).ravel(order='K')


# ------------------------------------------------------------- interpreter
def sgn(v, bits):
    return v - (1 << bits) if v >> (bits - 1) & 1 else v


TEAM = 3


class Team:
    def __init__(self, k):
        self.k, self.log, self.locks, self.chunks = k, {}, 0, []


class Interp:
    def __init__(self, module, max_steps=400000):
        self.m = module
        self.mem = Memory()
        self.gaddr = {}
        self.faddr = {}
        self.addr2f = {}
        self.steps = 0
        self.max_steps = max_steps
        self.called = {}
        self.hooks = {}        # function name -> python callable(interp, args)
        self.team = None       # running parallel region
        self.races = []        # conflicting accesses of two threads of a team
        self.regions = 0       # parallel regions executed
        self.size = TEAM       # threads per team
        self.strict = False    # float to integer conversions must fit

    # --- globals ---------------------------------------------------------
    def addr_of(self, name):
        name = self.resolve(name)
        if name in self.m.funcs or (name in self.m.decls and name not in self.m.globals):
            a = self.faddr.get(name)
            if a is None:
                a = self.mem.alloc(1, 'fn:' + name)
                self.faddr[name] = a
                self.addr2f[a] = name
            return a
        a = self.gaddr.get(name)
        if a is None:
            ty, init = self.m.globals.get(name, (INT(64), None))
            size = ty.size() if ty.k != 'fn' else 8
            a = self.mem.alloc(max(size, 8), name)
            self.gaddr[name] = a
            if init is not None:
                self.init(a, ty, init)
        return a

    def resolve(self, name):
        while name in self.m.aliases:
            name = self.m.aliases[name]
        return name

    def init(self, addr, ty, v):
        if v[0] == 'agg':
            if ty.k == 'st':
                for o, f, (et, x) in zip(ty.offs(), ty.fields, v[1]):
                    self.init(addr + o, f, x)
            else:
                for k, (et, x) in enumerate(v[1]):
                    self.init(addr + k*ty.el.size(), ty.el, x)
        elif v[0] == 'str':
            b = re.sub(rb'\\([0-9A-Fa-f]{2})', lambda m: bytes([int(m.group(1), 16)]), v[1][2:-1].encode('latin1'))
            for k, ch in enumerate(b):
                self.mem.store(addr + k, INT(8), ch)
        else:
            self.mem.store(addr, ty, self.val(v, {}, ty))

    def val(self, v, env, ty=None):
        k = v[0]
        if k == 'l':
            return env[v[1]]
        if k == 'c':
            return v[1]
        if k == 'g':
            return self.addr_of(v[1])
        if k == 'gep':
            return self.gep(v[1], self.val(v[2], env), [(t, self.val(x, env)) for t, x in v[3]])
        if k == 'agg':
            return [self.val(x, env) for t, x in v[1]]
        raise Unsupported(f'operand {k}')

    def gep(self, bt, base, idx):
        a = base
        ty = None
        for n, (it, i) in enumerate(idx):
            if isinstance(i, S):
                i = sym.CTX.concretize_int(i)
            elif it.k == 'i':
                i = sgn(i, it.bits)
            if n == 0:
                a += i * bt.size()
                ty = bt
            elif ty.k == 'st':
                a += ty.offs()[i]
                ty = ty.fields[i]
            else:
                a += i * ty.el.size()
                ty = ty.el
        return a

    # --- calls -----------------------------------------------------------
    def find(self, qual, nargs=None):
        """mangled name(s) by demangled qualified name prefix"""
        names = list(self.m.funcs) + list(self.m.aliases)
        d = demangle(names)
        r = [n for n in names if d[n].startswith(qual + '(')]
        if nargs is not None:
            r = [n for n in r if len(self.m.funcs[self.resolve(n)].params) == nargs]
        if not r:
            raise Unsupported(f'no function {qual} in the IR')
        return r[0]

    def call(self, name, args):
        name = self.resolve(name)
        h = self.hooks.get(name)
        if h is not None:
            return h(self, args)
        f = self.m.funcs.get(name)
        if f is None:
            return self.builtin(name, args)
        self.called[name] = self.called.get(name, 0) + 1
        return self.run(f, args)

    def run(self, f, args):
        f.parse()
        if len(args) != len(f.params):
            raise Unsupported(f'{f.name}: {len(args)} arguments for {len(f.params)} parameters')
        env = {nm: a for (t, nm), a in zip(f.params, args)}
        stack_objs = []
        bb, prev = f.entry, None
        while True:
            ins_list = f.blocks[bb]
            i = 0
            # phis in parallel
            if ins_list and ins_list[0][0] == 'phi':
                vals = []
                while i < len(ins_list) and ins_list[i][0] == 'phi':
                    ins = ins_list[i]
                    vals.append((ins[1], self.val(ins[3][prev], env)))
                    i += 1
                for d, v in vals:
                    env[d] = v
            nxt = None
            while i < len(ins_list):
                ins = ins_list[i]
                i += 1
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Unsupported('step limit (loop bound) exceeded')
                op = ins[0]
                if op == 'load':
                    a = self.val(ins[3], env)
                    env[ins[1]] = self.mem.load(a, ins[2])
                    if ins[2].k == 'i' and ins[2].bits == 1:
                        env[ins[1]] &= 1
                elif op == 'store':
                    self.mem.store(self.val(ins[4], env), ins[2], self.val(ins[3], env))
                elif op == 'gep':
                    env[ins[1]] = self.gep(ins[2], self.val(ins[3], env), [(t, self.val(x, env)) for t, x in ins[4]])
                elif op == 'bin':
                    env[ins[1]] = self.bin(ins[2], ins[3], self.val(ins[4], env), self.val(ins[5], env))
                elif op == 'cbr':
                    c = self.val(ins[2], env)
                    nxt = ins[3] if (bool(c) if isinstance(c, B) else c & 1) else ins[4]
                    break
                elif op == 'br':
                    nxt = ins[2]
                    break
                elif op == 'call':
                    r = self.do_call(ins, env)
                    if ins[1] is not None:
                        env[ins[1]] = r
                    if ins[5] is not None:
                        nxt = ins[5]
                        break
                elif op == 'fcmp':
                    env[ins[1]] = self.fcmp(ins[2], self.val(ins[4], env), self.val(ins[5], env))
                elif op == 'icmp':
                    env[ins[1]] = self.icmp(ins[2], ins[3], self.val(ins[4], env), self.val(ins[5], env))
                elif op == 'fneg':
                    env[ins[1]] = sym.neg(self.val(ins[3], env))
                elif op == 'select':
                    env[ins[1]] = self.select(ins, env)
                elif op == 'cast':
                    env[ins[1]] = self.cast(ins[2], ins[3], self.val(ins[4], env), ins[5])
                elif op == 'alloca':
                    n = self.val(ins[3], env)
                    a = self.mem.alloc(ins[2].size() * n, f'{f.name}:{ins[1]}')
                    stack_objs.append(a)
                    env[ins[1]] = a
                elif op == 'ret':
                    for a in stack_objs:
                        self.mem.find(a, 0, 'x')[0].freed = True
                    return None if ins[3] is None else self.val(ins[3], env)
                elif op == 'copy':
                    env[ins[1]] = self.val(ins[2], env)
                elif op == 'switch':
                    v = self.val(ins[2], env)
                    if isinstance(v, S):
                        v = sym.CTX.concretize_int(v)
                    nxt = ins[3]
                    for cv, lb in ins[4]:
                        if cv == v:
                            nxt = lb
                    break
                elif op == 'insertvalue':
                    a = list(self.val(ins[3], env))
                    t = a
                    for k in ins[5][:-1]:
                        t[k] = list(t[k])
                        t = t[k]
                    t[ins[5][-1]] = self.val(ins[4], env)
                    env[ins[1]] = a
                elif op == 'extractvalue':
                    a = self.val(ins[3], env)
                    for k in ins[4]:
                        a = a[k]
                    env[ins[1]] = a
                elif op == 'atomicrmw':
                    a = self.val(ins[4], env)
                    if self.team is not None:
                        self.team.locks += 1
                    old = self.mem.load(a, ins[3])
                    v = self.val(ins[5], env)
                    new = {'add': lambda: (old + v), 'fadd': lambda: sym.add(old, v),
                           'fsub': lambda: sym.sub(old, v), 'xchg': lambda: v,
                           'or': lambda: old | v, 'and': lambda: old & v}[ins[2]]()
                    self.mem.store(a, ins[3], new)
                    if self.team is not None:
                        self.team.locks -= 1
                    env[ins[1]] = old
                elif op == 'unreachable':
                    raise Fault('unreachable', f.name)
                else:
                    raise Unsupported(f'IR instruction {ins[2] if len(ins) > 2 else op}')
            if nxt is None:
                raise Unsupported(f'fell off block {bb} in {f.name}')
            prev, bb = bb, nxt

    def select(self, ins, env):
        c = self.val(ins[3], env)
        if not isinstance(c, B):
            return self.val(ins[4] if c & 1 else ins[5], env)
        a, b = self.val(ins[4], env), self.val(ins[5], env)
        if ins[2].k == 'i' and ins[2].bits == 1:
            # a logical operator
            if not isinstance(b, B) and b == 0:
                return self.b2(sym.b_and(c, self.bb(a)))
            if not isinstance(a, B) and a == 1:
                return self.b2(sym.b_or(c, self.bb(b)))
            if not isinstance(a, B) and a == 0:
                return self.b2(sym.b_and(sym.b_not(c), self.bb(b)))
            return self.b2(sym.b_or(sym.b_and(c, self.bb(a)), sym.b_and(sym.b_not(c), self.bb(b))))
        if a is b:
            return a
        return a if bool(c) else b

    @staticmethod
    def bb(x):
        return x if isinstance(x, B) else bool(x)

    @staticmethod
    def b2(x):
        return x if isinstance(x, B) else int(bool(x))

    def bin(self, op, ty, a, b):
        if ty.k == 'vec':
            return [self.bin(op, ty.el, x, y) for x, y in zip(a, b)]
        if op[0] == 'f':
            if a is UNDEF or b is UNDEF:
                raise Fault('undefined-value', op)
            return {'fadd': sym.add, 'fsub': sym.sub, 'fmul': sym.mul, 'fdiv': sym.div,
                    'frem': lambda x, y: x % y}[op](a, b)
        bits = ty.bits
        if isinstance(a, B) or isinstance(b, B):
            a, b = self.bb(a), self.bb(b)
            return self.b2({'and': sym.b_and, 'or': sym.b_or, 'xor': sym.b_xor}[op](a, b))
        M = (1 << bits) - 1
        if isinstance(a, S) or isinstance(b, S):
            xa = a if isinstance(a, S) else const(sgn(a, bits))
            xb = b if isinstance(b, S) else const(sgn(b, bits))
            if op == 'add':
                return sym.add(xa, xb)
            if op == 'sub':
                return sym.sub(xa, xb)
            if op == 'mul':
                return sym.mul(xa, xb)
            if op == 'shl' and xb.op == 'c':
                return sym.mul(xa, const(1 << int(xb.val)))
            a = sym.CTX.concretize_int(xa) & M
            b = sym.CTX.concretize_int(xb) & M
        if op == 'add':
            return (a + b) & M
        if op == 'sub':
            return (a - b) & M
        if op == 'mul':
            return (a * b) & M
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return (a << b) & M
        if op == 'lshr':
            return a >> b
        if op == 'ashr':
            return (sgn(a, bits) >> b) & M
        if op in ('sdiv', 'udiv', 'srem', 'urem'):
            if b == 0:
                raise Fault('division-by-zero', op)
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            x, y = sgn(a, bits), sgn(b, bits)
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return (q if op == 'sdiv' else x - q*y) & M
        raise Unsupported(op)

    def fcmp(self, pred, a, b):
        if a is UNDEF or b is UNDEF:
            raise Fault('undefined-value', 'fcmp')
        if pred == 'true':
            return 1
        if pred == 'false':
            return 0
        nan = (isinstance(a, float) and a != a) or (isinstance(b, float) and b != b)
        if pred == 'uno':
            return int(nan)
        if pred == 'ord':
            return int(not nan)
        if nan:
            return int(pred[0] == 'u')
        k = pred[1:]
        r = {'eq': lambda: sym.eq(a, b), 'ne': lambda: sym.b_not(sym.eq(a, b)),
             'lt': lambda: sym.lt(a, b), 'le': lambda: sym.le(a, b),
             'gt': lambda: sym.lt(b, a), 'ge': lambda: sym.le(b, a)}[k]()
        return self.b2(r)

    def icmp(self, pred, ty, a, b):
        if isinstance(a, B) or isinstance(b, B):
            a, b = self.bb(a), self.bb(b)
            if pred == 'eq':
                return self.b2(sym.b_not(sym.b_xor(a, b)))
            if pred == 'ne':
                return self.b2(sym.b_xor(a, b))
            a, b = int(bool(a)), int(bool(b))
        bits = 64 if ty.k == 'p' else ty.bits
        if isinstance(a, S) or isinstance(b, S):
            xa = a if isinstance(a, S) else const(sgn(a, bits))
            xb = b if isinstance(b, S) else const(sgn(b, bits))
            if pred[0] == 'u':
                if bool(sym.lt(xa, sym.ZERO)):
                    xa = sym.add(xa, const(1 << bits))
                if bool(sym.lt(xb, sym.ZERO)):
                    xb = sym.add(xb, const(1 << bits))
                # integers a u< b+2^k etc.
            # integrality: a < c  <=>  a <= c-1 is implied by the floor bounds after concretisation
            k = pred if pred in ('eq', 'ne') else pred[1:]
            return self.b2({'eq': lambda: sym.eq(xa, xb), 'ne': lambda: sym.b_not(sym.eq(xa, xb)),
                            'lt': lambda: int_lt(xa, xb), 'le': lambda: sym.le(xa, xb),
                            'gt': lambda: int_lt(xb, xa), 'ge': lambda: sym.le(xb, xa)}[k]())
        if pred == 'eq':
            return int(a == b)
        if pred == 'ne':
            return int(a != b)
        if pred[0] == 's':
            a, b = sgn(a, bits), sgn(b, bits)
        return int({'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred[1:]])

    def cast(self, op, st, v, dt):
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'fpext'):
            return v
        if op == 'fptrunc':
            raise Unsupported('fptrunc')
        if op in ('zext', 'sext', 'trunc'):
            if isinstance(v, B):
                v = int(bool(v))
                if op == 'sext' and v:
                    return (1 << dt.bits) - 1
                return v
            if isinstance(v, S):
                if op == 'zext' and bool(sym.lt(v, sym.ZERO)):
                    return sym.add(v, const(1 << st.bits))
                return v
            if op == 'sext':
                return sgn(v, st.bits) & ((1 << dt.bits) - 1)
            if op == 'trunc':
                return v & ((1 << dt.bits) - 1)
            return v
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, S):
                return v
            if isinstance(v, B):
                v = int(bool(v))
            return const(sgn(v, st.bits) if op == 'sitofp' else v)
        if op in ('fptosi', 'fptoui'):
            if self.strict:
                lo, hi = (-(1 << dt.bits - 1), 1 << dt.bits - 1) if op == 'fptosi' else (0, 1 << dt.bits)
                if isinstance(v, float) or not (bool(sym.lt(const(lo - 1), v)) and bool(sym.lt(v, const(hi)))):
                    raise Fault('float-cast-overflow', f'a number that does not fit is converted to {dt.bits} bits')
            if isinstance(v, float):
                # x86: cvttsd2si returns the integer indefinite value
                sym.CTX.events.append('fptosi of a non-finite value (x86 indefinite assumed)')
                return 1 << (dt.bits - 1)
            t = sym.trunc(v)
            if t.op == 'c':
                return int(t.val) & ((1 << dt.bits) - 1)
            return t
        raise Unsupported(op)

    def do_call(self, ins, env):
        _, dst, rt, callee, args, _ = ins
        if callee[0] == 'g':
            name = callee[1]
            if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name.startswith('llvm.assume') \
                    or name.startswith('llvm.experimental.noalias'):
                return None
        else:
            a = env[callee[1]]
            name = self.addr2f.get(a)
            if name is None:
                raise Fault('bad-indirect-call', hex(a))
        av = [self.val(x, env) for t, x in args]
        return self.call(name, av)

    def builtin(self, name, a):
        n = name
        if n.startswith('llvm.'):
            n = n.split('.')[1]
            full = name
            if n in ('fmuladd', 'fma'):
                return sym.add(sym.mul(a[0], a[1]), a[2])
            if n == 'fabs':
                return sym.fabs(a[0])
            if n in ('sqrt', 'floor', 'sin', 'cos', 'exp', 'ceil', 'trunc', 'pow', 'rint', 'round'):
                return self.builtin(n, a)
            if n in ('minnum', 'maxnum'):
                return self.builtin('fmin' if n == 'minnum' else 'fmax', a)
            if n in ('memcpy', 'memmove'):
                return self.memmove(a[0], a[1], a[2])
            if n == 'memset':
                return self.memset(a[0], a[1], a[2])
            bits = int(re.search(r'\.i(\d+)$', full).group(1)) if re.search(r'\.i(\d+)$', full) else 64
            if n in ('umax', 'umin', 'smax', 'smin') and any(isinstance(x, S) for x in a):
                x = [q if isinstance(q, S) else const(sgn(q, bits)) for q in a]
                less = bool(sym.lt(x[0], x[1]))
                return a[1] if less == (n[1:] == 'max') else a[0]
            if n == 'umax':
                return max(a)
            if n == 'umin':
                return min(a)
            if n == 'smax':
                return max(a, key=lambda v: sgn(v, bits))
            if n == 'smin':
                return min(a, key=lambda v: sgn(v, bits))
            if n == 'abs':
                v = sgn(a[0], bits)
                return abs(v)
            if n == 'ctlz':
                return bits - a[0].bit_length()
            if n == 'cttz':
                return (a[0] & -a[0]).bit_length() - 1 if a[0] else bits
            if full.startswith('llvm.usub.sat'):
                return max(0, a[0] - a[1])
            if full.startswith('llvm.uadd.sat'):
                return min((1 << bits) - 1, a[0] + a[1])
            if full.startswith('llvm.is.fpclass'):
                v, mask = a
                if isinstance(v, float):
                    cls = 3 if v != v else (0x200 if v > 0 else 4)
                    return int(bool(cls & mask))
                if mask & ~0x207 == 0:
                    return 0
                raise Unsupported('is.fpclass on symbolic')
            if full.startswith('llvm.copysign'):
                m = sym.fabs(a[0])
                return sym.neg(m) if bool(sym.lt(a[1], sym.ZERO)) else m
            m = re.match(r'llvm\.([us])(add|sub|mul)\.with\.overflow', full)
            if m:
                x, y = a if m[1] == 'u' else [sgn(v, bits) for v in a]
                r = x + y if m[2] == 'add' else x - y if m[2] == 'sub' else x*y
                lo, hi = (0, 1 << bits) if m[1] == 'u' else (-(1 << bits - 1), 1 << bits - 1)
                return [r & ((1 << bits) - 1), int(not lo <= r < hi)]
            if n in ('minimum', 'maximum'):
                for x in a:
                    if isinstance(x, float) and x != x:
                        return x
                return self.builtin('fmin' if n == 'minimum' else 'fmax', a)
            if n == 'ctpop':
                return bin(a[0]).count('1')
            if n in ('fshl', 'fshr'):
                k = a[2] % bits
                w = (a[0] << bits | a[1])
                return (w >> (bits - k if n == 'fshl' else k)) & ((1 << bits) - 1)
            if n in ('bswap',):
                return int.from_bytes(a[0].to_bytes(bits//8, 'little'), 'big')
            if n in ('exp2', 'log', 'log10', 'log2', 'nearbyint'):
                return self.builtin(n, a)
            if n in ('stacksave', 'stackrestore', 'prefetch', 'expect'):
                return a[0] if a else 0
            if n == 'trap':
                raise Fault('trap', 'llvm.trap')
            raise Unsupported(f'intrinsic {full}')
        if n in ('sqrt', 'sqrtf64'):
            return sym.sqrt(a[0])
        if n in ('sin', 'cos', 'hypot', 'floor'):
            return {'sin': sym.sin, 'cos': sym.cos, 'hypot': sym.hypot, 'floor': sym.floor}[n](*a)
        if n == 'ceil':
            return sym.neg(sym.floor(sym.neg(a[0])))
        if n == 'trunc':
            return sym.trunc(a[0])
        if n == 'fabs':
            return sym.fabs(a[0])
        if n == 'tan':
            return sym.div(sym.sin(a[0]), sym.cos(a[0]))
        if n == 'exp':
            return sym.uf('exp', a[0])
        if n == 'copysign':
            return self.builtin('llvm.copysign.f64', a)
        if n == 'fma':
            return sym.add(sym.mul(a[0], a[1]), a[2])
        if n in ('fdim',):
            return sym.sub(a[0], a[1]) if bool(sym.lt(a[1], a[0])) else sym.ZERO
        if n == 'fmod':
            return sym.sub(a[0], sym.mul(a[1], sym.trunc(sym.div(a[0], a[1]))))
        if n == 'round':
            r = sym.floor(sym.add(sym.fabs(a[0]), const(Fraction(1, 2))))
            return sym.neg(r) if bool(sym.lt(a[0], sym.ZERO)) else r
        if n in ('atan', 'atan2'):
            return sym.uf(n, *a)
        if n == 'asin':
            return sym.arcsin(a[0])
        if n == 'acos':
            return sym.arccos(a[0])
        if n == 'pow':
            return sym.power(a[0], a[1])
        if n in ('fmin', 'fmax'):
            x, y = a
            if isinstance(x, float) and x != x:
                return y
            if isinstance(y, float) and y != y:
                return x
            l = bool(sym.lt(x, y))
            return x if l == (n == 'fmin') else y
        if n == 'sincos':
            self.mem.store(a[1], DBL, sym.sin(a[0]))
            self.mem.store(a[2], DBL, sym.cos(a[0]))
            return None
        if n in ('_Znwm', '_Znam', 'malloc'):
            return self.mem.alloc(a[0], 'heap')
        if n in ('_ZdlPv', '_ZdaPv', 'free', '_ZdlPvm', '_ZdaPvm'):
            if a[0]:
                o, off = self.mem.find(a[0], 0, 'free')
                if off:
                    raise Fault('bad-free', o.name)
                o.freed = True
            return None
        if n in ('memcpy', 'memmove'):
            self.memmove(*a)
            return a[0]
        if n == 'memset':
            self.memset(*a)
            return a[0]
        if n in ('printf', 'puts', 'putchar', 'fprintf', '__cxa_atexit', 'fflush'):
            return 0
        if n.startswith('_ZNSt8ios_base4Init'):
            return None
        if n in ('__cxa_pure_virtual', 'abort', '_ZSt9terminatev'):
            raise Fault('abort', n)
        if 'throw' in n:
            raise Fault('exception', n)
        if n.startswith('__kmpc_') or n.startswith('omp_'):
            return self.omp(n, a)
        raise Unsupported(f'external function {name}')

    # --- OpenMP runtime (modules compiled with -fopenmp) --------------------
    def omp(self, n, a):
        t = self.team
        if n == 'omp_get_max_threads':
            return self.size if self.m.openmp else 1
        if n in ('omp_get_num_threads', 'omp_get_thread_num'):
            if t is None:
                return 1 if n == 'omp_get_num_threads' else 0
            return self.size if n == 'omp_get_num_threads' else t.k
        if n == '__kmpc_fork_call':
            return self.fork(a)
        if n == '__kmpc_global_thread_num':
            return t.k if t is not None else 0
        if n in ('__kmpc_push_num_threads', '__kmpc_serialized_parallel', '__kmpc_end_serialized_parallel') \
                or n.startswith('__kmpc_for_static_fini'):
            return None
        if n.startswith('__kmpc_for_static_init'):
            bits = 32 if '_4' in n else 64
            signed = not n.endswith('u')
            # loc, gtid, schedule, plast, plower, pupper, pstride, increment, chunk
            inc = sgn(a[7], bits)
            lo, hi = (self.mem.load(p, INT(bits)) for p in a[4:6])
            if signed:
                lo, hi = sgn(lo, bits), sgn(hi, bits)
            if isinstance(lo, S) or isinstance(hi, S):
                raise Unsupported('parallel loop with symbolic bounds')
            if t is None:
                k, size = 0, 1
            else:
                k, size = t.k, self.size
            N = max((hi - lo)//inc + 1, 0)
            each = max(-(-N//size), 1)
            first = lo + k*each*inc
            last = first + (each - 1)*inc
            last = min(last, hi) if inc > 0 else max(last, hi)
            m = (1 << bits) - 1
            self.mem.store(a[4], INT(bits), first & m)
            self.mem.store(a[5], INT(bits), last & m)
            self.mem.store(a[6], INT(bits), (N*inc) & m)
            self.mem.store(a[3], INT(32), int(N > 0 and last == lo + (N-1)*inc))
            return None
        if n.startswith('__kmpc_dispatch_init'):
            bits = 32 if '_4' in n else 64
            # loc, gtid, schedule, lower, upper, stride, chunk
            lo, hi, st = (sgn(v, bits) for v in a[3:6])
            k, size = (t.k, self.size) if t is not None else (0, 1)
            N = max((hi - lo)//st + 1, 0)
            own = t if t is not None else self
            own.chunks = [lo + i*st for i in range(N) if i % size == k]
            own.last = lo + (N-1)*st
            return None
        if n.startswith('__kmpc_dispatch_next'):
            bits = 32 if '_4' in n else 64
            own = t if t is not None else self
            if not own.chunks:
                return 0
            v = own.chunks.pop(0)
            m = (1 << bits) - 1
            self.mem.store(a[2], INT(32), int(v == own.last))
            self.mem.store(a[3], INT(bits), v & m)
            self.mem.store(a[4], INT(bits), v & m)
            self.mem.store(a[5], INT(bits), 1)
            return 1
        if n.startswith('__kmpc_dispatch_fini'):
            return None
        if n in ('__kmpc_reduce_nowait', '__kmpc_reduce'):
            if t is not None:
                t.locks += 1
            return 1
        if n in ('__kmpc_critical', '__kmpc_critical_with_hint', '__kmpc_ordered'):
            if t is not None:
                t.locks += 1
            return None
        if n in ('__kmpc_end_reduce_nowait', '__kmpc_end_reduce', '__kmpc_end_critical', '__kmpc_end_ordered'):
            if t is not None:
                t.locks -= 1
            return None
        raise Unsupported(f'OpenMP runtime call {n}')

    def fork(self, a):
        """run the region once per thread, in turn, recording who touches what;
        without conflicts every interleaving has the effect of this one"""
        if self.team is not None:
            raise Unsupported('nested parallel region')
        self.regions += 1
        fn = self.addr2f.get(a[2])
        logs = []
        old = self.mem.trace
        try:
            for k in range(self.size):
                self.mem.trace = old
                t = self.team = Team(k)
                gt, bt = self.mem.alloc(4, 'gtid'), self.mem.alloc(4, 'btid')
                self.mem.store(gt, INT(32), k)
                self.mem.store(bt, INT(32), 0)
                top = self.mem.top
                log = t.log

                def note(kind, addr, size, t=t, log=log, top=top):
                    if addr >= top and self.mem.find(addr, 0, 'x')[0].base not in self.globals_at():
                        return
                    bit = (1 if kind == 'r' else 2) << (2 if t.locks else 0)
                    for o in range(size):
                        log[addr + o] = log.get(addr + o, 0) | bit
                self.mem.trace = note
                self.call(fn, [gt, bt] + list(a[3:]))
                logs.append(log)
        finally:
            self.team = None
            self.mem.trace = old
        for i in range(self.size):
            for j in range(i + 1, self.size):
                for ad in sorted(logs[i].keys() & logs[j].keys()):
                    x, y = logs[i][ad], logs[j][ad]
                    # an unlocked write against anything, anything unlocked against a write
                    if (x & 2 and y) or (y & 2 and x) or (x & 8 and y & 3) or (y & 8 and x & 3):
                        o, off = self.mem.find(ad, 0, 'x')
                        self.races.append(f'{fn}: threads {i} and {j} both access {o.name}+{off}, at least one writing')
                        break
        return None

    def globals_at(self):
        return set(self.gaddr.values())

    def memmove(self, d, s, n):
        if n == 0:
            return None
        so, soff = self.mem.find(s, n, 'read')
        do, doff = self.mem.find(d, n, 'write')
        if isinstance(so, HostBuf) or isinstance(do, HostBuf):
            step = (so.it if isinstance(so, HostBuf) else do.it)
            ty = DBL if step == 8 else INT(8)
            vs = [self.mem.load(s + k, ty) for k in range(0, n, step)]
            for k, v in enumerate(vs):
                self.mem.store(d + k*step, ty, v)
            return None
        cells = [(o, c) for o, c in so.cells.items() if soff <= o and o + c[1] <= soff + n]
        if self.mem.trace is not None:
            self.mem.trace('r', s, n)
            self.mem.trace('w', d, n)
        for o in [o for o in do.cells if doff <= o < doff + n]:
            del do.cells[o]
        for o, (v, sz) in cells:
            do.cells[o - soff + doff] = (v, sz)
        return None

    def memset(self, d, v, n):
        if n == 0:
            return None
        o, off = self.mem.find(d, n, 'write')
        if isinstance(o, HostBuf):
            if o.it == 8:
                if v != 0:
                    raise Unsupported('memset of doubles')
                for k in range(0, n, 8):
                    self.mem.store(d + k, DBL, sym.ZERO)
            else:
                for k in range(n):
                    self.mem.store(d + k, INT(8), v)
            return None
        if self.mem.trace is not None:
            self.mem.trace('w', d, n)
        for k in range(n):
            o.store(off + k, 1, v)
        return None


def int_lt(a, b):
    """a < b for integer-valued terms; sharpened to a <= b-1 when b is constant."""
    if b.op == 'c':
        return sym.le(a, const(b.val - 1))
    if a.op == 'c':
        return sym.le(const(a.val + 1), b)
    return sym.lt(a, b)
