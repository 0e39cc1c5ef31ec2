"""Builds the extension module from a tree's current sources into a scratch
directory and runs harness functions against it."""
import hashlib, json, os, shutil, subprocess, sys, sysconfig, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable


class Build:
    def __init__(self, repo, mode=''):
        self.dir = tempfile.mkdtemp(prefix='vf_real_')
        self.asan = mode == 'asan'
        self.tsan = mode == 'tsan'
        self.ok = False
        try:
            self._build(repo)
        except BaseException:
            self.close()
            raise

    def _build(self, repo):
        import pybind11
        inc = ['-I' + os.path.join(repo, 'include'), '-I' + pybind11.get_include(), '-I' + sysconfig.get_path('include')]
        flags = ['-std=c++17', '-fPIC', '-fvisibility=hidden', '-O0', '-fopenmp']
        if self.asan:
            flags = ['-std=c++17', '-fPIC', '-fvisibility=hidden', '-O0', '-g', '-fsanitize=address',
                     '-fsanitize=float-cast-overflow', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
        if self.tsan:
            flags = ['-std=c++17', '-fPIC', '-fvisibility=hidden', '-O0', '-g', '-fopenmp', '-fsanitize=thread', '-fno-omit-frame-pointer']
        pk = os.path.join(self.dir, 'batoid')
        shutil.copytree(os.path.join(repo, 'batoid'), pk, ignore=shutil.ignore_patterns('*.so', '__pycache__'))
        ob = os.path.join(self.dir, 'o')
        os.mkdir(ob)
        jobs = []
        for d in ('src', 'pysrc'):
            for f in sorted(os.listdir(os.path.join(repo, d))):
                if f.endswith('.cpp'):
                    jobs.append((os.path.join(repo, d, f), os.path.join(ob, d + '_' + f + '.o')))

        def one(j):
            r = subprocess.run(['g++', *flags, *inc, '-c', j[0], '-o', j[1]], capture_output=True, text=True)
            if r.returncode:
                raise RuntimeError('g++ failed on %s: %s' % (j[0], r.stderr[:1500]))
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, jobs))
        objs = [j[1] for j in jobs]
        link = flags
        if self.tsan:
            # the system's OpenMP runtime is not instrumented: its locks and joins
            # would be invisible, so a small one on plain pthreads stands in
            shim = os.path.join(ob, 'team.o')
            one((os.path.join(HERE, 'team.cpp'), shim))
            objs.append(shim)
            link = [f for f in flags if f != '-fopenmp'] + ['-pthread']
        so = os.path.join(pk, '_batoid' + sysconfig.get_config_var('EXT_SUFFIX'))
        r = subprocess.run(['g++', *link, '-shared', *objs, '-o', so], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError('link failed: ' + r.stderr[:1500])
        shutil.rmtree(ob)
        self.ok = True

    def run(self, spec, timeout=240):
        """spec: dict(check, harness, cfg, env) -> result dict"""
        env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
        env.update(PYTHONPATH=self.dir, VF_BUILD=self.dir, OMP_NUM_THREADS='4', PYTHONDONTWRITEBYTECODE='1')
        if self.asan:
            lib = subprocess.run(['g++', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
            cpp = subprocess.run(['g++', '-print-file-name=libstdc++.so'], capture_output=True, text=True).stdout.strip()
            env.update(LD_PRELOAD=lib + ' ' + cpp, ASAN_OPTIONS='detect_leaks=0:exitcode=77:allocator_may_return_null=1',
                       UBSAN_OPTIONS='print_stacktrace=0:exitcode=77', PYTHONMALLOC='malloc', OMP_NUM_THREADS='1')
        cmd = [PY, os.path.join(HERE, 'replay.py')]
        if self.tsan:
            lib = subprocess.run(['g++', '-print-file-name=libtsan.so'], capture_output=True, text=True).stdout.strip()
            cpp = subprocess.run(['g++', '-print-file-name=libstdc++.so'], capture_output=True, text=True).stdout.strip()
            env.update(LD_PRELOAD=lib + ' ' + cpp, TSAN_OPTIONS='exitcode=66:halt_on_error=1:report_signal_unsafe=0',
                       OPENBLAS_NUM_THREADS='1')
            fixed = ['setarch', '-R']       # address layout as the sanitizer expects it
            if subprocess.run(fixed + ['true'], capture_output=True).returncode == 0:
                cmd = fixed + cmd
        try:
            r = subprocess.run(cmd, input=json.dumps(spec), capture_output=True,
                               text=True, env=env, timeout=timeout)
        except subprocess.TimeoutExpired:
            return {'status': 'timeout'}
        for line in reversed(r.stdout.splitlines()):
            if line.startswith('RESULT '):
                return json.loads(line[7:])
        tail = (r.stderr or '')
        k = tail.find('WARNING: ThreadSanitizer: data race')
        if k < 0:
            k = tail.find('ERROR: AddressSanitizer')
        if k < 0:
            k = tail.find('runtime error')
        return {'status': 'crash', 'rc': r.returncode, 'detail': tail[max(k - 60, 0):k + 400] if k >= 0 else tail[-400:],
                'sanitizer': k >= 0}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
