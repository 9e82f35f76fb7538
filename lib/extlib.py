"""Builds the native readers from the current tree and drives a PyPy process that uses them."""
import os
import pickle
import select
import shutil
import signal
import struct
import subprocess
import tempfile
import time
from runner import HarnessError, Violation, REPO, VERIF

PYPY = '/opt/venv-ext/bin/python'
SAN = '-fsanitize=address,undefined -fno-sanitize=enum,alignment,vptr -fno-sanitize-recover=undefined -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS'


def gcc_file(name):
    return subprocess.check_output(['gcc', '-print-file-name=' + name], text=True).strip()


def build(dst, san=False):
    """copy of the package with freshly built native readers; returns its path"""
    os.makedirs(dst)
    src = os.path.join(dst, 'src')
    shutil.copytree(os.path.join(REPO, 'src'), src, ignore=shutil.ignore_patterns('*.so', '*.pyc', '__pycache__', '*.egg-info'))
    for name in ('setup.py', 'README.md', 'README.rst', 'setup.cfg', 'pyproject.toml'):
        p = os.path.join(REPO, name)
        if os.path.exists(p):
            shutil.copy(p, dst)
    # generated by Cython
    for root, dirs, files in os.walk(src):
        for f in files:
            if f.endswith('.cpp') and os.path.exists(os.path.join(root, f[:-4] + '.pyx')):
                os.remove(os.path.join(root, f))
    env = {k: v for k, v in os.environ.items() if k not in ('CFLAGS', 'CXXFLAGS', 'LDFLAGS', 'PYTHONPATH', 'LD_PRELOAD')}
    env.update(PYAVB_BUILD_EXT='1', HOME=dst, PYTHONDONTWRITEBYTECODE='1')
    if san:
        env.update(CFLAGS=SAN, LDFLAGS='-fsanitize=address,undefined')
    p = subprocess.run([PYPY, 'setup.py', 'build_ext', '--inplace'], cwd=dst, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ok = p.returncode == 0 and any(f.endswith('.so') for r, d, fs in os.walk(src) for f in fs)
    if not ok:
        raise HarnessError('the native readers do not build:\n' + p.stdout[-2000:])
    return src


class Server(object):
    def __init__(self, src, scratch, san=False, mem=None):
        self.src, self.san, self.mem = src, san, mem
        self.dir = tempfile.mkdtemp(prefix='ext', dir=scratch)
        self.p = None

    def start(self):
        env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'LD_PRELOAD')}
        env.update(PYTHONPATH=self.src + ':' + os.path.join(VERIF, 'lib'), PYTHONDONTWRITEBYTECODE='1', EXT_SCRATCH=self.dir)
        if self.mem:
            env['EXT_AS'] = str(self.mem)
        if self.san:
            env['LD_PRELOAD'] = ':'.join(gcc_file(x) for x in ('libasan.so', 'libubsan.so', 'libstdc++.so.6'))
            env['ASAN_OPTIONS'] = 'detect_leaks=0:max_allocation_size_mb=256:allocator_may_return_null=0:handle_segv=1:abort_on_error=0:exitcode=77'
            env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=77'
        self.err = open(os.path.join(self.dir, 'stderr'), 'w+b')
        self.p = subprocess.Popen([PYPY, '-S' if False else '-B', os.path.join(VERIF, 'lib', 'extserver.py')], env=env, cwd=self.dir,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err)
        self.n = 0
        if self.ask(('hello',), 120) != 'ready':
            raise HarnessError('the PyPy server does not answer')

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.err.close()
            self.p = None

    def read(self, n, until):
        fd = self.p.stdout.fileno()
        buf = b''
        while len(buf) < n:
            left = until - time.time()
            if left <= 0 or not select.select([fd], [], [], left)[0]:
                raise CaseHang()
            x = os.read(fd, n - len(buf))
            if not x:
                raise EOFError
            buf += x
        return buf

    def ask(self, request, timeout=60):
        """the answer; Violation when the process dies or doesn't answer"""
        if self.p is None:
            self.start()
        hello = request[0] == 'hello'
        data = pickle.dumps(request, 4)
        self.err.seek(0)
        self.err.truncate()
        try:
            self.p.stdin.write(struct.pack('<I', len(data)) + data)
            self.p.stdin.flush()
            until = time.time() + timeout
            n, = struct.unpack('<I', self.read(4, until))
            ans = pickle.loads(self.read(n, until))
        except CaseHang:
            self.stop()
            raise (HarnessError if hello else Violation)('no answer after %d s' % timeout)
        except (EOFError, OSError):
            rc = self.p.wait()
            self.err.seek(0)
            txt = self.err.read().decode('utf-8', 'replace')
            self.stop()
            raise (HarnessError if hello else Violation)('the process died (%s)\n%s' % (rc, digest(txt)))
        if ans[0] == 'harness':
            raise HarnessError(ans[1])
        return ans[0] if hello else ans


class CaseHang(Exception):
    pass


def digest(txt):
    lines = [l for l in txt.splitlines() if l.strip()]
    at = [i for i, l in enumerate(lines) if 'ERROR' in l or 'runtime error' in l or 'Assertion' in l]
    return '\n'.join(lines[at[0]:at[0] + 12] if at else lines[-8:])
