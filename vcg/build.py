"""Mechanical extraction: configure /repo out of tree, compile translation units to IR."""
import os
import subprocess
import tempfile
import hashlib
import shutil
import pickle
from . import ir

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = '/usr/bin/clang-18'


class BuildError(Exception):
    pass


class Build:
    def __init__(self, crc=False, root=None):
        self.dir = root or tempfile.mkdtemp(prefix='vcg-')
        self.own = root is None
        self.gen = os.path.join(self.dir, 'b', 'generated')
        self.cache = {}
        self.configured = False
        self.crc = crc

    def configure(self):
        if self.configured:
            return
        b = os.path.join(self.dir, 'b')
        env = dict(os.environ, CC='/usr/bin/gcc')
        for k in ('CFLAGS', 'LDFLAGS'):
            env.pop(k, None)
        r = subprocess.run(['cmake', '-S', REPO, '-B', b, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=RelWithDebInfo',
                            '-DBFDEV_EXAMPLES=OFF', '-DBFDEV_TESTSUITE=OFF', '-DBFDEV_STRICT=OFF'],
                           capture_output=True, text=True, env=env)
        if r.returncode:
            raise BuildError('cmake: ' + r.stderr[-500:])
        if self.crc:
            r = subprocess.run(['ninja', '-C', b, 'gen-crc8', 'gen-crc16', 'gen-crc32', 'gen-crc64', 'gen-crc16be', 'gen-crc32be', 'gen-crc64be'],
                               capture_output=True, text=True, env=env)
            if r.returncode:
                raise BuildError('gen-crc: ' + r.stdout[-500:])
        self.configured = True

    def flags(self):
        return ['-std=gnu11', '-w', '-I' + REPO + '/include', '-I' + self.gen, '-I' + REPO + '/arch/generic/include', '-I' + HERE + '/harness', '-I' + REPO]

    def module(self, src, defs=()):
        """src relative to /repo (or absolute under /verif)"""
        key = (src, tuple(defs))
        if key in self.cache:
            return self.cache[key]
        self.configure()
        path = src if src.startswith('/') else os.path.join(REPO, src)
        out = os.path.join(self.dir, '%s-%d.ll' % (hashlib.md5(repr(key).encode()).hexdigest(), os.getpid()))
        cmd = [CLANG, '-O0', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-S', '-emit-llvm'] + self.flags() + \
              ['-D' + d for d in defs] + [path, '-o', out]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError('clang %s: %s' % (src, r.stderr[-800:]))
        try:
            m = ir.parse_module(open(out).read())
        except Exception as e:
            raise BuildError('IR parse of %s: %r' % (src, e))
        os.unlink(out)
        m.src = src
        self.cache[key] = m
        return m

    def native(self, srcs, out, extra=(), cc=None, san=True, opt='-O1'):
        """compile a native program from harness sources + library sources"""
        self.configure()
        cc = cc or '/usr/bin/gcc'
        cmd = [cc, opt, '-g'] + (['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'] if san else []) + self.flags() + list(extra)
        cmd += [s if s.startswith('/') else os.path.join(REPO, s) for s in srcs] + ['-o', out]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError('gcc: ' + r.stderr[-1500:])
        return out

    def lib(self, san=True, opt='-O1'):
        """all library sources as one archive (parallel compile)"""
        self.configure()
        tag = 'lib-%s%s' % ('san' if san else 'plain', opt)
        a = os.path.join(self.dir, tag + '.a')
        if os.path.exists(a):
            return a
        od = os.path.join(self.dir, tag)
        os.makedirs(od, exist_ok=True)
        import glob
        skip = {'color.c', 'level.c'}
        srcs = [s for s in sorted(glob.glob(REPO + '/src/*.c') + glob.glob(REPO + '/src/*/*.c') + glob.glob(REPO + '/src/port/generic/*.c')) if os.path.basename(s) not in skip]
        srcs += sorted(glob.glob(REPO + '/arch/generic/*.c') + glob.glob(REPO + '/arch/generic/src/*.c'))
        procs = []
        objs = []
        for i, s in enumerate(srcs):
            o = os.path.join(od, '%d.o' % i)
            objs.append(o)
            cmd = ['/usr/bin/gcc', opt, '-g', '-c'] + (['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'] if san else []) + self.flags() + [s, '-o', o]
            procs.append((s, subprocess.Popen(cmd, stderr=subprocess.PIPE, text=True)))
            if len(procs) >= 12:
                s0, p = procs.pop(0)
                e = p.communicate()[1]
                if p.returncode:
                    raise BuildError('gcc %s: %s' % (s0, e[-800:]))
        for s0, p in procs:
            e = p.communicate()[1]
            if p.returncode:
                raise BuildError('gcc %s: %s' % (s0, e[-800:]))
        subprocess.run(['ar', 'rcs', a] + objs, check=True)
        return a

    def close(self):
        if self.own:
            shutil.rmtree(self.dir, ignore_errors=True)
