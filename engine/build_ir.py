"""Compile the current /repo sources (copied to a scratch directory) plus the
driver translation unit of this framework to one linked LLVM IR module."""
import glob
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('GINV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = next((p for p in ('/usr/bin/clang++-18', '/usr/lib/llvm-18/bin/clang++', '/usr/bin/clang++')
              if os.path.exists(p)), 'clang++')


def tool(n):
    for p in ('/usr/bin/%s-18' % n, '/usr/lib/llvm-18/bin/' + n, '/usr/bin/' + n):
        if os.path.exists(p):
            return p
    return n


FLAGS = ['-std=c++11', '-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-fno-access-control',
         '-DNDEBUG', '-fno-discard-value-names', '-Wno-everything', '-S', '-emit-llvm']


class BuildError(Exception):
    pass


def cmake_list(d):
    """library sources named by the CMakeLists of a directory"""
    txt = open(os.path.join(d, 'CMakeLists.txt'), errors='replace').read()
    txt = re.sub(r'#.*', '', txt)
    m = re.search(r'add_library\s*\(([^)]*)\)', txt, re.I)
    src = re.findall(r'[\w./+-]+\.(?:cpp|cc|cxx)\b', m.group(1)) if m else []
    if not src:
        src = [os.path.basename(p) for p in sorted(glob.glob(os.path.join(d, '*.cpp')))]
    return src


def gen_config(src, dst):
    out = []
    for ln in open(src, errors='replace'):
        m = re.match(r'#cmakedefine\s+(\w+)', ln)
        if m:
            out.append('/* #undef %s */' % m.group(1) if m.group(1).endswith('WIN32') else '#define %s' % m.group(1))
        else:
            out.append(ln.rstrip('\n'))
    open(dst, 'w').write('\n'.join(out) + '\n')


class Build:
    """with Build() as b: b.ll is the path of the linked module"""

    def __init__(self, drivers=('driver.cpp',), keep=None, asserts=False):
        self.drivers, self.keep, self.asserts = drivers, keep, asserts

    def __enter__(self):
        self.tmp = self.keep or tempfile.mkdtemp(prefix='ginvstatic.')
        try:
            self._build()
        except Exception:
            self.__exit__()
            raise
        return self

    def __exit__(self, *a):
        if not self.keep:
            shutil.rmtree(self.tmp, ignore_errors=True)

    def _build(self):
        srcs = []
        for d in ('util', 'ginv'):
            s, t = os.path.join(REPO, d), os.path.join(self.tmp, d)
            os.makedirs(t, exist_ok=True)
            for p in os.listdir(s):
                if p.endswith(('.h', '.hpp', '.cpp', '.cc', '.inl', '.tpp')):
                    shutil.copy(os.path.join(s, p), os.path.join(t, p))
            gen_config(os.path.join(s, 'config.h.in'), os.path.join(t, 'config.h'))
            srcs += [os.path.join(t, c) for c in cmake_list(s)]
        for c in self.drivers:
            srcs.append(os.path.join(VERIF, 'drivers', c))

        def one(i_src):
            i, src = i_src
            out = os.path.join(self.tmp, 'm%d.ll' % i)
            r = subprocess.run([CLANG] + [f for f in FLAGS if not (self.asserts and f == '-DNDEBUG')] + ['-I', self.tmp, src, '-o', out], capture_output=True, text=True)
            if r.returncode:
                raise BuildError('%s: %s' % (src.replace(self.tmp, REPO), r.stderr[:2000]))
            return out
        with ThreadPoolExecutor(8) as ex:
            lls = list(ex.map(one, enumerate(srcs)))
        linked = os.path.join(self.tmp, 'linked.ll')
        self.ll = os.path.join(self.tmp, 'all.ll')
        for cmd in ([tool('llvm-link'), '-S', '-o', linked] + lls,
                    [tool('opt'), '-S', '-passes=sroa', linked, '-o', self.ll]):
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode:
                raise BuildError(' '.join(cmd[:3]) + ': ' + r.stderr[:2000])

    def repo_path(self, p):
        p = os.path.normpath(p)
        if p.startswith(self.tmp + '/'):
            return REPO + p[len(self.tmp):]
        return p
