"""Mechanical extraction: compile /repo's current sources to IR with clang -O0, then parse."""
import os
import subprocess
import tempfile
import hashlib
import shutil
from . import llparse

REPO = os.environ.get('VERIF_REPO', '/repo')
DEFS = ['-D_cplusplus', '-Dgdal_switch=1', '-DUSE_SDL=1', '-DX11_switch=1']


def incs():
    out = []
    for m in ('core', 'process', 'algorithm', 'highgui'):
        out.append('-I%s/modules/%s/include' % (REPO, m))
    out += ['-I%s/modules' % REPO, '-I%s/test_tool' % REPO, '-I/usr/include/gdal', '-I/usr/include/SDL']
    return out


class CompileError(Exception):
    pass


def compile_ir(src, extra=()):
    """returns IR text for one translation unit"""
    cxx = src.endswith(('.cpp', '.cc', '.hpp'))
    cmd = ['clang++' if cxx else 'clang', '-O0', '-g', '-fPIC', '-fno-discard-value-names', '-Xclang', '-disable-O0-optnone',
           '-S', '-emit-llvm', '-Wno-everything', '-Wno-error=implicit-function-declaration',
           '-Wno-error=int-conversion', '-ffp-contract=off']
    if cxx:
        cmd += ['-std=gnu++11', '-fno-exceptions']
    cmd += list(extra)
    cmd += DEFS + incs() + ['-o', '-', src]
    r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', cwd=REPO)
    if r.returncode != 0:
        raise CompileError('%s\n%s' % (' '.join(cmd), r.stderr[:4000]))
    return r.stdout


HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def path_of(f):
    """files are relative to the repository; '@x' is an entry-point file of /verif that includes repository sources"""
    return os.path.join(HERE, f[1:]) if f.startswith('@') else f if f.startswith('/') else os.path.join(REPO, f)


def load(files, extra=()):
    """files: paths relative to REPO (or absolute).  Each unit is parsed to its own module (statics kept apart) and
    linked by name: returns a Program."""
    prog = Program()
    for f in files:
        p = path_of(f)
        txt = compile_ir(p, extra)
        m = llparse.parse_module(txt)
        m.path = f
        prog.add(m)
    return prog


class Program:
    def __init__(self):
        self.mods = []

    def add(self, m):
        self.mods.append(m)

    def find(self, name, mod=None):
        """function definition by IR name (with @), preferring the calling module"""
        if mod is not None:
            f = mod.functions.get(name)
            if f is not None and not f.declared_only:
                return f, mod
        for m in self.mods:
            f = m.functions.get(name)
            if f is not None and not f.declared_only:
                return f, m
        return None, None

    def fn(self, name):
        f, m = self.find('@' + name)
        if f is None:
            raise KeyError(name)
        return f, m

    def has(self, name):
        return self.find('@' + name)[0] is not None

    def constants(self):
        """integer constants appearing in the code (used to seed the replay drivers)"""
        out = set()
        for m in self.mods:
            for f in m.functions.values():
                for b in f.blocks.values():
                    for i in b.ins:
                        for a in i.a:
                            if isinstance(a, llparse.Val) and a.k == 'int':
                                out.add(a.v)
        return out
