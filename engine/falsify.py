"""Search for a failing input of one case against the compiled code (used after an obligation has failed)."""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from . import frontend

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment,shift', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']


def sources():
    out = []
    for m in ('core', 'process', 'algorithm', 'highgui'):
        for pat in ('src/*.c', 'src/c_src/*.c', 'src/cxx_src/*.cpp'):
            out += glob.glob('%s/modules/%s/%s' % (frontend.REPO, m, pat))
    return [s for s in sorted(out) if not s.endswith(('smshow.c', 'window_gtk.c'))]


def build_lib(d, need=(), extra=()):
    """d: scratch directory; returns (path of the shared library, text of the last error)"""
    procs = []
    keep = ['-fkeep-static-functions', '-fno-inline']
    need = [frontend.path_of(n) for n in need]
    base = ['-g', '-O1', '-fPIC', '-w'] + keep + SAN + ['-include', HERE + '/replay/shim.h']
    srcs = list(dict.fromkeys(need + sources()))
    objs = []
    for i, s in enumerate(srcs):
        o = os.path.join(d, '%d_%s.o' % (i, os.path.basename(s)))
        cxx = s.endswith(('.cpp', '.cc'))
        cmd = (['g++', '-std=gnu++11'] if cxx else ['gcc']) + base + frontend.DEFS + frontend.incs() + list(extra) + ['-c', s, '-o', o]
        procs.append((s, o, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
    for s, o, cxx in ((HERE + '/replay/shim.c', d + '/shim.o', 0), (HERE + '/replay/shimxx.cpp', d + '/shimxx.o', 1)):
        procs.append((s, o, subprocess.Popen((['g++'] if cxx else ['gcc']) + ['-g', '-O1', '-fPIC', '-w', '-c', s, '-o', o], stderr=subprocess.PIPE, text=True)))
    err = ''
    for s, o, p in procs:
        _, e = p.communicate()
        if p.returncode == 0:
            objs.append(o)
        else:
            err = '%s: %s' % (s, e[:1500])
            if s in need:
                return None, err
    # file-local functions under contract become callable
    for o in objs:
        if not o.endswith(('shim.o', 'shimxx.o')):
            nm = subprocess.run(['nm', o], capture_output=True, text=True).stdout
            loc = [(x[2], x[0]) for x in (ln.split() for ln in nm.splitlines()) if len(x) == 3 and x[1] == 't' and re.match(r'^[A-Za-z]\w*$', x[2])
                   and not x[2].startswith('_GLOBAL')]
            if loc:
                subprocess.run(['objcopy'] + ['--add-symbol=hvs_%s=.text:0x%s,global,function' % x for x in loc] + [o])
    so = d + '/libhv.so'
    r = subprocess.run(['g++', '-shared', '-o', so] + SAN[:1] + objs + ['-Wl,-z,lazy', '-Wl,--unresolved-symbols=ignore-all', '-Wl,-z,muldefs', '-lm'],
                       capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr[:2000]
    return so, err


def asan_path():
    return subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()


def run(prop, case, so, scratch, seconds=60, seed=1, hints=(), one=None, consts=()):
    """returns None or a dict describing the failing input"""
    t_end = time.time() + seconds
    k = 0
    stats = {'rounds': 0, 'checked': 0}
    while time.time() < t_end:
        k += 1
        job = {'prop': prop, 'case': case, 'so': so, 'seed': seed * 1000003 + k * 7919, 'seconds': max(1.0, t_end - time.time()),
               'hints': list(hints), 'one': one, 'consts': list(consts)}
        jf = os.path.join(scratch, 'job_%d_%d.json' % (os.getpid(), abs(hash((case, seed))) % 10**9))
        json.dump(job, open(jf, 'w'))
        env = dict(os.environ)
        # only the native worker is preloaded
        env.update({'LD_PRELOAD': asan_path(), 'ASAN_OPTIONS': 'detect_leaks=0:exitcode=97:allocator_may_return_null=1:detect_stack_use_after_return=0',
                    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=96', 'PYTHONDONTWRITEBYTECODE': '1'})
        out = jf + '.out'
        err = jf + '.err'
        with open(out, 'w') as fo, open(err, 'w') as fe:
            try:
                wd = tempfile.mkdtemp(dir=scratch)
                p = subprocess.Popen([sys.executable, HERE + '/bin/concworker.py', jf], stdout=fo, stderr=fe, env=env, cwd=wd)
                rc = p.wait(timeout=(t_end - time.time()) + 25)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = 'timeout'
        lines = []
        for ln in open(out, errors='replace'):
            if ln.startswith('@@'):
                try:
                    lines.append(json.loads(ln[2:]))
                except ValueError:
                    pass
        etxt = open(err, errors='replace').read()
        last = None
        for x in lines:
            if 'round' in x:
                last = {'seed': x['round'], 'k': x.get('k')}
            elif 'call' in x and last is not None:
                last.update(x)
            elif 'violation' in x:
                last.update(x)
                return dict(last, kind='postcondition', stats=stats, hints=list(hints), consts=list(consts))
            elif 'stats' in x:
                stats = {a: stats[a] + x['stats'].get(a, 0) for a in stats}
            elif 'unsupported' in x:
                return None if not one else dict(last or {}, kind='unsupported', why=x['unsupported'])
            elif 'returned' in x:
                last.pop('call', None)
        if rc == 0:
            if one or not lines:
                return None
            continue
        if last and 'call' in last:
            msg = ''
            for ln in etxt.splitlines():
                if 'ERROR: AddressSanitizer' in ln or 'runtime error' in ln or 'HV: the code' in ln or 'Assertion' in ln or 'assert' in ln.lower():
                    msg = ln.strip()[:400]
                    break
            return dict(last, kind='abnormal termination or memory error', status=str(rc), message=msg or etxt[-400:], stats=stats, hints=list(hints), consts=list(consts))
        if rc == 'timeout' or one:
            return None
        if etxt and k > 3:
            return {'kind': 'harness', 'message': etxt[-1500:]} if os.environ.get('HVDBG') else None
    run.stats = stats
    return None
