"""mkseed.py SPEC.py : writes /verif/seeded/<id>/ (patch.diff, demo.sh, demo.c, meta.json) from a list of seed descriptions and confirms
each one: applies, builds, keeps the stable tests passing, demo passes without and fails with the patch."""
import sys, os, json, subprocess, tempfile, shutil, difflib
SEEDS = '/verif/seeded'
DEMO = '''#!/bin/sh
# run with cwd = the repository, after its build
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
I="-Imodules/core/include -Imodules/process/include -Imodules/algorithm/include -Imodules/highgui/include -Itest_tool"
%(comp)s
(cd "$d" && timeout 100 ./demo)
'''
COMP_C = '''gcc -g -w -fsanitize=address,undefined -fno-sanitize=alignment,vptr -fno-sanitize-recover=all $I -o "$d/demo" "$here/demo.c" %s -lm || exit 2
export ASAN_OPTIONS=detect_leaks=%d'''
COMP_CXX = '''for f in %s; do gcc -g -w -fsanitize=address,undefined -fno-sanitize=alignment,vptr $I -c "$f" -o "$d/$(basename $f).o" || exit 2; done
g++ -std=gnu++11 -g -w -fsanitize=address,undefined -fno-sanitize=alignment,vptr -fno-sanitize-recover=all $I -o "$d/demo" "$here/demo.cpp" %s "$d"/*.o -lm || exit 2
export ASAN_OPTIONS=detect_leaks=%d'''
CORE = 'modules/core/src/c_src/*.c'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def make(s):
    d = os.path.join(SEEDS, s['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    patch = ''
    for f, edits in s['edits'].items():
        src = open('/repo/' + f, encoding='utf-8', errors='surrogateescape', newline='').read()
        new = src
        for e in edits:
            a, b = e[0], e[1]
            k = e[2] if len(e) > 2 else 0
            if '\r\n' in src:
                a, b = a.replace('\n', '\r\n'), b.replace('\n', '\r\n')
            parts = new.split(a)
            assert len(parts) > k + 1, (s['id'], f, a)
            new = a.join(parts[:k + 1]) + b + a.join(parts[k + 1:])
        assert sh('git -C /repo status --porcelain').stdout.strip() == ''
        open('/repo/' + f, 'w', encoding='utf-8', errors='surrogateescape', newline='').write(new)
        r = subprocess.run(['git', '-C', '/repo', 'diff', '--', f], capture_output=True)
        patch += r.stdout.decode('utf-8', 'surrogateescape')
        sh('git -C /repo checkout -- .')
    open(d + '/patch.diff', 'w', encoding='utf-8', errors='surrogateescape', newline='').write(patch)
    cxx = s.get('cxx')
    libs = s.get('src', CORE + ' modules/process/src/c_src/*.c')
    leaks = 1 if s.get('leaks') else 0
    if cxx:
        comp = COMP_CXX % (libs, s.get('xsrc', 'modules/core/src/cxx_src/*.cpp modules/process/src/cxx_src/*.cpp'), leaks)
    else:
        comp = COMP_C % (libs, leaks)
    open(d + '/demo.sh', 'w').write(DEMO % {'comp': comp})
    os.chmod(d + '/demo.sh', 0o755)
    open(d + ('/demo.cpp' if cxx else '/demo.c'), 'w').write(s['demo'])
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)


def confirm(i, tests=True):
    d = os.path.join(SEEDS, i)
    assert sh('git -C /repo status --porcelain').stdout.strip() == '', 'dirty /repo'
    t = tempfile.mkdtemp()
    shutil.copytree(d, t + '/x')
    msg = []
    try:
        r = sh('sh %s/x/demo.sh' % t, cwd='/repo')
        msg.append('clean rc=%d' % r.returncode)
        ok = r.returncode == 0
        if not ok:
            msg.append((r.stdout + r.stderr)[-600:])
        a = sh('git -C /repo apply %s/patch.diff' % d)
        if a.returncode:
            return False, 'does not apply: ' + a.stderr
        try:
            r = sh('sh %s/x/demo.sh' % t, cwd='/repo')
            msg.append('patched rc=%d' % r.returncode)
            ok = ok and r.returncode not in (0, 2)
            if r.returncode in (0, 2):
                msg.append((r.stdout + r.stderr)[-300:])
            if tests:
                r = sh('bash /opt/vp/test.sh %s/o.json' % t)
                res = json.load(open(t + '/o.json'))
                base = json.load(open('/opt/vp/BASELINE.json'))
                st = base.get('stable') or base.get('passed') or base
                st = st if isinstance(st, list) else sorted(st)
                miss = [x for x in st if x not in res['passed']]
                msg.append('tests missing: %s' % miss)
                ok = ok and not miss
        finally:
            sh('git -C /repo checkout -- .')
            if tests:
                sh('bash /opt/vp/build.sh')
    finally:
        shutil.rmtree(t)
    return ok, '; '.join(msg)


if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for s in ns['SEEDLIST']:
        if only and s['id'] not in only:
            continue
        make(s)
        ok, m = confirm(s['id'])
        print(s['id'], 'OK' if ok else 'BAD', m)
