#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in bugs/*.py and, with --verify, confirms them.
Definition: BUG = dict(id, property, needs, what, edits=[(file, old, new[, count])], py=... | go=(pkg, source))"""
import glob, json, os, shutil, subprocess, sys, tempfile, runpy
HERE = os.path.dirname(os.path.abspath(__file__))
SEED = os.path.join(os.path.dirname(os.path.dirname(HERE)), 'seeded')
LIB = os.path.join(os.path.dirname(os.path.dirname(HERE)), 'lib')

PYSH = '''#!/bin/bash
# run with cwd /repo; exit 0 if the property holds
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export PYTHONDONTWRITEBYTECODE=1
exec timeout 200 python3 "$here/demo.py"
'''
GOSH = '''#!/bin/bash
# run with cwd /repo; exit 0 if the property holds
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
echo "{\\"Replace\\": {\\"$PWD/%(pkg)s/zz_demo_test.go\\": \\"$here/demo_test.go.txt\\"}}" > "$tmp/overlay.json"
timeout 200 go test -vet=off -count=1 -overlay "$tmp/overlay.json" -run TestZZDemo ./%(pkg)s
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def write(b):
    d = os.path.join(SEED, b['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for e in b['edits']:
        p = os.path.join('/repo', e[0])
        s = open(p).read()
        n = e[3] if len(e) > 3 else 1
        if s.count(e[1]) != n:
            sh('git -C /repo checkout -- .')
            raise SystemExit('%s: %d matches of %r in %s' % (b['id'], s.count(e[1]), e[1], e[0]))
        open(p, 'w').write(s.replace(e[1], e[2]))
    r = subprocess.run(['git', '-C', '/repo', 'diff'], stdout=subprocess.PIPE, text=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(r.stdout)
    g = sh('gofmt -l $(git diff --name-only)', cwd='/repo')
    if g.stdout.strip():
        print(b['id'], 'gofmt:', g.stdout)
    sh('git -C /repo checkout -- .')
    if 'py' in b:
        open(os.path.join(d, 'demo.py'), 'w').write(b['py'].lstrip('\n'))
        for f in (HERE + '/lab.py', LIB + '/iscsi.py', LIB + '/cdb.py'):
            shutil.copy(f, d)
        s = PYSH
    else:
        open(os.path.join(d, 'demo_test.go.txt'), 'w').write(b['go'][1].lstrip('\n'))
        s = GOSH % {'pkg': b['go'][0]}
    open(os.path.join(d, 'demo.sh'), 'w').write(s)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def demo(d):
    t = tempfile.mkdtemp(prefix='elsewhere')
    try:
        for f in os.listdir(d):
            if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
                shutil.copy(os.path.join(d, f), t)
        return sh('bash %s/demo.sh' % t, cwd='/repo')
    finally:
        shutil.rmtree(t)


def verify(b, tests=True):
    d = os.path.join(SEED, b['id'])
    r = demo(d)
    if r.returncode != 0:
        return 'demo fails on the unchanged tree: ' + r.stdout[-1500:]
    r = sh('git -C /repo apply %s/patch.diff' % d)
    if r.returncode:
        return 'patch: ' + r.stdout
    try:
        r = sh('bash /opt/vp/build.sh')
        if r.returncode:
            return 'build: ' + r.stdout[-1500:]
        r = demo(d)
        if r.returncode == 0:
            return 'demo passes with the change: ' + r.stdout[-500:]
        out = r.stdout.strip().splitlines()[-3:]
        if tests:
            sh('bash /opt/vp/test.sh /tmp/plant.json')
            res = json.load(open('/tmp/plant.json'))
            base = json.load(open('/opt/vp/BASELINE.json'))
            bad = compare(base, res)
            if bad:
                return 'tests fail: %s' % bad
        return 'ok: ' + ' | '.join(out)[:300]
    finally:
        sh('git -C /repo checkout -- .')


def ids(j):
    for k in ('passed', 'stable', 'pass', 'tests'):
        if k in j:
            v = j[k]
            return set(v if isinstance(v, list) else [t for t, s in v.items() if s in ('pass', 'passed', True)])
    raise SystemExit('format %s' % list(j))


def compare(base, res):
    return sorted(ids(base) - ids(res))


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    os.makedirs(SEED, exist_ok=True)
    bugs = []
    for f in sorted(glob.glob(HERE + '/bugs/*.py')):
        bugs += runpy.run_path(f)['BUGS']
    for b in bugs:
        if args and b['id'] not in args:
            continue
        write(b)
        if '--write' not in sys.argv:
            print(b['id'], verify(b, '--notest' not in sys.argv), flush=True)
    sh('bash /opt/vp/build.sh')
