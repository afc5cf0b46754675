#!/usr/bin/env python3
"""catch.py [-j N] [--tier quick] ids...: runs each bug's property check on a scratch copy of /repo with the bug."""
import concurrent.futures as cf, glob, json, os, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SEED = VERIF + '/seeded'


def one(b, props=None, tier='quick'):
    d = tempfile.mkdtemp(prefix='catch')
    try:
        subprocess.run('git clone -q /repo %s/repo && git -C %s/repo apply %s/%s/patch.diff' % (d, d, SEED, b), shell=True, check=True)
        out = []
        for p in props or [json.load(open('%s/%s/meta.json' % (SEED, b)))['property']]:
            t = time.time()
            r = subprocess.run([VERIF + '/bin/check', p, tier], env=dict(os.environ, VERIF_REPO=d + '/repo'),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            w = [l for l in r.stdout.splitlines() if 'aspect' in l or 'aspects' in l]
            out.append('%s %s %3ds rc=%d %s' % (b, p, time.time() - t, r.returncode,
                                                 'CAUGHT' if r.returncode == 1 and v else 'MISSED'))
            open('/tmp/catch/%s.%s.log' % (b, p), 'w').write(r.stdout)
        return '\n'.join(out)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    os.makedirs('/tmp/catch', exist_ok=True)
    a = sys.argv[1:]
    n = int(a.pop(a.index('-j') + 1)) if '-j' in a else 2
    a = [x for x in a if x != '-j']
    ids = a or sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(SEED + '/*/patch.diff'))
    with cf.ThreadPoolExecutor(n) as ex:
        for r in ex.map(one, ids):
            print(r, flush=True)
