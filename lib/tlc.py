"""Running TLC: exhaustive checks, behaviour generation and trace validation."""
import json, os, re, shutil, subprocess, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
import target as T

SPEC = os.path.join(T.VERIF, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


_lock = threading.Lock()


class TLCError(Exception):
    pass


def _run(args, env=None, timeout=800, mem='2g', workers='1'):
    md = tempfile.mkdtemp(prefix='tlc-', dir=T.workdir())
    spec = os.path.join(T.workdir(), 'spec')
    with _lock:
        if not os.path.isdir(spec):
            shutil.copytree(SPEC, spec)
    cmd = ['java', '-Djava.io.tmpdir=' + md, '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-XX:TieredStopAtLevel=4', '-Xss16m', '-Xmx' + mem, '-cp', CP, 'tlc2.TLC',
           '-workers', workers, '-metadir', md, '-noGenerateSpecTE'] + args
    e = dict(os.environ)
    e.update(env or {})
    e.pop('JAVA_TOOL_OPTIONS', None)
    try:
        r = subprocess.run(cmd, cwd=spec, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise TLCError('TLC timed out: ' + ' '.join(args))
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr


def counts(out):
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(',', '')), int(d.replace(',', ''))


def check(module, cfg, timeout=800, workers='4', mem='6g', extra=()):
    """Exhaustive check.  Returns (generated, distinct); raises when the specification itself is wrong."""
    rc, out = _run(['-config', cfg, '-deadlock'] + list(extra) + [module + '.tla'], timeout=timeout, workers=workers, mem=mem)
    if rc != 0 or 'No error has been found' not in out:
        raise TLCError('specification check %s/%s failed:\n%s' % (module, cfg, out[-9000:]))
    return counts(out)


def simulate(module, cfg, num, depth, seed, timeout=300):
    """Behaviours of the specification: the JSON values it prints (one history each)."""
    rc, out = _run(['-config', cfg, '-deadlock', '-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(seed),
                    module + '.tla'], timeout=timeout)
    res = []
    for l in out.splitlines():
        if l.startswith('"') and l.endswith('"') and len(l) > 2 and l[1] in '[{':
            try:
                res.append(json.loads(json.loads(l)))
            except ValueError:
                pass
    if not res:
        raise TLCError('no behaviours from %s/%s:\n%s' % (module, cfg, out[-3000:]))
    return res


def brief(out):
    """The lines of TLC's output that say what went wrong, without the states."""
    k = [l for l in out.splitlines() if not l.startswith(('/\\', ' ', 'State '))]
    i = next((i for i, l in enumerate(k) if 'Error' in l or 'rror:' in l), 0)
    return '\n'.join(k[i:i + 40])


def _validate_one(module, events, cfg, timeout):
    fd, tr = tempfile.mkstemp(prefix='trace-', suffix='.ndjson', dir=T.workdir())
    with os.fdopen(fd, 'w') as f:
        for e in events:
            f.write(json.dumps(e) + '\n')
    outf = tr + '.out'
    rc, out = _run(['-config', cfg, module + '.tla'], env={'TRACE': tr, 'OUT': outf}, timeout=timeout, mem='2500m')
    try:
        res = json.load(open(outf))
    except (OSError, ValueError):
        keep = os.path.join(tempfile.gettempdir(), 'verif-badtrace.ndjson')
        shutil.copy(tr, keep)
        raise TLCError('trace validation did not finish (%s, kept %s):\n%s' % (module, keep, brief(out)))
    g, d = counts(out)
    if res['lines'] != len(events) or rc != 0 or d != len(events) + 1:
        raise TLCError('trace validation saw %d of %d events, %d states, status %d:\n%s' % (res['lines'], len(events), d, rc, brief(out)))
    os.unlink(tr)
    os.unlink(outf)
    return res['out'], g, d


def validate(module, traces, cfg='Trace.cfg', shards=6, maxev=25000, timeout=800):
    """traces: list of event lists, each starting with a reset event.  Returns ([{index: [(line, aspects)]}], states,
    transitions): for each trace the deviations found."""
    n = sum(map(len, traces))
    shards = max(1, min(shards, n // 300 + 1, len(traces)))
    shards = max(shards, n // maxev + 1)
    groups = [[] for _ in range(shards)]
    load = [0] * shards
    for i in sorted(range(len(traces)), key=lambda i: -len(traces[i])):
        j = load.index(min(load))
        groups[j].append(i)
        load[j] += len(traces[i])
    groups = [g for g in groups if g]

    def work(g):
        ev, where = [], []
        for i in g:
            for k, e in enumerate(traces[i]):
                ev.append(e)
                where.append((i, k))
        try:
            out, gen, dist = _validate_one(module, ev, cfg, timeout)
        except TLCError as x:
            if len(g) > 1:
                # one of them cannot be evaluated: find it
                parts = [work([i]) for i in g]
                return [o for p in parts for o in p[0]], sum(p[1] for p in parts), sum(p[2] for p in parts)
            print('a trace the specification cannot be evaluated on:\n' + str(x)[:3000])
            return [((g[0], len(ev) - 1), {'unexplained'})], 0, 0
        return [(where[l - 1], set(a)) for l, a in out], gen, dist

    res = [[] for _ in traces]
    gen = dist = 0
    with ThreadPoolExecutor(min(8, len(groups))) as ex:
        for dev, g, d in ex.map(work, groups):
            gen += g
            dist += d
            for (i, k), a in dev:
                res[i].append((k, a))
    return res, dist, gen
