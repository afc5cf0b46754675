"""The common machinery of all checks: build, execute scenarios on the real target, validate the recorded traces with
TLC, check the specification itself, confirm deviations, write evidence."""
import ctypes, hashlib, importlib, json, os, pickle, random, shutil, signal, subprocess, sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, 'checks'))
import target as T, tlc

# deviations that a stalled machine could produce: they count only when they show up again
SOFT = {'unexpected', 'noresponse', 'nologin', 'crashed', 'tmf', 'slow', 'unclosed', 'silent', 'notfreed', 'timeout', 'unreachable'}


class Part:
    """One conformance part: scenarios -> events (executor module) -> deviations (trace module)."""

    def __init__(self, name, execmod, trace, aspects, gen, race=False, cfg='Trace.cfg', procs=8, gotgt=False, cmds=('tgtsrv',),
                 always=('crashed', 'unexpected', 'unexplained'), reps=4):
        self.name, self.execmod, self.trace, self.gen = name, execmod, trace, gen
        self.aspects = set(aspects) | set(always)
        self.race, self.cfg, self.procs, self.gotgt, self.cmds, self.reps = race, cfg, procs, gotgt, cmds, reps


class MC:
    """An exhaustive check of the specification itself."""

    def __init__(self, module, cfg, what, tier='quick', workers='4', mem='6g', timeout=800):
        self.__dict__.update(locals())


class Check:
    def __init__(self, prop, parts, mc=(), level='model_checking', assumptions=(), extra=None):
        self.prop, self.parts, self.mc, self.level = prop, parts, list(mc), level
        self.assumptions = list(assumptions)
        self.extra = extra      # callable(ctx) -> list of violation descriptions


def _work(a):
    execmod, sc, timeout, wd = a
    T.set_workdir(wd)
    try:
        m = importlib.import_module(execmod)
        return 'ok', m.run(sc, timeout) if timeout else m.run(sc)
    except T.StartError as e:
        return 'start', str(e)
    except Exception:
        return 'err', traceback.format_exc()


def _rd(f, n):
    b = b''
    while len(b) < n:
        x = f.read(n - len(b))
        if not x:
            return None
        b += x
    return b


def worker():
    """A worker process: scenarios in on standard input, results out, until the input ends."""
    fi, fo = sys.stdin.buffer, os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    while True:
        h = _rd(fi, 8)
        if h is None:
            return 0
        a = pickle.loads(_rd(fi, int.from_bytes(h, 'big')))
        r = pickle.dumps(_work(a))
        fo.write(len(r).to_bytes(8, 'big') + r)
        fo.flush()


def execute(part, scs, timeout=None, procs=None, budget=1e6):
    """Run the scenarios, each in a worker process.  (Worker processes are started afresh, not forked: this process has threads.)"""
    procs = min(procs or part.procs, max(1, len(scs)))
    args = [(part.execmod, s, timeout, T.workdir()) for s in scs]
    # a target that answers nothing makes every scenario wait: what did not run within the budget is left out
    t0 = time.time()
    res = [('skip', None)] * len(args)
    todo = list(range(len(args)))[::-1]

    def drive():
        w = None
        done = 0
        try:
            while time.time() - t0 < budget:
                try:
                    i = todo.pop()
                except IndexError:
                    return
                if w is None or done >= 40:
                    if w:
                        w.stdin.close()
                        w.wait()
                    w = subprocess.Popen([sys.executable, os.path.abspath(__file__), '--worker'], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
                    done = 0
                done += 1
                b = pickle.dumps(args[i])
                w.stdin.write(len(b).to_bytes(8, 'big') + b)
                w.stdin.flush()
                end = time.time() + min(600, max(20, t0 + budget - time.time() + 20))
                kill = threading.Timer(end - time.time(), w.kill)
                kill.start()
                h = _rd(w.stdout, 8)
                r = _rd(w.stdout, int.from_bytes(h, 'big')) if h else None
                kill.cancel()
                if r is None:
                    w.wait()
                    w = None
                    if time.time() < end - 0.5:
                        res[i] = ('err', 'the worker process ended')
                    continue
                res[i] = pickle.loads(r)
        finally:
            if w:
                w.stdin.close()
                w.wait()
    ths = [threading.Thread(target=drive, daemon=True) for _ in range(procs)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    return res


def relevant(part, dev):
    return [(k, sorted(a & part.aspects)) for k, a in dev if a & part.aspects]


def known_findings():
    res = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:'):
                kv = dict(x.split('=', 1) for x in l[6:].split(' # ')[0].split())
                kv['text'] = l.split(' # ', 1)[1] if ' # ' in l else ''
                res.append(kv)
    return res


class Runner:
    def __init__(self, check, tier, seed):
        self.check, self.tier, self.seed = check, tier, seed
        self.t0 = time.time()
        self.states = self.trans = self.traces = self.events = 0
        self.samples, self.notes, self.violations, self.known = [], [], [], []
        self.mcres = []
        self.parts = []

    def note(self, s):
        self.notes.append(s)
        print('note: ' + s, flush=True)

    # -- specification checks run beside the executions
    def start_mc(self):
        ms = [m for m in self.check.mc if m.tier == 'quick' or self.tier == 'thorough']
        self.ex = ThreadPoolExecutor(2)

        def one(m):
            t = time.time()
            tr, st = tlc.check(m.module, m.cfg, timeout=m.timeout, workers=m.workers, mem=m.mem)
            return m, st, tr, time.time() - t
        self.mcf = [self.ex.submit(one, m) for m in ms]

    def end_mc(self):
        for f in self.mcf:
            m, st, tr, dt = f.result()
            self.states += st
            self.trans += tr
            self.mcres.append('%s/%s: %d distinct states, %d transitions (%.0f s): %s' % (m.module, m.cfg, st, tr, dt, m.what))

    def run_part(self, part):
        rng = random.Random('%s/%s/%s/%d' % (self.check.prop, part.name, self.tier, self.seed))
        scs = part.gen(self.tier, rng)
        for s in scs:
            s.setdefault('part', part.name)
        res = execute(part, scs, budget=max(30, min(200, 450 - (time.time() - self.t0))) if self.tier == 'quick'
                      else max(60, (640 - (time.time() - self.t0)) / max(1, len(self.check.parts) - len(self.parts))))
        nskip = sum(1 for k, _ in res if k == 'skip')
        if nskip:
            self.note('part %s: %d of %d scenarios did not run within the time set for them' % (part.name, nskip, len(scs)))
        redo = [i for i, (k, _) in enumerate(res) if k == 'start']
        for i in redo[:20]:
            res[i] = execute(part, [scs[i]], procs=1)[0]
        errs = [v for k, v in res if k == 'err']
        for v in errs[:2]:
            print('an executor stopped on something unexpected:\n' + v)
        starts = [(i, v) for i, (k, v) in enumerate(res) if k == 'start']
        if starts:
            # the target does not even come up with a valid configuration
            for i, v in starts[:3]:
                self.violate(part, scs[i], [], ['nostart'], v)
        traces = [v for k, v in res]
        good = [i for i, (k, _) in enumerate(res) if k == 'ok']
        dev, st, tr = tlc.validate(part.trace, [traces[i] for i in good], cfg=part.cfg)
        self.states += st
        self.trans += tr
        self.traces += len(good)
        self.events += sum(len(traces[i]) for i in good)
        if os.environ.get('VERIF_FAST'):
            # while developing: the first deviation is enough
            for n, i in enumerate(good):
                for k, a in relevant(part, dev[n]):
                    if set(a) - SOFT or relevant(part, tlc.validate(part.trace, [execute(part, [scs[i]], procs=1)[0][1]], cfg=part.cfg)[0][0]):
                        print('VIOLATION property=%s replay=none %s %s %s' % (self.check.prop, part.name, a, clip_s(traces[i][k], 400)), flush=True)
                        sys.exit(1)
        nbad = 0
        for i, (k, v) in enumerate(res):
            if k == 'err' and len(self.violations) < 3:
                again = [execute(part, [scs[i]], timeout=20.0, procs=1)[0] for _ in range(2)]
                if all(a[0] == 'err' for a in again):
                    self.violate(part, scs[i], [], ['unexpected'], v)
                else:
                    self.note('part %s: an execution failed once, not again: %s' % (part.name, v[-300:]))
        for n, i in enumerate(good):
            r = relevant(part, dev[n])
            if not r:
                continue
            nbad += 1
            late = time.time() - self.t0
            if len(self.violations) < (3 if late < 120 else 1) and nbad <= 12 and late < (500 if self.tier == 'quick' else 1e6):
                self.confirm(part, scs[i], traces[i], r)
        if good:
            for i in good[:2]:
                self.samples.append({'part': part.name, 'scenario': clip(scs[i]), 'events': clip(traces[i][:4])})
        self.parts.append('%s: %d scenarios, %d events validated by %s.tla' % (part.name, len(good), sum(len(traces[i]) for i in good), part.trace))

    def confirm(self, part, sc, trace, r):
        asp = set()
        for _, a in r:
            asp |= set(a)
        again = set()
        tries = 0
        for _ in range(part.reps):
            tries += 1
            k, ev = execute(part, [sc], timeout=20.0, procs=1)[0]
            if k != 'ok':
                continue
            d, _, _ = tlc.validate(part.trace, [ev], cfg=part.cfg)
            r2 = relevant(part, d[0])
            if r2:
                r, trace = r2, ev
                for _, a in r2:
                    again |= set(a)
                break
        if not again and not (asp - SOFT):
            self.note('part %s: %s seen once, not again in %d repetitions; not counted' % (part.name, sorted(asp), tries))
            return
        if not again:
            self.note('part %s: the run below deviates as recorded; %d repetitions did not' % (part.name, tries))
        sc, trace, r = shrink(part, sc, trace, r) if again and time.time() - self.t0 < 150 else (sc, trace, r)
        k, a = r[0]
        self.violate(part, sc, trace[max(0, k - 6):k + 1], a, 'event %d' % k)

    def violate(self, part, sc, events, aspects, why):
        for kf in known_findings():
            if kf.get('property') == self.check.prop and kf.get('part') == part.name and \
                    kf.get('id') == sc.get('finding') and set(aspects) <= set(kf.get('aspects', '').split(',')):
                self.known.append(kf)
                return
        h = hashlib.sha1(json.dumps(sc, sort_keys=True, default=str).encode()).hexdigest()[:10]
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s-%s.json' % (self.check.prop, part.name, h))
        json.dump({'property': self.check.prop, 'part': part.name, 'aspects': list(aspects), 'why': why, 'scenario': sc, 'events': events},
                  open(p, 'w'), indent=1, default=str)
        self.violations.append('%s: %s (%s)' % (part.name, ', '.join(aspects), why[:200]))
        print('VIOLATION property=%s replay=%s' % (self.check.prop, p), flush=True)
        print('  %s: %s (%s)' % (part.name, ', '.join(aspects), why[:600]))
        for e in events[-3:]:
            print('   ', clip_s(e))
        sys.stdout.flush()

    def evidence(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = {'states': self.states, 'transitions': self.trans, 'traces_validated_against_impl': self.traces,
               'samples': self.samples[:8], 'events_validated': self.events, 'parts': self.parts, 'specification_checks': self.mcres,
               'notes': self.notes, 'known_findings': [k.get('text', '') for k in self.known]}
        e = {'property': self.check.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.check.level, 'coverage': cov,
             'wall_s': round(time.time() - self.t0, 1), 'assumptions': self.check.assumptions, 'violations': self.violations}
        json.dump(e, open(os.path.join(VERIF, 'evidence', self.check.prop + '.json'), 'w'), indent=1, default=str)

    def main(self):
        race = any(p.race for p in self.check.parts)
        cmds = set()
        for p in self.check.parts:
            cmds |= set(p.cmds)
        T.build(cmds=tuple(sorted(cmds)))
        if race:
            T.build(race=True)
        if any(p.gotgt for p in self.check.parts):
            T.build_gotgt()
        self.mcf = []
        if not os.environ.get('VERIF_FAST'):
            self.start_mc()
        for p in self.check.parts:
            if self.violations and time.time() - self.t0 > 200:
                self.note('part %s left out: violations found and the time is up' % p.name)
                continue
            self.run_part(p)
        self.end_mc()
        seen = set()
        for k in self.known:
            key = (k.get('part'), k.get('id'))
            if key not in seen:
                seen.add(key)
                print('KNOWN-FINDING: property=%s %s' % (self.check.prop, k['text']))
        self.evidence()
        for p in self.parts + self.mcres:
            print(p)
        print('%s %s: %d traces, %d events, %d states, %.1f s, %d violation(s)' % (
            self.check.prop, self.tier, self.traces, self.events, self.states, time.time() - self.t0, len(self.violations)))
        return 1 if self.violations else 0


def shrink(part, sc, trace, r, budget=25):
    """Drop steps after the deviation and then blocks of earlier ones, as long as the deviation stays."""
    if 'steps' not in sc or len(sc['steps']) < 4:
        return sc, trace, r
    want = set(r[0][1])
    t0 = time.time()
    best = (sc, trace, r)

    def tryit(steps):
        s = dict(sc)
        s['steps'] = steps
        k, ev = execute(part, [s], procs=1)[0]
        if k != 'ok':
            return None
        d, _, _ = tlc.validate(part.trace, [ev], cfg=part.cfg)
        r2 = relevant(part, d[0])
        if r2 and set(r2[0][1]) & want:
            return s, ev, r2
        return None
    n = len(sc['steps'])
    chunk = max(1, n // 2)
    i = n
    while chunk >= 1 and time.time() - t0 < budget:
        i = len(best[0]['steps'])
        while i > 0 and time.time() - t0 < budget:
            lo = max(0, i - chunk)
            cut = best[0]['steps'][lo:i]
            if all(x[0] in ('open',) for x in cut):
                i = lo
                continue
            steps = best[0]['steps'][:lo] + [x for x in cut if x[0] == 'open'] + best[0]['steps'][i:]
            try:
                b = tryit(steps)
            except Exception:
                b = None
            if b:
                best = b
            i = lo
        chunk //= 2
    return best


def clip(x, n=1500):
    s = json.dumps(x, default=str)
    return x if len(s) <= n else s[:n] + '...'


def clip_s(e, n=900):
    s = json.dumps(e, default=str)
    return s if len(s) <= n else s[:n] + '...'


def replay(check, path):
    d = json.load(open(path))
    part = [p for p in check.parts if p.name == d['part']][0]
    T.build(race=part.race, cmds=part.cmds)
    if part.gotgt:
        T.build_gotgt()
    for _ in range(part.reps):
        k, ev = execute(part, [d['scenario']], timeout=20.0, procs=1)[0]
        if k != 'ok':
            print(k, ev)
            continue
        dev, _, _ = tlc.validate(part.trace, [ev], cfg=part.cfg)
        r = relevant(part, dev[0])
        if r:
            for k, a in r:
                print('event %d: %s\n   %s' % (k, ', '.join(a), clip_s(ev[k], 3000)))
            print('VIOLATION property=%s replay=%s' % (check.prop, path))
            return 1
    print('not reproduced')
    return 0


def main(argv):
    if argv[0] == '--worker':
        return worker()
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 and argv[1] in ('quick', 'thorough') else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    wd = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    T.set_workdir(wd)
    tempfile.tempdir = None
    pid = os.getpid()

    def term(*a):
        if os.getpid() == pid:
            shutil.rmtree(wd, ignore_errors=True)
        os._exit(143)
    signal.signal(signal.SIGTERM, term)
    try:
        check = importlib.import_module(prop).CHECK
        if '--replay' in argv:
            return replay(check, argv[argv.index('--replay') + 1])
        if '--part' in argv:
            check.parts = [p for p in check.parts if p.name == argv[argv.index('--part') + 1]]
            check.mc = []
        return Runner(check, tier, seed).main()
    except T.BuildError as e:
        print('the repository does not build:\n' + str(e)[-3000:])
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(wd, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
