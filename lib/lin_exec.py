"""Several sessions at the same time; the history of calls and returns is the trace validated by LinTrace.

scenario {'cfg', 'threads': [...] (see harness/cmd/storm)}: as fast as it goes, or
         {'cfg', 'steps': [...]}: interleavings set by hand, with the backend stopped in the middle of operations
steps    open s tgt | call s op | ret s | gate store kind | wait store kind n | ungate store kind | drop s"""
import json, os, subprocess, threading
import iscsi as I, target as T, cdb as C
from sbc_exec import SbcRun, Enough


class LinRun(SbcRun):
    def __init__(self, sc, timeout=None):
        super().__init__(sc, timeout or 6.0)
        self.n = 0
        self.th = {}
        self.el = threading.Lock()

    def add(self, **e):
        if not hasattr(self, 'el'):
            self.ev.append(e)
            return
        with self.el:
            self.ev.append(e)

    def storm(self):
        sc = {'port': self.srv.port, 'threads': self.sc['threads'], 'ms': int(self.timeout * 2000)}
        r = subprocess.run([os.path.join(T.workdir(), 'storm'), 'io'], input=json.dumps(sc), capture_output=True, text=True, timeout=240)
        if r.returncode != 0:
            raise RuntimeError(r.stderr[-500:])
        for e in json.loads(r.stdout) or []:
            if e['e'] == 'call' and e.get('toks') is None:
                e['toks'] = []
            if e['e'] == 'bad' and not self.srv.alive():
                raise T.ServerDied()
            self.ev.append(e)

    def call(self, s, o):
        self.n += 1
        i = self.n
        x = self.sess.get(s)
        if x is None or s in self.th:
            return
        self.add(e='call', id=i, k=o['k'], dev=o['dev'], lba=o['lba'], n=o['n'], toks=o.get('toks', []))

        def go():
            try:
                if o['k'] == 'r':
                    r = x.cmd(bytes.fromhex(o['cdb']), o['lun'], read=o['n'] * 512, timeout=self.timeout)
                else:
                    r = x.cmd(bytes.fromhex(o['cdb']), o['lun'], data=T.payload(o['toks']), imm=o['imm'], timeout=self.timeout)
                self.add(e='ret', id=i, st=r['status'], vals=T.decode(r['in']) if o['k'] == 'r' and r['status'] == 0 else [], len=len(r['in']))
            except I.Closed:
                if s in self.sess:
                    self.add(e='bad', what='closed')
            except (I.Timeout, AssertionError, IndexError, OSError, ValueError):
                if s in self.sess:
                    self.add(e='bad', what='noresponse')
        t = threading.Thread(target=go)
        t.start()
        self.th[s] = t

    def ret(self, s):
        t = self.th.pop(s, None)
        if t:
            t.join()

    def step(self, st):
        op, a = st[0], st[1:]
        if op == 'call':
            self.call(*a)
        elif op == 'ret':
            self.ret(a[0])
        elif op == 'gate':
            self.srv.ctl('gate', store=a[0], op=a[1])
        elif op == 'wait':
            self.srv.ctl('gatewait', store=a[0], op=a[1], n=a[2], ms=300)
        elif op == 'ungate':
            self.srv.ctl('ungate', store=a[0], op=a[1])
        elif op == 'drop':
            x = self.sess.pop(a[0], None)
            if x:
                x.close()
                self.ret(a[0])
        elif op == 'open':
            if a[0] not in self.sess:
                self.open(*a)
        else:
            raise ValueError(op)

    def end(self):
        for s in list(self.th):
            self.ret(s)
        for d in sorted(self.bs):
            self.add(e='dump', dev=d, toks=T.decode(self.dump(d), self.bs[d]))


def run(sc, timeout=None):
    r = LinRun(sc, timeout)
    try:
        if 'threads' in sc:
            r.storm()
        for st in sc.get('steps', []):
            r.step(st)
        r.end()
        if not r.srv.alive():
            r.add(e='bad', what='crashed')
    except (T.ServerDied, BrokenPipeError):
        r.add(e='bad', what='crashed')
    finally:
        r.stop()
        for t in r.th.values():
            t.join()
    return [e for e in r.ev if e['e'] in ('reset', 'call', 'ret', 'dump', 'bad')]
