"""Executes PDU-level scripts (see session_exec) with statistics on; the events are the trace validated by StatsTrace.

further steps
  stats                  the counters now, when all connections are at rest
  hold | held k          keep a snapshot | look at the k-th one again
  spoil                  alter a snapshot that was handed out
  blast [[kind, n, blocks], ...]   sessions at the same time, each with n commands of its kind"""
import threading
import iscsi as I, target as T, cdb as C
from session_exec import SessRun
from sbc_exec import Enough

KINDS = {'read': ('read', 10), 'read6': ('read', 6), 'read12': ('read', 12), 'read16': ('read', 16),
         'write': ('write', 10), 'write6': ('write', 6), 'write12': ('write', 12), 'write16': ('write', 16)}


class StatsRun(SessRun):
    def __init__(self, sc, timeout=None):
        sc['cfg'].setdefault('kw', {})['stats'] = True
        super().__init__(sc, timeout)

    def snap(self, **kw):
        s = self.srv.ctl(kw.pop('cmd', 'stats'), **kw)['stats']
        return {'io': {k: v for k, v in s['io'].items() if v}, 'r': s['riops'], 'w': s['wiops'], 'rv': s['rvol'], 'wv': s['wvol']}

    def step(self, st):
        op = st[0]
        if op == 'stats':
            self.add(e='stats', o=self.snap())
        elif op == 'hold':
            self.held = self.srv.ctl('stats_hold')['n']
            self.add(e='hold', o=self.snap(cmd='stats_held', i=self.held - 1))
        elif op == 'held':
            if 1 <= st[1] <= getattr(self, 'held', 0):
                self.add(e='held', n=st[1], o=self.snap(cmd='stats_held', i=st[1] - 1))
        elif op == 'spoil':
            self.srv.ctl('stats_alias')
        elif op == 'blast':
            self.blast(st[1])
        else:
            super().step(st)

    def blast(self, items):
        ss, res = [], [0] * len(items)
        for k, (kind, n, blocks) in enumerate(items):
            try:
                ss.append(I.Sess(self.srv.port, T.TGT, ini='iqn.2026-01.verif:b%d' % k, isid=0x80000000b000 + k, timeout=self.timeout))
            except (I.Closed, I.Timeout, I.LoginError, OSError):
                self.add(e='bad', what='nologin')
                return
        bar = threading.Barrier(len(items))
        cmds = []
        for kind, n, blocks in items:
            cdb = C.rw(*KINDS[kind], 0, blocks) if kind in KINDS else C.tur()
            cmds.append({'op': cdb[0], 'edtl': blocks * 512 if kind in KINDS else 0, 'n': n})

        def go(k):
            kind, n, blocks = items[k]
            bar.wait()
            try:
                # several at once, so that the target has much to count at the same time
                cdb = C.rw(*KINDS[kind], 0, blocks) if kind in KINDS else C.tur()
                one = (cdb, 0, blocks * 512 if kind[:4] == 'read' else 0, T.payload([k] * blocks) if kind[:4] == 'writ' else None)
                for i in range(0, n, 40):
                    res[k] += len(ss[k].pipeline([one] * min(40, n - i), self.timeout))
            except (I.Closed, I.Timeout, AssertionError, IndexError):
                pass
        ts = [threading.Thread(target=go, args=(k,)) for k in range(len(items))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        for c, n in zip(cmds, res):
            c['n'] = n
        self.add(e='blast', cmds=cmds, lost=sum(n for _, n, _ in items) - sum(res))
        for s in ss:
            s.close()


def run(sc, timeout=None):
    r = StatsRun(sc, timeout)
    try:
        for st in sc['steps']:
            r.step(st)
        if not r.srv.alive():
            r.add(e='bad', what='crashed')
    except Enough:
        pass
    except (T.ServerDied, BrokenPipeError):
        r.add(e='bad', what='crashed')
    finally:
        r.stop()
    ev = []
    for e in r.ev:
        if e['e'] == 'send':
            if e['p']['t'] == 'cmd':
                ev.append({'e': 'send', 'c': e['c'], 'itt': e['p']['itt'], 'op': e['p']['cdb'][0], 'edtl': e['p']['edtl']})
        elif e['e'] == 'recv':
            if e['p']['t'] == 'resp' or (e['p']['t'] == 'datain' and e['p']['S']):
                ev.append({'e': 'recv', 'c': e['c'], 'itt': e['p']['itt']})
        elif e['e'] == 'reset':
            ev.append({'e': 'reset'})
        elif e['e'] in ('stats', 'hold', 'held', 'blast', 'bad'):
            ev.append(e)
    return ev
