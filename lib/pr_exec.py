"""Executes persistent reservation scenarios; the events are the trace validated by PrTrace.

further steps
  prout s lun sa {scope, type, key, sark, len, flags, unreg}
  prin s lun sa alloc
  prace [[s, lun, [[sa, {...}], ...]], ...]      at the same time, each session's one after the other"""
import threading
import iscsi as I, target as T, cdb as C
from sbc_exec import SbcRun, Enough, TIMEOUT


class PrRun(SbcRun):
    def __init__(self, sc, timeout=TIMEOUT):
        super().__init__(sc, timeout)
        self.ev[:] = [{'e': 'reset', 'units': sorted({'%s/%s' % (t, d) for t, m in self.maps.items() for d in m.values()})}]

    def unit(self, s, lun):
        t = self.tgtof[s]
        return '%s/%s' % (t, self.maps[t][str(lun)])

    def add(self, **e):
        if e['e'] == 'bad':
            self.ev.append(e)

    def exchange(self, s, lun, cdb, **kw):
        x = self.sess.get(s)
        if x is None:
            return None
        try:
            return x.cmd(cdb, lun, timeout=self.timeout, **kw)
        except (I.Closed, I.Timeout, AssertionError, IndexError):
            x.close()
            self.sess.pop(s, None)
            self.lost += 1
            if not self.srv.alive():
                raise T.ServerDied()
            return None

    def request(self, s, sa, o):
        """(cdb, parameter list, what the specification is told)"""
        key, sark = o.get('key', '0' * 16), o.get('sark', '0' * 16)
        scope, typ = o.get('scope', 0), o.get('type', 0)
        flags, unreg, n = o.get('flags', 0), o.get('unreg', False), o.get('len', 24)
        if sa == 7:
            tid = bytes.fromhex(o.get('tid', '05000014')) + b'iqn.2016-09.com.x\0\0\0\0'[:20]
            tid = tid.ljust(24, b'\0')
            p = bytes.fromhex(key) + bytes.fromhex(sark) + bytes([0, 2 if unreg else 0, 0, 1]) + len(tid).to_bytes(4, 'big') + tid
            n = len(p)
        else:
            p = (bytes.fromhex(key) + bytes.fromhex(sark) + bytes([0, 0, 0, 0, flags, 0, 0, 0])).ljust(n, b'\0')[:n]
        cdb = bytes([0x5f, sa, scope << 4 | typ, 0, 0]) + n.to_bytes(4, 'big') + b'\0'
        return cdb, p, {'s': s, 'sa': sa, 'scope': scope, 'type': typ, 'key': key, 'sark': sark, 'len': 24 if sa == 7 else n, 'flags': flags, 'unreg': unreg}

    def prout(self, s, lun, sa, o):
        cdb, p, q = self.request(s, sa, o)
        r = self.exchange(s, lun, cdb, data=p if p else None, edtl=len(p), wflag=True if p else None)
        ev = {'e': 'prout', 'unit': self.unit(s, lun), 'st': -1, 'key': 0, 'asc': 0, 'q': q}
        if r:
            ev['st'] = r['status']
            ev['key'], ev['asc'] = r.get('key', 0), r.get('asc', 0)
        self.ev.append(ev)
        if self.lost >= 2:
            raise Enough()

    def prace(self, items):
        items = [i for i in items if i[0] in self.sess]
        if not items:
            return
        units = {self.unit(s, lun) for s, lun, _ in items}
        assert len(units) == 1
        go = threading.Barrier(len(items))
        res = [None] * len(items)

        def work(k):
            s, lun, ops = items[k]
            rq = [self.request(s, sa, o) for sa, o in ops]
            go.wait()
            try:
                rs = self.sess[s].pipeline([(c, lun, 0, p) for c, p, _ in rq], self.timeout)
            except (I.Closed, I.Timeout, AssertionError, IndexError):
                return
            res[k] = [{'q': q, 'st': r['status'], 'key': r.get('key', 0), 'asc': r.get('asc', 0)} for (_, _, q), r in zip(rq, rs)]
        th = [threading.Thread(target=work, args=(k,)) for k in range(len(items))]
        for t in th:
            t.start()
        for t in th:
            t.join()
        if not self.srv.alive():
            raise T.ServerDied()
        if None in res:
            self.add(e='bad', what='noresponse')
            raise Enough()
        self.ev.append({'e': 'prace', 'unit': units.pop(), 'qs': res})

    def prin(self, s, lun, sa, alloc):
        u = self.unit(s, lun)
        ev = {'e': 'prin', 'unit': u, 'sa': sa, 'alloc': alloc, 'st': -1, 'gen': 0, 'addl': 0, 'keys': [], 'rkey': '', 'rscope': 0, 'rtype': 0,
              'dinlen': 0}
        r = self.exchange(s, lun, bytes([0x5e, sa, 0, 0, 0, 0, 0]) + alloc.to_bytes(2, 'big') + b'\0', edtl=alloc, rflag=True)
        if r:
            b = r['in']
            ev['st'], ev['dinlen'] = r['status'], len(b)
            if r['status'] == 0 and len(b) >= 8:
                ev['gen'], ev['addl'] = min(int.from_bytes(b[:4], 'big'), 0x7fffffff), min(int.from_bytes(b[4:8], 'big'), 0x7fffffff)
                if sa == 0:
                    ev['keys'] = [b[k:k + 8].hex() for k in range(8, len(b) - 7, 8)]
                elif sa == 1 and len(b) >= 22:
                    ev['rkey'], ev['rscope'], ev['rtype'] = b[8:16].hex(), b[21] >> 4, b[21] & 15
        self.ev.append(ev)
        if self.lost >= 2:
            raise Enough()

    def step(self, st):
        if st[0] == 'prout':
            self.prout(*st[1:])
        elif st[0] == 'prace':
            self.prace(st[1])
        elif st[0] == 'prin':
            self.prin(*st[1:])
        else:
            super().step(st)


def run(sc, timeout=TIMEOUT):
    r = PrRun(sc, timeout)
    try:
        for st in sc['steps']:
            r.step(st)
        if not r.srv.alive():
            r.add(e='bad', what='crashed')
    except Enough:
        pass
    except (T.ServerDied, BrokenPipeError):
        r.add(e='bad', what='crashed')
    except (I.Closed, I.Timeout):
        r.add(e='bad', what='noresponse' if r.srv.alive() else 'crashed')
    finally:
        r.stop()
    return r.ev
