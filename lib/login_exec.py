"""Executes scenarios of connecting, logging in, discovering, and of the service's life; the events are the trace
validated by LoginTrace.

scenario {'portals': [addr, ...], 'targets': {name: {'tpgts': {tag: [portal index]}, 'dev': d}}, 'block', 'cluster', 'stats', 'steps'}
steps
  connect c {src, dst, retry} hello|None       hello: a login request of the security stage that stays there
  crace [[c, {src, dst}, hello], ...]           at the same time
  login c {csg, nsg, T, isid, tsih, cid, kv, split}      tsih: number or the name of the connection that was told it
  race [[c, login], ...]
  req c kind {lba, tok}     kinds cmd write tmf dataout nop logout0
  write c lba tok | read c lba | xread c blocks | xwrite c blocks imm
  text c value | logout c | drop c | over c | ping c
  list | listloop ms [steps] | svcclose | svcrun | newtarget name conf valid | cluster ip | storm kind n"""
import json, os, select, socket, subprocess, threading, time, zlib
import iscsi as I, target as T, cdb as C
from sbc_exec import Enough

TIMEOUT = 6.0
NBLK = 1400


def tonum(v):
    try:
        if not v or not v[0].isdigit():
            return -1
        n = int(v[2:], 16) if v[:2].lower() == '0x' else int(v)
        return min(n, 0x7fffffff)
    except ValueError:
        return -1


def offer(k, v):
    return {'k': k, 'v': v, 'n': tonum(v), 'vs': v.split(',')}


class X:
    pass


class LoginRun:
    def __init__(self, sc, timeout=None):
        self.sc, self.timeout = sc, timeout or TIMEOUT
        self.ev, self.conns, self.told = [], {}, {}
        self.lost = 0
        stores, storages, it = {}, [], {}
        ids = {}
        portals = sc['portals']
        pid = sc.get('ids') or list(range(len(portals)))
        for n, t in sc['targets'].items():
            if t['dev'] not in ids:
                ids[t['dev']] = 1000 + len(ids)
                stores[t['dev']] = {'size': NBLK * 512}
                storages.append({'deviceID': ids[t['dev']], 'path': 'verif:' + t['dev'], 'online': True, 'thinProvisioning': False, 'blockShift': 9})
            it[n] = {'tpgts': {g: [pid[k] for k in ps] for g, ps in t['tpgts'].items()}, 'luns': {'0': ids[t['dev']]}}
        self.pid = pid
        self.pconf = [{'id': pid[k], 'portal': p} for k, p in enumerate(portals)]
        cfg = {'stores': stores, 'config': {'storages': storages, 'iscsiportals': self.pconf, 'iscsitargets': it}}
        if sc.get('block'):
            cfg['block_multi'] = True
        if sc.get('cluster'):
            cfg['cluster_ip'] = sc['cluster']
        if sc.get('order'):
            cfg['order'] = sc['order']
        self.it = it
        self.srv = T.Server(cfg)
        port = str(self.srv.port)
        self.addrs = [T.ported(p, port) for p in portals]
        self.add(e='reset', run=True, block=bool(sc.get('block')), cluster=T.ported(sc.get('cluster', ''), port), dev={n: t['dev'] for n, t in sc['targets'].items()},
                 tgts={n: self.tconf(t['tpgts']) for n, t in sc['targets'].items()})

    def tconf(self, tp):
        return {str(int(g)): [self.addrs[k] for k in ps] for g, ps in tp.items()}

    def add(self, **e):
        self.ev.append(e)

    def stop(self):
        for x in self.conns.values():
            x.c.close()
        self.srv.kill()
        self.srv.errf.close()

    # ---- connections
    def dial(self, o):
        try:
            c = I.Conn(self.srv.port, o.get('src', '127.0.0.1'), o.get('dst', '127.0.0.1'), self.timeout, rst=o.get('rst', False))
        except socket.timeout:
            return None
        except OSError:
            return None
        x = X()
        x.c, x.o, x.st, x.s = c, o, 'login', None
        x.dst = '%s:%d' % (o.get('dst', '127.0.0.1'), self.srv.port)
        x.cmdsn = o.get('cmdsn', 1)
        x.itt = 0x100
        return x

    def conn_ev(self, c, o, adm):
        return {'c': c, 'host': o.get('src', '127.0.0.1'), 'dst': '%s:%d' % (o.get('dst', '127.0.0.1'), self.srv.port), 'adm': adm}

    def connect(self, c, o, hello=None):
        dl = time.monotonic() + self.timeout
        while True:
            x = self.dial(o)
            adm, le = x is not None, None
            if x is not None and hello:
                le = self.exchange(x, c, hello)
                adm = le['p']['res'] == 'ok'
                if le['p']['res'] == 'none':
                    self.add(e='bad', what='noresponse')
            if adm or not o.get('retry') or time.monotonic() > dl:
                break
            if x:
                x.c.close()
            time.sleep(0.004)
        self.add(e='connect', **self.conn_ev(c, o, adm))
        if not adm:
            if x:
                x.c.close()
            return
        self.conns[c] = x
        if le:
            self.add(**le)

    def crace(self, items):
        res = [None] * len(items)
        bar = threading.Barrier(len(items))

        def go(n, c, o, hello):
            bar.wait()
            x = self.dial(o)
            res[n] = (x, self.exchange(x, c, hello) if x else None)
        ts = [threading.Thread(target=go, args=(n, *it)) for n, it in enumerate(items)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        es, later = [], []
        for (c, o, hello), (x, le) in zip(items, res):
            adm = bool(le and le['p']['res'] == 'ok')
            es.append(self.conn_ev(c, o, adm))
            if adm:
                self.conns[c] = x
                later.append(le)
            elif x:
                x.c.close()
        self.add(e='crace', es=es)
        for le in later:
            self.add(**le)

    def request(self, x, r):
        """The bytes of the PDUs of one login request, and the request as the specification sees it."""
        tsih = r.get('tsih', 0)
        if isinstance(tsih, str):
            tsih = self.told.get(tsih, 0x7777)
        x.itt += 1
        x.csg, x.cidno = r['csg'], r.get('cid', 0)
        x.isid = r['isid']
        text = I.kvtext([tuple(k) for k in r.get('kv', [])])
        cuts = [k for k in r.get('split', []) if 0 < k < len(text)]
        parts = []
        at = 0
        for k in sorted(cuts) + [len(text)]:
            parts.append(text[at:k])
            at = k
        pd = []
        for n, t in enumerate(parts):
            last = n == len(parts) - 1
            pd.append(I.login(r['csg'], r['nsg'] if last and r['T'] else 0, bool(r['T'] and last), t, r['isid'], tsih, x.itt, r.get('cid', 0), x.cmdsn, x.o.get('expstatsn', 0), cont=not last))
        return pd, {'csg': r['csg'], 'nsg': r['nsg'], 'T': bool(r['T']), 'isid': '%012x' % r['isid'], 'tsih': str(tsih), 'cid': r.get('cid', 0),
                    'kv': [offer(k, v) for k, v in r.get('kv', [])], 'itt': '%08x' % x.itt}

    def answer(self, x):
        p = {'res': 'none', 'T': False, 'csg': 0, 'nsg': 0, 'tsih': '0', 'kv': [], 'itt': '', 'isid': '', 'left': 0}
        try:
            a = x.c.recv(self.timeout)
            if a['t'] == 'login':
                d = a['data']
                bad = 0 if not d or d.endswith(b'\0') else 1
                bad += sum(1 for k, v in a['kv'] if v is None or not k)
                p.update(res='ok' if a['sclass'] == 0 else 'refused', T=a['transit'], csg=a['csg'], nsg=a['nsg'], tsih=str(a['tsih']), itt='%08x' % a['itt'],
                         isid='%012x' % a['isid'], left=bad, kv=[{'k': k, 'v': v or '', 'n': tonum(v or '')} for k, v in a['kv']])
                x.last = a
            else:
                p['res'] = 'reject' if a['t'] == 'reject' else 'other'
        except I.Closed:
            p['res'] = 'closed'
        except I.Timeout:
            p['res'] = 'none'
            self.hurt()
        return p

    def hurt(self):
        self.lost += 1
        if not self.srv.alive():
            raise T.ServerDied()

    def exchange(self, x, c, r, only_send=False):
        pd, re = self.request(x, r)
        x.re = re
        x.r = r
        for b in pd[:-1]:
            x.c.send(b)
            ok = False
            try:
                a = x.c.recv(self.timeout)
                ok = a['t'] == 'login' and a['sclass'] == 0 and not a['transit'] and not a['data']
            except I.Closed:
                pass
            except I.Timeout:
                self.hurt()
            self.add(e='more', c=c, ok=ok)
            if not ok:
                break
        x.c.send(pd[-1])
        if only_send:
            return None
        return self.finish(x, c)

    def finish(self, x, c):
        p = self.answer(x)
        r, re = x.r, x.re
        for kv in re['kv']:
            if kv['k'] == 'TargetName':
                x.tgt = kv['v']
            elif kv['k'] == 'SessionType':
                x.type = kv['v']
            elif kv['k'] == 'InitiatorName':
                x.ini = kv['v']
        if p['res'] == 'ok' and r['T'] and r['nsg'] == 3 and p['T'] and p['nsg'] == 3:
            x.st = 'normal' if getattr(x, 'type', 'Normal') == 'Normal' else 'disc'
            s = object.__new__(I.Sess)
            s.c, s.cmdsn, s.itt, s.isid = x.c, x.cmdsn, 0x1000, r['isid']
            s.expstatsn = I.u32(x.last['statsn'] + 1)
            if re['tsih'] != '0':       # the session goes on where it is
                s.cmdsn = x.last['expcmdsn']
            s.cid = r.get('cid', 0)
            x.s = s
            self.told[c] = int(p['tsih'])
        return {'e': 'login', 'c': c, 'r': re, 'p': p}

    def login(self, c, r):
        x = self.conns.get(c)
        if x is None:
            return
        if x.st != 'login':     # a login request in the full feature phase
            pd, re = self.request(x, r)
            x.c.send(pd[-1])
            self.add(e='login', c=c, r=re, p=self.answer(x))
            return
        self.add(**self.exchange(x, c, r))

    def race(self, items):
        items = [(c, r) for c, r in items if c in self.conns]
        for c, r in items:
            x = self.conns[c]
            x.pd, x.re = self.request(x, dict(r, split=[]))
            x.r = r
        bar = threading.Barrier(len(items))

        def go(c):
            bar.wait()
            self.conns[c].c.send(self.conns[c].pd[-1])
        ts = [threading.Thread(target=go, args=(c,)) for c, _ in items]
        [t.start() for t in ts]
        [t.join() for t in ts]
        es = [self.finish(self.conns[c], c) for c, r in items]
        for c, r in items:
            self.told.setdefault(c, 0)
        # whoever lost its connection without a word
        self.add(e='race', es=[{k: v for k, v in e.items() if k != 'e'} for e in es])

    def gone(self, x):
        """Has the target closed it?"""
        try:
            r, _, _ = select.select([x.c.s], [], [], 0)
            if not r:
                return x.c.eof
            return x.c.s.recv(1, socket.MSG_PEEK) == b''
        except OSError:
            return True

    # ---- requests
    def req(self, c, kind, o=None, wait=None):
        o = o or {}
        x = self.conns.get(c)
        if x is None:
            return
        s = x.s
        sn, es = (s.cmdsn, s.expstatsn) if s else (x.cmdsn, 0)
        x.itt += 1
        itt = x.itt
        imm = o.get('imm', False)
        if kind == 'cmd':
            cdb = bytes.fromhex(o['cdb']) if 'cdb' in o else C.inquiry()
            if x.st == 'normal' and cdb[0] == 0x16:     # only meant for connections that may not
                cdb = b'\x17' + cdb[1:]
            b = I.scsi_cmd(cdb, itt, sn, es, 0, o.get('edtl', 96), read=o.get('edtl', 96) > 0, imm=imm)
        elif kind == 'write':
            d = T.payload([o['tok']])
            b = I.scsi_cmd(C.rw('write', 10, o['lba'], 1), itt, sn, es, 0, 512, write=True, data=d, imm=imm)
        elif kind == 'tmf':
            b = I.tmf(o.get('func', 5), itt, I.NOTAG, sn, es, 0, imm)
        elif kind == 'dataout':
            b = I.data_out(itt, 0x22, 0, 0, T.payload([o.get('tok', 5)]), True)
        elif kind == 'nop':
            b = I.nop_out(itt, sn, es, b'hello', imm)
        elif kind == 'text':
            b = I.text(itt, sn, [('SendTargets', 'All')], es, imm=imm)
        elif kind == 'snack':
            b = I.bhs(I.SNACK, 0x80, itt=itt, w28=es)
        else:
            raise ValueError(kind)
        x.c.send(b)
        if wait is None and (x.st != 'normal' or kind in ('dataout', 'snack')) and not (x.st == 'disc' and kind in ('nop', 'text')):
            wait = 0.8      # an answer is not owed
        if s and kind not in ('dataout', 'snack') and not imm:
            s.cmdsn = I.u32(s.cmdsn + 1)
        res, done = 'none', False
        try:
            while True:
                a = x.c.recv(self.timeout if wait is None else wait)
                done = kind == 'write' and a['t'] == 'resp' and a.get('status') == 0
                if a['t'] == 'reject':
                    res = 'reject'
                elif a['t'] == 'r2t':
                    res = 'resp'
                else:
                    res = 'resp'
                    if a['t'] == 'datain' and not a['S']:
                        continue
                if s and a['t'] != 'r2t':
                    s.expstatsn = I.u32(a['statsn'] + 1)
                break
        except I.Closed:
            res = 'closed'
        except I.Timeout:
            if wait is None:
                self.hurt()
        self.add(e='req', c=c, kind=kind, res=res, done=done, lba=o.get('lba', 0), tok=o.get('tok', 0))

    def io(self, c, op, lba, tok=0):
        x = self.conns.get(c)
        if x is None or x.s is None:
            return
        ok, got = False, 0
        tmo = self.timeout if x.st == 'normal' else 0.8
        try:
            if op == 'write':
                r = x.s.cmd(C.rw('write', 10, lba, 1), 0, data=T.payload([tok]), imm=0 if x.o.get('noimm') else None, timeout=tmo)
                ok = r['t'] == 'resp' and r['status'] == 0
                self.add(e='write', c=c, lba=lba, tok=tok, ok=ok)
                return
            r = x.s.cmd(C.rw('read', 10, lba, 1), 0, read=512, timeout=tmo)
            ok = r['status'] == 0
            got = (T.decode(r['in']) + [-2])[0]
        except (I.Closed, AssertionError, IndexError):
            pass
        except I.Timeout:
            if x.st == 'normal':
                self.hurt()
        self.add(e=op, c=c, lba=lba, ok=ok, tok=tok if op == 'write' else got)

    def xread(self, c, n, lba=100):
        x = self.conns.get(c)
        if x is None or x.s is None:
            return
        s = x.s
        itt = s.nexttag()
        pdus, ok = [], False
        try:
            s.c.send(I.scsi_cmd(C.rw('read', 10, lba, n), itt, s.cmdsn, s.expstatsn, 0, n * 512, read=True))
            s.cmdsn = I.u32(s.cmdsn + 1)
            while True:
                p = s.c.recv(self.timeout)
                if p['t'] == 'datain':
                    pdus.append([len(p['data']), p['final']])
                    if not p['S']:
                        continue
                ok = p.get('status') == 0
                s.expstatsn = I.u32(p['statsn'] + 1)
                break
        except (I.Closed,):
            pass
        except I.Timeout:
            self.hurt()
        self.add(e='xread', c=c, n=n * 512, pdus=pdus, ok=ok)

    def xwrite(self, c, n, imm, lba=100):
        x = self.conns.get(c)
        if x is None or x.s is None:
            return
        s = x.s
        itt = s.nexttag()
        toks = [(7 * k + n + 3 * itt) & 0xffff for k in range(n)]
        data = T.payload(toks)
        r2ts, ok, same = [], False, False
        imm = min(imm, len(data))
        try:
            s.c.send(I.scsi_cmd(C.rw('write', 10, lba, n), itt, s.cmdsn, s.expstatsn, 0, n * 512, write=True, data=data[:imm]))
            s.cmdsn = I.u32(s.cmdsn + 1)
            while True:
                p = s.c.recv(self.timeout)
                if p['t'] == 'r2t':
                    r2ts.append(min(p['dlen'], 1 << 30))
                    off, left, sn = p['offset'], min(p['dlen'], len(data)), 0
                    while left > 0:
                        k = min(left, 8192)
                        s.c.send(I.data_out(itt, p['ttt'], sn, off, data[off:off + k], left == k, 0, s.expstatsn))
                        off, left, sn = off + k, left - k, sn + 1
                    continue
                ok = p['t'] == 'resp' and p['status'] == 0
                s.expstatsn = I.u32(p['statsn'] + 1)
                break
            r = s.cmd(C.rw('read', 10, lba, n), 0, read=n * 512, timeout=self.timeout)
            same = r['in'] == data
        except (I.Closed, AssertionError, IndexError):
            pass
        except I.Timeout:
            self.hurt()
        self.add(e='xwrite', c=c, n=n * 512, imm=imm, r2ts=r2ts, ok=ok, same=same)

    def text(self, c, val, extra=()):
        x = self.conns.get(c)
        if x is None:
            return
        s = x.s
        x.itt += 1
        itt = x.itt
        ev = {'e': 'text', 'c': c, 'val': val, 'res': 'none', 'pairs': [], 'final': False, 'cont': False, 'itt': '%08x' % itt, 'ritt': '', 'ttt': '', 'left': 0}
        x.c.send(I.text(itt, s.cmdsn if s else 1, [('SendTargets', val)] + [tuple(k) for k in extra], s.expstatsn if s else 0, imm=False))
        if s:
            s.cmdsn = I.u32(s.cmdsn + 1)
        try:
            a = x.c.recv(self.timeout)
            if a['t'] == 'text':
                d = a['data']
                ev.update(res='resp', pairs=[[k, v or ''] for k, v in a['kv']], final=a['final'], cont=a['cont'], ritt='%08x' % a['itt'],
                          ttt='%08x' % a['ttt'], left=(0 if not d or d.endswith(b'\0') else 1) + sum(1 for k, v in a['kv'] if v is None))
            else:
                ev['res'] = 'reject' if a['t'] == 'reject' else 'resp'
            if s:
                s.expstatsn = I.u32(a['statsn'] + 1)
        except I.Closed:
            ev['res'] = 'closed'
        except I.Timeout:
            self.hurt()
        self.ev.append(ev)

    def logout(self, c):
        x = self.conns.get(c)
        if x is None:
            return
        s = x.s
        resp = closed = False
        x.itt += 1
        x.c.send(I.logout(x.itt, s.cmdsn if s else 1, s.expstatsn if s else 0, 0, s.cid if s else 0, imm=False))
        try:
            while True:
                a = x.c.recv(self.timeout)
                resp = resp or a['t'] == 'logout'
        except I.Closed:
            closed = True
        except I.Timeout:
            self.hurt()
        x.c.close()
        self.conns.pop(c)
        self.left(x)
        self.add(e='logout', c=c, resp=resp, closed=closed)

    def settled(self, timeout):
        """The sessions, once they are those of the connections that are open."""
        dl = time.monotonic() + timeout
        want = {}
        for x in self.conns.values():
            if x.st == 'normal' and not self.gone(x):
                want[x.tgt] = want.get(x.tgt, 0) + 1
        while True:
            l = self.srv.ctl('list')['targets']
            if all(len(t['nexus']) == want.get(t['name'], 0) for t in l):
                return l
            if time.monotonic() > dl:
                self.unsettled = True
                return l
            time.sleep(0.003)

    busy = unsettled = False

    def left(self, x):
        """The target takes its time to notice that a connection has ended."""
        if x.st == 'normal' and not self.busy and not self.unsettled:
            self.settled(3.0)

    def listing(self):
        l = self.settled(self.timeout)
        self.add(e='list', tgts=[{'name': t['name'], 'n': max(len(t['nexus']), t['ids'])} for t in l])

    def listloop(self, ms, steps):
        # the control channel is busy meanwhile: only steps that do not need it
        th = {}

        def go():
            try:
                r = self.srv.ctl('listloop', ms=ms)
                th.update(ok=True, sizes=[int(k) for k in r.get('sizes', {})] if isinstance(r.get('sizes'), dict) else r.get('sizes', []))
            except T.ServerDied:
                th['died'] = True
            except RuntimeError:
                th.update(ok=False, sizes=[])
        t = threading.Thread(target=go)
        t.start()
        k = 0
        self.busy = True
        while t.is_alive() and k < len(steps):
            self.step(steps[k])
            k += 1
        t.join()
        self.busy = False
        for st in steps[k:]:
            self.step(st)
        if th.get('died'):
            raise T.ServerDied()
        self.add(e='listloop', ok=th['ok'], sizes=th['sizes'])

    def storm(self, kind, n, o=None):
        import run as R
        exe = os.path.join(T.workdir(), 'storm')
        tgt = next(iter(self.sc['targets']))
        r = subprocess.run([exe, str(self.srv.port), kind, str(n), tgt] + [str(a) for a in (o or [])], capture_output=True, text=True, timeout=300)
        try:
            j = json.loads(r.stdout)
        except ValueError:
            j = {'failed': 1, 'err': r.stdout[-300:] + r.stderr[-300:]}
        if not self.srv.alive():
            raise T.ServerDied()
        self.add(e='storm', kind=kind, n=n, failed=j['failed'], first=j.get('first', -1), err=str(j.get('err', ''))[:200])

    def step(self, st):
        op, a = st[0], st[1:]
        if op in ('connect', 'crace', 'login', 'race', 'req', 'xread', 'xwrite', 'text', 'logout', 'listloop', 'storm'):
            getattr(self, op)(*a)
        elif op == 'ping':
            self.req(a[0], 'nop', {'imm': True})
        elif op in ('write', 'read'):
            self.io(a[0], op, *a[1:])
        elif op == 'drop':
            x = self.conns.pop(a[0], None)
            if x:
                h = zlib.crc32(('%s %d' % (a[0], len(self.ev))).encode())
                I.vanish(x.c, a[1] if len(a) > 1 else I.ENDS[h % len(I.ENDS)], itt=h)
                self.left(x)
                self.add(e='drop', c=a[0])
        elif op == 'refused' and a[0] in self.conns and self.conns[a[0]].st != 'login':
            pass        # it was not
        elif op in ('over', 'refused'):
            x = self.conns.pop(a[0], None)
            if x:
                ok = x.c.wait_closed(self.timeout)
                if not ok:
                    self.hurt()
                x.c.close()
                self.left(x)
                self.add(e='over', c=a[0], closed=ok)
        elif op == 'list':
            self.listing()
        elif op == 'svcclose':
            r = self.srv.ctl('close')
            self.add(e='svcclose', ok=bool(r.get('run_returned')))
        elif op == 'svcrun':
            self.srv.ctl('run', port=self.srv.port)
            self.add(e='svcrun', ok=self.srv._up())
        elif op == 'newtarget':
            name, conf, valid = a
            it = {n: v for n, v in self.it.items()}
            it[name] = {'tpgts': {g: [self.pid[k] if k < len(self.pid) else 9999 if k % 2 else 3 * 65536 + self.pid[0] for k in ps] for g, ps in conf.items()}, 'luns': {}}
            cfg = {'storages': [], 'iscsiportals': json.loads(T.ported(json.dumps(self.pconf), self.srv.port)), 'iscsitargets': it}
            try:
                self.srv.ctl('newtarget', name=name, config=cfg)
                ok = True
            except RuntimeError:
                ok = False
            self.add(e='newtarget', name=name, ok=ok, valid=valid, conf=self.tconf(conf) if valid else {})
        elif op == 'cluster':
            self.srv.ctl('clusterip', ip=a[0])
            self.add(e='cluster', ip=a[0])
        elif op == 'sleep':
            time.sleep(a[0])
        else:
            raise ValueError(op)
        if self.lost >= 3:
            raise Enough()


def run(sc, timeout=None):
    r = LoginRun(sc, timeout)
    try:
        for st in sc['steps']:
            r.step(st)
        if not r.srv.alive():
            r.add(e='bad', what='crashed')
    except Enough:
        pass
    except (T.ServerDied, BrokenPipeError):
        r.add(e='bad', what='crashed')
    finally:
        r.stop()
    return r.ev
