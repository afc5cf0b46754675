"""Executes PDU-level scripts on one or more connections of the real target; the events are the trace validated by
SessionTrace.

steps
  login c {tgt, disc, isid, ini, keys, cmdsn}     a new connection c with its own session
          {takes: old, how: session/conn, sn}     in place of the session, or the connection, of old
  send c [pdu, ...]                               the PDUs leave in one write
  part c itt n                                    (part of) the data of the R2T outstanding for itt
  finish c itt                                    answer every R2T of itt until its response is here
  get c itt                                       wait for the response of itt
  sync c                                          barrier: an immediate ping; afterwards nothing may be owed
  over c                                          the target has to close the connection
  drop c                                          close it from this side
  dump dev | nexus tgt n | sleep s
pdu: {t: cmd/dataout/nop/tmf/text/logout/other, itt, sn, imm, ...}; numbers are relative to the login's CmdSN."""
import os, time
import iscsi as I, target as T
from sbc_exec import limbs, dectok, SbcRun, Enough

TIMEOUT = 6.0
NOTAG = 'ffffffff'


def s32(x):
    x &= 0xffffffff
    return x - (1 << 32) if x >= 1 << 31 else x


def tag(n):
    return '%08x' % (n & 0xffffffff)


class C:
    pass


class SessRun(SbcRun):
    def __init__(self, sc, timeout=None):
        self.grace = 0.5 if timeout else 0.0
        self.conns = {}
        self.nlog = 0
        super().__init__(sc, timeout or TIMEOUT)

    def stop(self):
        for x in self.conns.values():
            x.s.close()
        super().stop()

    # ---- one connection
    def login(self, c, o):
        self.nlog += 1
        x = C()
        tgt = None if o.get('disc') else o.get('tgt', T.TGT)
        base = o.get('cmdsn', 1)
        old = self.conns.get(o.get('takes'))
        if o.get('takes') and old is None:
            return
        isid = o.get('isid', old.isid if old else 0x800000000000 + (sum(c.encode()) & 0xffff))
        again = old is not None and o.get('how') == 'conn'
        if again:
            base = I.u32(old.base + o['sn'])
        keys = [tuple(k) for k in o.get('keys', [])]
        try:
            x.s = I.Sess(self.srv.port, tgt, ini=o.get('ini', I.INI), isid=isid, keys=keys,
                         tsih=old.s.tsih if again else 0, cmdsn=base, timeout=self.timeout, expstatsn=o.get('expstatsn', 0), rst=o.get('rst', False))
        except (I.Closed, I.Timeout, I.LoginError, OSError):
            self.add(e='bad', what='nologin')
            return
        x.base, x.tgt, x.name = base, tgt, c
        x.isid = isid
        x.sid = old.sid if again else '%s.%d' % (c, self.nlog)
        lr = x.s.loginrsp
        x.stat0 = I.u32(lr['statsn'] + 1)
        kv = dict(lr['kv'])
        offered = dict(keys)

        def num(k, dflt):
            v = kv.get(k, str(dflt))
            return int(v) if v and v.isdigit() else dflt
        burst = num('MaxBurstLength', 262144)
        mr = offered.get('MaxRecvDataSegmentLength', '8192')
        imm = kv.get('ImmediateData', 'Yes') == 'Yes'
        x.cmds, x.r2t, x.out, x.resp, x.n = {}, {}, {}, set(), 0
        x.closed = False
        self.conns[c] = x
        if old is not None:
            # the connection it replaces is closed; nothing more comes from there
            self.conns.pop(o['takes'])
            try:
                while True:
                    old.s.c.recv(self.timeout)
                    self.add(e='bad', what='extra')
            except I.Closed:
                pass
            except I.Timeout:
                self.add(e='bad', what='unclosed')
            old.s.close()
            self.add(e='replaced', c=o['takes'], all=not again)
            if not again and tgt:
                self.nexus(tgt)
        self.add(e='login', c=c, s=x.sid, tgt=tgt or '', disc=tgt is None, imm=imm, mrdsl=int(mr), burst=burst,
                 win=s32(lr['maxcmdsn'] - lr['expcmdsn']), statsn=0, exp=s32(lr['expcmdsn'] - base))

    def wire(self, x, p):
        """(bytes, event)"""
        t = p['t']
        itt = p.get('itt', 0)
        sn = p.get('sn', 0)
        csn = I.u32(x.base + sn)
        es = x.s.expstatsn
        imm = bool(p.get('imm'))
        ev = {'t': t, 'itt': tag(itt), 'imm': imm, 'sn': sn, 'hdr': ''}
        if t == 'cmd':
            lun = p.get('lun', 0)
            store = self.maps.get(x.tgt, {}).get(str(lun))
            bs = self.bs.get(store, 512)
            cdb = bytes.fromhex(p['cdb'])
            data = b''
            if 'out' in p:
                data = T.payload(p['out'], bs)
            elif 'pbytes' in p:
                data = bytes.fromhex(p['pbytes'])
            d = p.get('dir', 'n')
            edtl = p.get('edtl', len(data))
            il = min(p.get('immlen', 0), len(data))
            b = I.scsi_cmd(cdb, itt, csn, es, lun, edtl, read=d in 'rb', write=d in 'wb', imm=imm, data=data[:il], attr=p.get('attr', 0),
                           ahs=bytes.fromhex(p.get('ahs', '')))
            x.cmds[itt] = {'data': data, 'bs': bs, 'op': cdb[0], 'lun': lun}
            x.out.pop(itt, None)
            x.r2t.pop(itt, None)
            x.resp.discard(itt)
            ev.update(s='', tgt='', lun=str(lun), cdb=list(cdb.ljust(16, b'\0')), edtl=edtl, dir=d,
                      dout=dectok(data, bs) if 'out' in p else [], pbytes=list(data) if 'pbytes' in p else [], immlen=il)
        elif t == 'dataout':
            n = p['len']
            k = x.cmds.get(itt)
            data = (k['data'] if k else b'')[p['off']:p['off'] + n]
            data = data.ljust(n, b'\x5a')
            fin = p.get('final', True)
            b = I.data_out(itt, p.get('ttt', 0xffffffff), p.get('dsn', 0), p['off'], data, fin, k['lun'] if k else 0, es)
            ev.update(off=p['off'], len=n, final=fin)
        elif t == 'nop':
            d = bytes.fromhex(p.get('data', ''))
            b = I.nop_out(itt, csn, es, d, imm)
            ev.update(data=d.hex())
        elif t == 'tmf':
            b = I.tmf(p['func'], itt, p.get('ref', I.NOTAG), csn, es, p.get('lun', 0), imm)
            ev.update(func=p['func'], ref=tag(p.get('ref', I.NOTAG)), lun=str(p.get('lun', 0)))
        elif t == 'text':
            fin = p.get('final', True)
            b = I.text(itt, csn, [tuple(k) for k in p.get('kv', [['SendTargets', 'All']])], es, fin, not fin and p.get('cont', False), imm)
            ev.update(final=fin)
        elif t == 'logout':
            b = I.logout(itt, csn, es, p.get('reason', 0), 0, imm)
        elif t == 'other':
            b = I.bhs(p['op'] | (0x40 if imm else 0), 0x80, itt=itt, w24=csn, w28=es)
        else:
            raise ValueError(t)
        ev['hdr'] = b[:48].hex()
        return b, ev

    def send(self, c, pdus):
        x = self.conns.get(c)
        if x is None:
            return
        buf = b''
        for p in pdus:
            b, ev = self.wire(x, p)
            buf += b
            self.add(e='send', c=c, p=ev)
        try:
            x.s.c.send(buf)
        except I.Timeout:
            pass

    def recv(self, x, timeout=None):
        """Take one PDU and record it."""
        p = x.s.c.recv(timeout)
        t, itt = p['t'], p['itt']
        ev = {'t': t, 'itt': tag(itt), 'statsn': s32(p['statsn'] - x.stat0), 'exp': s32(p['expcmdsn'] - x.base), 'max': s32(p['maxcmdsn'] - x.base)}
        if t in ('datain', 'resp'):
            buf = x.out.setdefault(itt, bytearray())
            k = x.cmds.get(itt, {'bs': 512, 'op': 0})
            if t == 'datain':
                d = p['data']
                o = min(p['offset'], 1 << 26)
                if len(buf) < o + len(d):
                    buf.extend(b'\xee' * (o + len(d) - len(buf)))
                buf[o:o + len(d)] = d
                ev.update(off=min(p['offset'], 0x7fffffff), len=len(d), sn=s32(p['datasn']), F=p['final'], S=p['S'])
            if t == 'resp' or p['S']:
                ev.update(status=p['status'], key=p.get('key', 0), asc=p.get('asc', 0), U=p['U'], O=p['O'], resid=p['resid'] & 0x7fffffff,
                          dinlen=len(buf), din=dectok(bytes(buf), k['bs']) if k['op'] in (8, 0x28, 0xa8, 0x88) else [])
                x.resp.add(itt)
                x.r2t.pop(itt, None)
        elif t == 'r2t':
            ev.update(off=min(p['offset'], 0x7fffffff), len=min(p['dlen'], 0x7fffffff), sn=s32(p['r2tsn']), ttt=tag(p['ttt']))
            x.r2t[itt] = [p['ttt'], p['offset'], p['offset'] + p['dlen'], 0]
        elif t == 'nopin':
            ev.update(data=p['data'].hex(), ttt=tag(p['ttt']))
            x.resp.add(itt)
        elif t in ('tmf', 'logout'):
            ev.update(rsp=p['resp'])
            x.resp.add(itt)
        elif t == 'reject':
            ev.update(hdr=p['data'][:48].hex())
        elif t == 'text':
            x.resp.add(itt)
        if t in ('resp', 'nopin', 'tmf', 'text', 'logout', 'reject') or (t == 'datain' and p['S']):
            x.s.expstatsn = I.u32(p['statsn'] + 1)
        self.add(e='recv', c=x.name, p=ev)
        return p

    def over(self, x):
        """The target closed the connection."""
        x.s.close()
        self.conns.pop(x.name, None)
        if not self.srv.alive():
            self.add(e='bad', what='crashed')
            raise T.ServerDied()
        self.add(e='closed', c=x.name, rst=x.s.c.reset)

    def until(self, x, cond, what):
        """Take PDUs until cond(); False when the connection is gone."""
        dl = time.monotonic() + self.timeout
        try:
            while not cond():
                self.recv(x, max(0.0, dl - time.monotonic()))
            return True
        except I.Closed:
            self.over(x)
        except I.Timeout:
            self.add(e='bad', what=what)
            self.lost += 1
            if not self.srv.alive():
                self.add(e='bad', what='crashed')
                raise T.ServerDied()
            x.s.close()
            self.conns.pop(x.name, None)
            self.add(e='drop', c=x.name)
            if self.lost >= 2:
                raise Enough()
        return False

    def sync(self, c):
        x = self.conns.get(c)
        if x is None:
            return False
        x.n += 1
        itt = 0x7f000000 + x.n
        # immediate: its number is not used; quote the next one
        self.send(c, [{'t': 'nop', 'itt': itt, 'imm': True, 'sn': 0, 'data': '%08x' % x.n}])
        if not self.until(x, lambda: itt in x.resp, 'silent'):
            return False
        if self.grace:
            try:
                while True:
                    self.recv(x, self.grace)
            except I.Timeout:
                pass
            except I.Closed:
                self.over(x)
                return False
        self.add(e='idle', c=c)
        return True

    def part(self, c, itt, n, cuts=None):
        """Send up to n bytes of what the outstanding R2T asks for."""
        x = self.conns.get(c)
        if x is None or not self.until(x, lambda: itt in x.r2t or itt in x.resp, 'silent') or itt not in x.r2t:
            return False
        ttt, off, end, sn = x.r2t[itt]
        ps = []
        cuts = list(cuts or [])
        left = min(n, end - off)
        while left > 0:
            k = min(cuts.pop(0) if cuts else 8192, left)
            ps.append({'t': 'dataout', 'itt': itt, 'off': off, 'len': k, 'final': off + k == end, 'ttt': ttt, 'dsn': sn})
            off += k
            sn += 1
            left -= k
        if off == end:
            x.r2t.pop(itt)
        else:
            x.r2t[itt] = [ttt, off, end, sn]
        self.send(c, ps)
        return True

    def finish(self, c, itt, maxpdu=8192):
        for _ in range(20000):
            x = self.conns.get(c)
            if x is None or itt in x.resp:
                return
            if not self.part(c, itt, 1 << 30, [maxpdu] * 5000):
                return

    def step(self, st):
        op, a = st[0], st[1:]
        if op == 'login':
            self.login(a[0], a[1] if len(a) > 1 else {})
        elif op == 'send':
            self.send(*a)
        elif op == 'part':
            self.part(*a)
        elif op == 'finish':
            self.finish(*a)
        elif op == 'get':
            x = self.conns.get(a[0])
            if x is not None:
                self.until(x, lambda: a[1] in x.resp, 'silent')
        elif op == 'sync':
            self.sync(a[0])
        elif op == 'over':
            x = self.conns.get(a[0])
            if x is not None:
                self.until(x, lambda: False, 'unclosed')
        elif op == 'drop':
            x = self.conns.pop(a[0], None)
            if x is not None:
                x.s.close()
                self.add(e='drop', c=a[0])
                self.nexus(x.tgt)
        elif op == 'nexus':
            self.nexus(*a)
        elif op == 'sleep':
            time.sleep(a[0])
        else:
            super().step(st)

    def nexus(self, tgt, want=None):
        if not tgt:
            return
        if want is None:
            want = sum(1 for x in self.conns.values() if x.tgt == tgt)
        dl = time.monotonic() + self.timeout
        while time.monotonic() < dl:
            l = [t for t in self.srv.ctl('list')['targets'] if t['name'] == tgt]
            if not l or len(l[0]['nexus']) <= want:
                return
            time.sleep(0.002)
        self.add(e='bad', what='notfreed')


def run(sc, timeout=None):
    r = SessRun(sc, timeout)
    try:
        for st in sc['steps']:
            r.step(st)
        if not r.srv.alive():
            r.add(e='bad', what='crashed')
    except Enough:
        pass
    except (T.ServerDied, BrokenPipeError):
        r.add(e='bad', what='crashed')
    finally:
        r.stop()
    return r.ev
