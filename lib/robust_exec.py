"""A misbehaving peer on some connections, well-behaved sessions on others; the events are the trace validated by RobustTrace.

steps
  open a phase {noread, keys}      phase tcp: connected; ffp / disc: logged in
  send a hex {sn, ttt, cut}        bytes; sn: put the current CmdSN + sn into them; ttt: put the tag of the last R2T into them
  part a hex n                     the first n bytes
  probe a                          bring the connection to a PDU boundary, then ping and TEST UNIT READY
  drop a how                       close / rst / shut (half-close: the target has to close)
  victim v op lba tok|n            w / r
  listing"""
import select, socket, struct, threading, time
import iscsi as I, target as T, cdb as C

TIMEOUT = 8.0
T0, T1 = T.TGT, 'iqn.2026-01.verif:t1'
NB = 16
FILL = 3 << 20


class Peer:
    """A raw connection, read all the time."""

    def __init__(self, port, timeout, rst=False, noread=False):
        self.c = I.Conn(port, timeout=timeout, rst=rst)
        self.timeout = timeout
        self.lock = threading.Condition()
        self.pdus, self.closed, self.n = [], False, 0
        self.exp, self.r2t, self.logged = 1, None, False
        self.noread = noread
        self.hdr, self.need = b'', 0
        self.stop = False
        self.th = threading.Thread(target=self.reader, daemon=True)
        self.th.start()

    def reader(self):
        buf = b''
        while not self.stop:
            if self.noread:
                time.sleep(0.01)
                continue
            try:
                r, _, _ = select.select([self.c.s], [], [], 0.1)
                if not r:
                    continue
                d = self.c.s.recv(1 << 18)
            except (OSError, ValueError):
                d = b''
            with self.lock:
                if not d:
                    self.closed = True
                    self.lock.notify_all()
                    return
                buf += d
                while len(buf) >= 48:
                    n = 48 + buf[4] * 4 + (int.from_bytes(buf[5:8], 'big') + 3 & ~3)
                    if len(buf) < n:
                        break
                    try:
                        p = I.parse(buf[:48], buf[48:n])
                    except Exception:
                        p = {'t': 'junk', 'itt': 0}
                    buf = buf[n:]
                    if p['t'] == 'login':
                        self.exp = p['expcmdsn']
                        if p['transit'] and p['nsg'] == 3 and p['sclass'] == 0:
                            self.logged = True
                    elif p['t'] != 'junk':
                        self.exp = p['expcmdsn']
                        if p['t'] == 'r2t':
                            self.r2t = p
                    self.pdus.append(p)
                self.lock.notify_all()

    def feed(self, b):
        """Follow the framing of what is sent."""
        i = 0
        while i < len(b):
            if self.need:
                k = min(self.need, len(b) - i)
                self.need -= k
                i += k
                continue
            k = min(48 - len(self.hdr), len(b) - i)
            self.hdr += b[i:i + k]
            i += k
            if len(self.hdr) == 48:
                self.need = self.hdr[4] * 4 + (int.from_bytes(self.hdr[5:8], 'big') + 3 & ~3)
                self.hdr = b''

    @property
    def mid(self):
        return bool(self.hdr) or self.need > 0

    def left(self):
        return self.need or (48 - len(self.hdr) if self.hdr else 0)

    def send(self, b):
        """As much as the other side takes; what is not taken within the limit counts as not sent."""
        end = time.monotonic() + (0.3 if self.noread else self.timeout)
        i = 0
        while i < len(b) and time.monotonic() < end and not self.closed:
            try:
                _, w, _ = select.select([], [self.c.s], [], 0.1)
                if w:
                    self.c.s.setblocking(False)
                    i += self.c.s.send(b[i:i + 65536])
            except BlockingIOError:
                pass
            except (OSError, ValueError):
                break
        self.feed(b[:i])
        return i == len(b)

    def wait(self, f, timeout):
        """The first PDU for which f holds, 'closed' or None."""
        end = time.monotonic() + timeout
        k = 0
        with self.lock:
            while True:
                while k < len(self.pdus):
                    if f(self.pdus[k]):
                        return self.pdus[k]
                    k += 1
                if self.closed:
                    return 'closed'
                left = end - time.monotonic()
                if left <= 0:
                    return None
                self.lock.wait(left)

    def close(self):
        self.stop = True
        self.c.close()


class Run:
    def __init__(self, sc, timeout=None):
        self.sc, self.timeout = sc, timeout or TIMEOUT
        self.ev, self.peers, self.vic = [], {}, {}
        self.nprobe = self.bad = 0
        cfg = T.simple_cfg({0: {'store': 'a', 'blocks': sc.get('blocks', 64), 'thin': True}, 1: {'store': 'b', 'blocks': NB}},
                           targets={T1: {0: {'store': 'v', 'blocks': NB}}})
        self.srv = T.Server(cfg)
        self.ev.append({'e': 'reset', 'n': 2 * NB})
        for n, (t, k) in {'v': (T1, 0x900000000001), 'w': (T0, 0x900000000002)}.items():
            self.vic[n] = I.Sess(self.srv.port, t, ini='iqn.2026-01.verif:victim', isid=k, timeout=self.timeout)

    def add(self, **e):
        self.ev.append(e)

    def alive(self):
        if not self.srv.alive():
            self.add(e='bad', what='crashed')
            raise T.ServerDied()

    def sent(self, a):
        p = self.peers[a]
        self.add(e='sent', c=a, mid=p.mid)

    def step(self, st):
        op = st[0]
        if op == 'open':
            a, ph, o = st[1], st[2], st[3]
            if a in self.peers:
                self.gone(a, 'close')
            try:
                p = Peer(self.srv.port, self.timeout, rst=o.get('rst', False))
            except OSError:
                self.alive()
                self.add(e='bad', what='unreachable')
                return
            if ph != 'tcp':
                kv = [('InitiatorName', 'iqn.2026-01.verif:' + a), ('SessionType', 'Normal' if ph == 'ffp' else 'Discovery')]
                if ph == 'ffp':
                    kv.append(('TargetName', T0))
                p.send(I.login(1, 3, True, kv + [tuple(k) for k in o.get('keys', [])], isid=0x800000000000 + (sum(a.encode()) & 0xffff)))
                r = p.wait(lambda q: q['t'] == 'login', self.timeout)
                if not p.logged:
                    self.alive()
                    self.add(e='bad', what='nologin')
                    p.close()
                    return
            p.noread = o.get('noread', False)
            self.peers[a] = p
            self.add(e='open', c=a, phase=ph)
            p.phase = ph
            p.stage = p.logged
        elif op in ('send', 'part'):
            a = st[1]
            p = self.peers.get(a)
            if p is None or p.closed:
                return
            b = bytearray.fromhex(st[2])
            o = st[3] if op == 'send' and len(st) > 3 else {}
            if p.mid and not o.get('raw'):
                self.finish(a)
            if 'sn' in o and len(b) >= 28:
                struct.pack_into('>I', b, 24, I.u32(p.exp + o['sn']))
            if o.get('ttt'):
                q = p.wait(lambda q: q['t'] == 'r2t', 0.3)
                if isinstance(q, dict) and len(b) >= 24:
                    struct.pack_into('>I', b, 20, p.r2t['ttt'])
            if op == 'part':
                b = b[:st[3]]
            p.send(bytes(b))
            self.sent(a)
        elif op == 'probe':
            self.probe(st[1])
        elif op == 'drop':
            self.gone(st[1], st[2])
        elif op == 'victim':
            self.victim(*st[1:])
        elif op == 'listing':
            self.listing()
        else:
            raise ValueError(op)

    def finish(self, a):
        p = self.peers[a]
        while p.mid and p.left() <= FILL and not p.closed:
            if not p.send(bytes(p.left())):
                break
        self.sent(a)

    def probe(self, a):
        p = self.peers.get(a)
        if p is None:
            return
        if p.noread:
            p.noread = False
        if p.mid:
            self.finish(a)
            if p.mid and not p.closed:
                self.gone(a, 'close')
                return
        self.nprobe += 1
        itt = 0x70000000 + 2 * self.nprobe
        p.send(I.nop_out(itt, p.exp, 0, b'probe'))
        q = p.wait(lambda q: q['t'] == 'nopin' and q['itt'] == itt, self.timeout)
        if p.logged and not p.stage and p.phase == 'tcp':
            p.stage = True
            self.add(e='logged', c=a)
        ping = 'closed' if q == 'closed' else 'none' if q is None else 'pong'
        cmd = ''
        if ping == 'pong':
            p.send(I.scsi_cmd(C.tur(), itt + 1, q['expcmdsn'], I.u32(q['statsn'] + 1)))
            r = p.wait(lambda q: (q['t'] == 'resp' and q['itt'] == itt + 1) or
                       (q['t'] == 'reject' and q['data'][16:20] == struct.pack('>I', itt + 1)), self.timeout)
            cmd = 'closed' if r == 'closed' else 'none' if r is None else 'answer' if r['t'] == 'resp' else 'reject'
        else:
            self.alive()
        self.add(e='probe', c=a, ping=ping, cmd=cmd)
        if 'none' in (ping, cmd):
            self.bad += 1
        if 'closed' in (ping, cmd) or 'none' in (ping, cmd):
            p.close()
            self.peers.pop(a)

    def gone(self, a, how):
        p = self.peers.pop(a, None)
        if p is None:
            return
        if how == 'shut':
            p.noread = False
            try:
                p.c.s.shutdown(socket.SHUT_WR)
            except OSError:
                pass
            if p.wait(lambda q: False, self.timeout) is None:
                self.add(e='bad', what='unclosed')
        elif how == 'rst':
            try:
                p.c.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            except OSError:
                pass
        p.close()
        self.add(e='gone', c=a)

    def victim(self, n, op, lba, x):
        s = self.vic.get(n)
        base = 0 if n == 'v' else NB
        lun = 0 if n == 'v' else 1
        if s is None:
            return
        try:
            if op == 'w':
                r = s.cmd(C.rw('write', 10, lba, 1), lun, data=T.block(x), imm=512 if x & 1 else 0)
                self.add(e='vwrite', lba=base + lba, tok=x, st=r['status'])
            else:
                r = s.cmd(C.rw('read', 10, lba, x), lun, read=512 * x)
                self.add(e='vread', lba=base + lba, num=x, st=r['status'], toks=T.decode(r['in']))
        except (I.Closed, I.Timeout, AssertionError):
            self.alive()
            self.add(e='vread', lba=base + lba, num=1, st=-1, toks=[])
            s.close()
            self.vic.pop(n)
            self.bad += 2

    def listing(self, settle=False):
        end = time.monotonic() + self.timeout
        while True:
            l = self.srv.ctl('list')['targets']
            left = max(0, sum(len(t['nexus']) for t in l) - len(self.vic) - len(self.peers))
            if left == 0 or not settle or time.monotonic() > end:
                break
            time.sleep(0.02)
        self.add(e='listing', names=[t['name'] for t in l], want=[T0, T1], left=left if settle else 0)

    def run(self):
        try:
            for st in self.sc['steps']:
                self.step(st)
                if self.bad > 3:
                    break
            for a in list(self.peers):
                self.probe(a)
            for a in list(self.peers):
                self.gone(a, 'close')
            for n in ('v', 'w'):
                self.victim(n, 'r', 0, NB)
            self.alive()
            self.listing(True)
            self.add(e='vdump', toks=T.decode(self.srv.dump('v')) + T.decode(self.srv.dump('b')))
            self.alive()
        except (T.ServerDied, BrokenPipeError):
            if not any(e['e'] == 'bad' for e in self.ev):
                self.add(e='bad', what='crashed')
        finally:
            for p in self.peers.values():
                p.close()
            for s in self.vic.values():
                s.close()
            self.srv.kill()
            self.srv.errf.close()
        return self.ev


def run(sc, timeout=None):
    return Run(sc, timeout).run()
