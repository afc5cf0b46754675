"""Raw iSCSI initiator: builds and decodes PDUs itself, keeps no policy of its own."""
import socket, struct, select, time

# initiator opcodes
NOP_OUT, SCSI_CMD, TMF_REQ, LOGIN_REQ, TEXT_REQ, DATA_OUT, LOGOUT_REQ, SNACK = 0, 1, 2, 3, 4, 5, 6, 0x10
# target opcodes
NOP_IN, SCSI_RSP, TMF_RSP, LOGIN_RSP, TEXT_RSP, DATA_IN, LOGOUT_RSP, R2T, ASYNC, REJECT = \
    0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x31, 0x32, 0x3f
NAMES = {NOP_IN: 'nopin', SCSI_RSP: 'resp', TMF_RSP: 'tmf', LOGIN_RSP: 'login', TEXT_RSP: 'text',
         DATA_IN: 'datain', LOGOUT_RSP: 'logout', R2T: 'r2t', ASYNC: 'async', REJECT: 'reject'}
NOTAG = 0xffffffff


def pad4(b):
    return b + b'\0' * (-len(b) % 4)


def u32(x):
    return x & 0xffffffff


def bhs(op, flags=0, b2=0, b3=0, ahs=0, dlen=0, lun=b'\0' * 8, itt=0, w20=0, w24=0, w28=0, tail=b'\0' * 16):
    return struct.pack('>BBBBB', op, flags, b2, b3, ahs) + struct.pack('>I', dlen)[1:] + lun + \
        struct.pack('>IIII', u32(itt), u32(w20), u32(w24), u32(w28)) + tail[:16].ljust(16, b'\0')


def lun8(n):
    """SAM LUN encoding the way initiators do it: peripheral below 256, flat space above."""
    if isinstance(n, (bytes, bytearray)):
        return bytes(n)
    if n < 256:
        return bytes([0, n]) + b'\0' * 6
    return struct.pack('>H', 0x4000 | n) + b'\0' * 6


def scsi_cmd(cdb, itt, cmdsn, expstatsn=0, lun=0, edtl=0, read=False, write=False, final=True,
             imm=False, data=b'', attr=0, ahs=b''):
    fl = (0x80 if final else 0) | (0x40 if read else 0) | (0x20 if write else 0) | attr
    return bhs(SCSI_CMD | (0x40 if imm else 0), fl, 0, 0, len(ahs) // 4, len(data), lun8(lun), itt, edtl, cmdsn,
               expstatsn, cdb.ljust(16, b'\0')) + ahs + pad4(data)


def data_out(itt, ttt, datasn, offset, data, final, lun=0, expstatsn=0):
    return bhs(DATA_OUT, 0x80 if final else 0, dlen=len(data), lun=lun8(lun), itt=itt, w20=ttt, w28=expstatsn,
               tail=struct.pack('>IIII', 0, datasn, u32(offset), 0)) + pad4(data)


def nop_out(itt, cmdsn, expstatsn=0, data=b'', imm=True, ttt=NOTAG):
    return bhs(NOP_OUT | (0x40 if imm else 0), 0x80, dlen=len(data), itt=itt, w20=ttt, w24=cmdsn, w28=expstatsn) + pad4(data)


def tmf(func, itt, ref, cmdsn, expstatsn=0, lun=0, imm=True, refcmdsn=0):
    return bhs(TMF_REQ | (0x40 if imm else 0), 0x80 | func, lun=lun8(lun), itt=itt, w20=ref, w24=cmdsn, w28=expstatsn,
               tail=struct.pack('>IIII', refcmdsn, 0, 0, 0))


def logout(itt, cmdsn, expstatsn=0, reason=0, cid=0, imm=True):
    return bhs(LOGOUT_REQ | (0x40 if imm else 0), 0x80 | reason, itt=itt, w20=cid << 16, w24=cmdsn, w28=expstatsn)


def text(itt, cmdsn, kv, expstatsn=0, final=True, cont=False, imm=True, ttt=NOTAG):
    d = kv if isinstance(kv, bytes) else kvtext(kv)
    return bhs(TEXT_REQ | (0x40 if imm else 0), (0x80 if final else 0) | (0x40 if cont else 0), dlen=len(d), itt=itt,
               w20=ttt, w24=cmdsn, w28=expstatsn) + pad4(d)


def kvtext(kv):
    return b''.join(('%s=%s' % (k, v)).encode('latin1') + b'\0' for k, v in kv)


def login(csg, nsg, transit, kv, isid=0x800000000001, tsih=0, itt=1, cid=0, cmdsn=1, expstatsn=0, cont=False, ver=0):
    d = kv if isinstance(kv, bytes) else kvtext(kv)
    fl = (0x80 if transit else 0) | (0x40 if cont else 0) | (csg << 2) | nsg
    lun = struct.pack('>Q', isid)[2:] + struct.pack('>H', tsih)
    return bhs(LOGIN_REQ | 0x40, fl, ver, 0, 0, len(d), lun, itt, cid << 16, cmdsn, expstatsn) + pad4(d)


class Closed(Exception):
    pass


class Timeout(Exception):
    pass


def parse_kv(d):
    out = []
    for p in d.split(b'\0'):
        if not p:
            continue
        k, s, v = p.partition(b'=')
        out.append((k.decode('latin1'), v.decode('latin1') if s else None))
    return out


def parse(h, d):
    op = h[0] & 0x3f
    w = lambda o: struct.unpack('>I', h[o:o + 4])[0]
    p = {'op': op, 't': NAMES.get(op, 'op%02x' % op), 'flags': h[1], 'data': d, 'itt': w(16), 'statsn': w(24),
         'expcmdsn': w(28), 'maxcmdsn': w(32), 'raw': h, 'final': bool(h[1] & 0x80)}
    if op == SCSI_RSP:
        p.update(resp=h[2], status=h[3], resid=w(44), U=bool(h[1] & 2), O=bool(h[1] & 4), expdatasn=w(36))
        p['sense'] = d
        if len(d) >= 2:
            sl = struct.unpack('>H', d[:2])[0]
            s = d[2:2 + sl]
            p['senselen'] = sl
            if len(s) >= 14:
                p.update(rcode=s[0] & 0x7f, key=s[2] & 0xf, asc=s[12] << 8 | s[13])
    elif op == DATA_IN:
        p.update(S=bool(h[1] & 1), status=h[3] if h[1] & 1 else None, datasn=w(36), offset=w(40), resid=w(44),
                 U=bool(h[1] & 2), O=bool(h[1] & 4), ttt=w(20))
    elif op == R2T:
        p.update(ttt=w(20), r2tsn=w(36), offset=w(40), dlen=w(44))
    elif op == LOGIN_RSP:
        p.update(transit=bool(h[1] & 0x80), cont=bool(h[1] & 0x40), csg=(h[1] >> 2) & 3, nsg=h[1] & 3,
                 isid=int.from_bytes(h[8:14], 'big'), tsih=int.from_bytes(h[14:16], 'big'),
                 sclass=h[36], sdetail=h[37], kv=parse_kv(d))
    elif op in (TMF_RSP, LOGOUT_RSP):
        p.update(resp=h[2])
    elif op == TEXT_RSP:
        p.update(ttt=w(20), cont=bool(h[1] & 0x40), kv=parse_kv(d))
    elif op == NOP_IN:
        p.update(ttt=w(20))
    elif op == REJECT:
        p.update(reason=h[2])
    return p


class Conn:
    """One TCP connection.  recv() raises Closed when the peer closed it and
    Timeout when nothing came within the limit."""

    def __init__(self, port, src='127.0.0.1', dst='127.0.0.1', timeout=10.0, rst=False):
        self.s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        if rst:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        self.s.bind((src, 0))
        self.s.settimeout(timeout)
        self.s.connect((dst, port))
        self.timeout = timeout
        self.buf = b''
        self.eof = False
        self.reset = False
        self.bytes_in = 0

    def send(self, b):
        try:
            self.s.settimeout(self.timeout)
            self.s.sendall(b)
            return True
        except socket.timeout:
            raise Timeout('send')
        except OSError:
            return False

    def _fill(self, n, deadline):
        while len(self.buf) < n:
            if self.eof:
                raise Closed()
            left = deadline - time.monotonic()
            if left <= 0:
                raise Timeout('recv')
            self.s.settimeout(left)
            try:
                d = self.s.recv(1 << 18)
            except socket.timeout:
                raise Timeout('recv')
            except OSError:
                d = b''
                self.reset = True
            if not d:
                self.eof = True
                raise Closed()
            self.bytes_in += len(d)
            self.buf += d

    def recv(self, timeout=None):
        dl = time.monotonic() + (self.timeout if timeout is None else timeout)
        self._fill(48, dl)
        h = self.buf[:48]
        ahs = h[4] * 4
        n = int.from_bytes(h[5:8], 'big')
        tot = 48 + ahs + n + (-n % 4)
        self._fill(tot, dl)
        d = self.buf[48 + ahs:48 + ahs + n]
        self.padbytes = self.buf[48 + ahs + n:tot]
        self.buf = self.buf[tot:]
        return parse(h, d)

    def wait_closed(self, timeout):
        """True when the peer closes (data before that is discarded)."""
        dl = time.monotonic() + timeout
        while True:
            try:
                self._fill(len(self.buf) + 1, dl)
                self.buf = b''
            except Closed:
                return True
            except Timeout:
                return False

    def close(self):
        try:
            self.s.close()
        except OSError:
            pass

    def shutdown_wr(self):
        try:
            self.s.shutdown(socket.SHUT_WR)
        except OSError:
            pass


ENDS = ['drop', 'rst', 'shut', 'bhs', 'data']       # ways for a connection to end
SESSION_ENDS = ENDS + ['pend', 'held', 'burst']     # and for one with a session


def vanish(c, how, cmdsn=1, expstatsn=0, itt=0x7ff00001):
    """End a connection in one way or another, none of which leaves anything to be done by the peer."""
    if how == 'rst':
        try:
            c.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        except OSError:
            pass
    elif how == 'shut':
        c.shutdown_wr()
        c.wait_closed(c.timeout)
    elif how == 'bhs':           # in the middle of a header
        c.send(nop_out(itt, cmdsn, expstatsn)[:1 + itt % 47])
    elif how == 'data':          # in the middle of its data
        c.send(nop_out(itt, cmdsn, expstatsn, bytes(64))[:48 + itt % 63])
    elif how == 'pend':          # a write whose data never comes
        c.send(scsi_cmd(bytes([0x2a, 0, 0, 0, 0, 0, 0, 0, 1, 0]), itt, cmdsn, expstatsn, 0, 512, write=True))
        try:
            c.recv()
        except (Closed, Timeout):
            pass
    elif how == 'held':          # a command whose turn never comes
        c.send(scsi_cmd(bytes(6), itt, u32(cmdsn + 2), expstatsn))
    elif how == 'burst':         # commands whose answers nobody wants
        c.send(b''.join(scsi_cmd(bytes([0x12, 0, 0, 0, 96, 0]), u32(itt + k), u32(cmdsn + k), expstatsn, 0, 96, read=True) for k in range(20)))
    c.close()


INI = 'iqn.2026-01.verif:ini'


class LoginError(Exception):
    pass


class Sess:
    """A well-behaved normal (or discovery) session with synchronous helpers."""

    def __init__(self, port, target=None, ini=INI, isid=0x800000000001, keys=(), src='127.0.0.1', cmdsn=1, cid=0,
                 tsih=0, security=True, timeout=10.0, dst='127.0.0.1', rst=False, expstatsn=0, ver=0):
        self.c = Conn(port, src, dst, timeout, rst)
        self.cmdsn = cmdsn
        self.itt = 0x10
        self.isid = isid
        self.ini = ini
        self.log = []
        self.expstatsn = expstatsn
        kv = [('InitiatorName', ini), ('SessionType', 'Normal' if target else 'Discovery')]
        if target:
            kv.append(('TargetName', target))
        if security:
            self.c.send(login(0, 1, True, [('InitiatorName', ini), ('AuthMethod', 'None')] +
                              ([('TargetName', target)] if target else []), isid, tsih, 1, cid, cmdsn, expstatsn))
            p = self.c.recv()
            if p['t'] != 'login' or p['sclass'] != 0:
                raise LoginError(p)
        self.keys = list(keys)
        self.c.send(login(1, 3, True, kv + self.keys, isid, tsih, 1, cid, cmdsn, expstatsn))
        p = self.c.recv()
        if p['t'] != 'login' or p['sclass'] != 0 or not p['transit'] or p['nsg'] != 3:
            raise LoginError(p)
        self.loginrsp = p
        self.tsih = p['tsih']
        self.statsn = p['statsn']
        self.expstatsn = u32(p['statsn'] + 1)

    def nexttag(self):
        self.itt += 1
        return self.itt

    def cmd(self, cdb, lun=0, read=0, data=None, imm=None, timeout=None, edtl=None, immediate=False, wflag=None,
            rflag=None, maxpdu=8192, itt=None):
        """Run one command to completion.  `read` = expected read length; `data` = write data, of which `imm`
        bytes go as immediate data (default: all up to 8192)."""
        itt = itt or self.nexttag()
        c = self.c
        if data is not None:
            n = min(len(data), 8192) if imm is None else imm
            c.send(scsi_cmd(cdb, itt, self.cmdsn, self.expstatsn, lun, len(data) if edtl is None else edtl,
                            read=bool(rflag), write=True if wflag is None else wflag, data=data[:n], imm=immediate))
        else:
            c.send(scsi_cmd(cdb, itt, self.cmdsn, self.expstatsn, lun, read if edtl is None else edtl,
                            read=(read > 0) if rflag is None else rflag, write=bool(wflag), imm=immediate))
        if not immediate:
            self.cmdsn = u32(self.cmdsn + 1)
        got = {}
        buf = bytearray()
        while True:
            p = c.recv(timeout)
            if p['t'] == 'r2t' and p['itt'] == itt:
                off, left, sn = p['offset'], p['dlen'], 0
                while left > 0:
                    k = min(left, maxpdu)
                    c.send(data_out(itt, p['ttt'], sn, off, data[off:off + k], left == k, lun, self.expstatsn))
                    off += k
                    left -= k
                    sn += 1
                continue
            if p['t'] == 'datain':
                d = p['data']
                if len(buf) < p['offset'] + len(d):
                    buf.extend(b'\0' * (p['offset'] + len(d) - len(buf)))
                buf[p['offset']:p['offset'] + len(d)] = d
                if not p['S']:
                    continue
            if p['t'] in ('datain', 'resp'):
                self.expstatsn = u32(p['statsn'] + 1)
                r = dict(p)
                r['in'] = bytes(buf)
                r['ok'] = p['status'] == 0
                return r
            if p['t'] in ('nopin', 'reject', 'async'):
                continue
            raise AssertionError('unexpected %r' % (p,))

    def pipeline(self, cmds, timeout=None):
        """[(cdb, lun, read length, data)] sent at once; their responses, in that order.  Small transfers only."""
        b, tags, got, bufs = b'', [], {}, {}
        for cdb, lun, read, data in cmds:
            itt = self.nexttag()
            tags.append(itt)
            b += scsi_cmd(cdb, itt, self.cmdsn, self.expstatsn, lun, len(data or b'') or read, read=read > 0, write=bool(data), data=data or b'')
            self.cmdsn = u32(self.cmdsn + 1)
        if not self.c.send(b):
            raise Closed()
        while len(got) < len(tags):
            p = self.c.recv(timeout)
            t = p['itt']
            if p['t'] == 'datain' and t in tags:
                bufs[t] = bufs.get(t, b'') + p['data']
                if not p['S']:
                    continue
            elif p['t'] != 'resp' or t not in tags or t in got:
                raise AssertionError('unexpected %r' % (p,))
            self.expstatsn = u32(p['statsn'] + 1)
            got[t] = dict(p, **{'in': bufs.get(t, b'')})
        return [got[t] for t in tags]

    def ping(self, timeout=None, data=b'ping'):
        itt = self.nexttag()
        if not self.c.send(nop_out(itt, self.cmdsn, self.expstatsn, data)):
            raise Closed()
        while True:
            p = self.c.recv(timeout)
            if p['t'] == 'nopin' and p['itt'] == itt:
                return p

    def logout(self):
        self.c.send(logout(self.nexttag(), self.cmdsn, self.expstatsn))
        return self.c.recv()

    def close(self):
        self.c.close()
