"""Scripts for session_exec: random initiators that use, and misuse, one or more connections."""
import cdb as C, target as T, tlc
from gens import tokens, T0, T1

WRAP = [1, 0, 5, 0xffffffff, 0xfffffffe, 0xfffffff0, 0xffffff80, 0xffffff70, 0x7fffffff, 0x7ffffff0, 0x80000000, 0x12345678]


def rkeys(rng, imm=None, mrd=None, burst=None):
    k = []
    i = imm if imm is not None else rng.choice(['Yes', 'No', None])
    m = mrd if mrd is not None else rng.choice([512, 1024, 1536, 4096, 8192, None, 65536, 2052])
    b = burst if burst is not None else rng.choice([512, 1024, 1536, 4096, 16384, None, 262144, 3000])
    if i:
        k.append(['ImmediateData', i])
    if m:
        k.append(['MaxRecvDataSegmentLength', str(m)])
    if b:
        k.append(['MaxBurstLength', str(b)])
    if rng.random() < 0.2:
        k.append(['FirstBurstLength', str(rng.choice([512, 1024, 4096, 65536]))])
    if rng.random() < 0.2:
        k.append(['MaxOutstandingR2T', str(rng.choice([1, 4]))])
    rng.shuffle(k)
    return k


class Con:
    """What the generator knows of one connection."""

    def __init__(self, name, keys, unit, base, disc=False):
        self.c, self.keys, self.base, self.disc = name, dict(map(tuple, keys)), base, disc
        self.units = [unit] if isinstance(unit, tuple) else unit      # [(lun, store, blocks, bs)]
        self.exp, self.held, self.pend, self.tag = 0, {}, {}, 0x100
        self.aborted = set()
        self.open = True
        self.imm = self.keys.get('ImmediateData', 'Yes') == 'Yes'
        self.mrd = int(self.keys.get('MaxRecvDataSegmentLength', 8192))

    rng, used = None, ()

    def wild(self, rng):
        """Tags from all of the 32 bits, many of them close to each other."""
        self.rng, self.used = rng, [0x99]
        return self

    def near(self, t):
        r = self.rng
        k = r.random()
        if k < 0.4:
            return t ^ (1 << r.randrange(32))
        if k < 0.6:
            return t ^ (r.randrange(1, 1 << 16) << 16)
        if k < 0.8:
            return t ^ r.randrange(1, 1 << 16)
        return (t >> 16 | t << 16) & 0xffffffff

    def fresh(self):
        while True:
            t = self.near(self.rng.choice(self.used[-6:])) if self.rng.random() < 0.7 else self.rng.randrange(1 << 32)
            if t not in self.used and t != 0xffffffff and t >> 16 != 0x7f00:
                return t

    def itt(self):
        if self.rng:
            self.tag = self.fresh()
            self.used.append(self.tag)
        else:
            self.tag += 1
        return self.tag

    def other(self):
        """A tag that names no task."""
        if self.rng is None:
            return self.tag + 50001
        return self.fresh()

    # what the target does with p, as far as the script has to know
    def take(self, p):
        if not self.open or p['t'] == 'dataout':
            return
        if p['t'] in ('cmd', 'nop', 'tmf', 'text', 'logout') and not p.get('imm'):
            d = p['sn'] - self.exp
            if d < 0 or d > 128:
                return
            if d > 0:
                self.held.setdefault(p['sn'], p)
                return
            self.exp += 1
        self.run(p)
        while self.open and self.exp in self.held:
            q = self.held.pop(self.exp)
            self.exp += 1
            if q['itt'] not in self.aborted:
                self.run(q)

    def run(self, p):
        if p['t'] == 'cmd' and p.get('dir') == 'w' and not self.disc:
            n = p['edtl'] - (p.get('immlen', 0) if self.imm else 0)
            if n > 0:
                self.pend[p['itt']] = p
        elif p['t'] == 'tmf' and not self.disc:
            f = p['func']
            hit = [i for i, q in self.pend.items() if f == 1 and i == p['ref'] or f in (2, 4, 5) and q.get('lun', 0) == p['lun']]
            for i in hit:
                self.pend.pop(i)
            for q in self.held.values():
                if q['t'] == 'cmd' and (f == 1 and q['itt'] == p['ref'] or f in (2, 4, 5) and q.get('lun', 0) == p['lun']):
                    self.aborted.add(q['itt'])
        elif p['t'] == 'logout':
            self.open = False


class Script:
    def __init__(self, rng, luns=None):
        self.rng = rng
        r = rng
        # unit numbers that share some of their bytes now and then
        l1, l2 = r.choice([('1', '2')] * 3 + [('1', '257'), ('256', '1'), ('257', '513'), ('511', '255'), ('256', '512')])
        self.luns = luns or {T0: {'0': {'store': 'a', 'blocks': r.choice([8, 24, 64])},
                                  l1: {'store': 'b', 'blocks': r.choice([6, 20]), 'shift': r.choice([9, 9, 12])},
                                  l2: {'store': 'c', 'blocks': 16}}}
        for m in self.luns.values():
            for v in m.values():
                v.setdefault('init', tokens(r, v['blocks']))
        self.cons = {}
        self.steps = []

    def units(self, tgt=T0):
        return [(int(l), v['store'], v['blocks'], 1 << v.get('shift', 9)) for l, v in self.luns[tgt].items()]

    def login(self, name, units, keys=None, cmdsn=None, disc=False, expstatsn=None):
        r = self.rng
        keys = rkeys(r) if keys is None else keys
        base = r.choice(WRAP) if cmdsn is None else cmdsn
        c = Con(name, keys, units, base, disc)
        if self.rng.random() < 0.6:
            c.wild(self.rng)
        self.cons[name] = c
        o = {'keys': keys, 'cmdsn': base}
        if expstatsn is not None:
            o['expstatsn'] = expstatsn
        if disc:
            o['disc'] = True
        self.steps.append(['login', name, o])
        return c

    def send(self, c, *ps):
        for p in ps:
            c.take(p)
        self.steps.append(['send', c.c, list(ps)])

    def sync(self, c):
        self.steps.append(['sync', c.c])

    def dumps(self):
        for m in self.luns.values():
            for v in m.values():
                self.steps.append(['dump', v['store']])

    def done(self):
        return {'cfg': {'luns': self.luns}, 'steps': self.steps}

    # ---- PDUs
    def write(self, c, sn, n=None, imm=None, edtl=None, imf=False, lun=None):
        r = self.rng
        lun, store, nb, bs = r.choice(c.units) if lun is None else [u for u in c.units if u[0] == lun][0]
        n = n or r.randrange(1, min(nb, 9) + 1)
        lo = r.randrange(nb - n + 1)
        toks = tokens(r, n)
        total = n * bs
        if imm is None:
            imm = 0 if not c.imm else r.choice([0, 0, total, 512, 4 * r.randrange(0, 128), r.randrange(1, 512)])
        imm = min(imm, total, 8192) if c.imm else 0
        return {'t': 'cmd', 'itt': c.itt(), 'sn': sn, 'imm': imf, 'lun': lun, 'cdb': C.rw('write', r.choice((6, 10, 12, 16)), lo, n).hex(), 'dir': 'w',
                'out': toks, 'edtl': total, 'immlen': imm, **self.ahs()}

    def ahs(self):
        """Some commands carry additional header segments: the length of a bidirectional read, which there is not."""
        return {'ahs': '0005020000000000' * self.rng.choice([1, 1, 2])} if self.rng.random() < 0.1 else {}

    def read(self, c, sn, n=None, edtl=None, imf=False, lun=None, mx=9):
        r = self.rng
        lun, store, nb, bs = r.choice(c.units) if lun is None else [u for u in c.units if u[0] == lun][0]
        n = n or r.randrange(1, min(nb, mx) + 1)
        lo = r.randrange(nb - n + 1)
        return {'t': 'cmd', 'itt': c.itt(), 'sn': sn, 'imm': imf, 'lun': lun, 'cdb': C.rw('read', r.choice((6, 10, 12, 16)), lo, n).hex(), 'dir': 'r',
                'edtl': n * bs if edtl is None else edtl, **self.ahs()}

    def tur(self, c, sn, imf=False):
        return {'t': 'cmd', 'itt': c.itt(), 'sn': sn, 'imm': imf, 'lun': self.rng.choice([u[0] for u in c.units] + [9]), 'cdb': bytes(6).hex(), 'dir': 'n', 'edtl': 0}

    def nop(self, c, sn, imf=False, reply=True, n=None):
        n = self.rng.choice([0, 1, 4, 7, 64, 512]) if n is None else n
        d = bytes(self.rng.randrange(256) for _ in range(min(n, c.mrd)))
        return {'t': 'nop', 'itt': c.itt() if reply else 0xffffffff, 'sn': sn, 'imm': imf, 'data': d.hex()}

    def tmf(self, c, func, ref=None, lun=None, sn=0, imf=True):
        return {'t': 'tmf', 'itt': c.itt(), 'sn': sn, 'imm': imf, 'func': func, 'ref': 0xffffffff if ref is None else ref,
                'lun': c.units[0][0] if lun is None else lun}

    def text(self, c, sn, imf=False):
        return {'t': 'text', 'itt': c.itt(), 'sn': sn, 'imm': imf, 'kv': [['SendTargets', self.rng.choice(['All', T0, 'iqn.none'])]]}

    def logout(self, c, sn, imf=True, reason=0):
        return {'t': 'logout', 'itt': c.itt(), 'sn': sn, 'imm': imf, 'reason': reason}

    def any(self, c, sn, imf=False):
        r = self.rng.random()
        if r < 0.3:
            return self.write(c, sn, imf=imf)
        if r < 0.65:
            return self.read(c, sn, imf=imf)
        if r < 0.75:
            return self.tur(c, sn, imf)
        if r < 0.92:
            return self.nop(c, sn, imf, self.rng.random() < 0.7)
        if r < 0.96:
            return self.tmf(c, self.rng.choice([1, 1, 3, 6, 7, 8, 9, 63]), c.other(), sn=sn, imf=imf)
        return self.text(c, sn, imf)

    # ---- data of pending writes
    def feed(self, c, all=False):
        """Some of the data some pending writes wait for."""
        r = self.rng
        for itt in sorted(c.pend, key=lambda x: r.random()):
            if all or r.random() < 0.5:
                self.steps.append(['finish', c.c, itt, r.choice([512, 8192, 4 * r.randrange(32, 2048), r.randrange(100, 3000)])])
                c.pend.pop(itt)
            elif r.random() < 0.6:
                q = r.choice([4, 4, 1])     # data need not come in whole words
                self.steps.append(['part', c.c, itt, 4 * r.randrange(1, 512), [q * r.randrange(1, 800 // q) for _ in range(r.randrange(4))]])

    def fill(self, c):
        """Send what is missing before the held commands."""
        while c.open and c.held:
            p = self.any(c, c.exp)
            self.send(c, p)

    def settle(self, c):
        self.fill(c)
        self.feed(c, True)
        if c.open:
            self.sync(c)


# ---- C05: window, order, duplicates -------------------------------------------------------------------
def window(rng, n):
    s = Script(rng)
    names = ['c1'] if rng.random() < 0.7 else ['c1', 'c2']
    us = s.units()
    for i, x in enumerate(names):
        s.login(x, us if len(names) == 1 else [us[i]])
    for _ in range(n):
        c = s.cons[rng.choice(names)]
        r = rng.random()
        if r < 0.25:
            s.send(c, *[s.any(c, c.exp + k) for k in range(1)])
        elif r < 0.35:      # a pipelined run
            k = rng.randrange(2, 6)
            base = c.exp
            ps = [s.any(c, base + i) for i in range(k)]
            s.send(c, *ps)
        elif r < 0.5:       # a shuffled run
            k = rng.randrange(2, 6)
            ps = [s.any(c, c.exp + i) for i in range(k)]
            rng.shuffle(ps)
            s.send(c, *ps)
        elif r < 0.58:      # early
            s.send(c, s.any(c, c.exp + rng.choice([1, 1, 2, 3, 5, 20])))
        elif r < 0.68:      # old: a new command with a used number, or a retransmission
            p = s.any(c, c.exp - rng.choice([1, 1, 2, 3, 30, 1000, 0x70000000]))
            s.send(c, p)
        elif r < 0.74:      # twice the same early number
            k = c.exp + rng.choice([1, 2])
            s.send(c, s.any(c, k), s.any(c, k))
        elif r < 0.82:      # beyond the window, which is up to date after a barrier
            s.sync(c)
            s.send(c, s.any(c, c.exp + 129 + rng.choice([0, 0, 1, 5, 871, 0x70000000, 0x7ffffe00])))
            if rng.random() < 0.5:
                s.sync(c)
        elif r < 0.88:      # the last number inside the window
            s.sync(c)
            s.send(c, s.any(c, c.exp + rng.choice([128, 128, 127])))
            if rng.random() < 0.5:
                fillwindow(s, c)
        elif r < 0.94:
            s.send(c, s.any(c, c.exp + rng.choice([0, 0, 1, -1, 77]), imf=True))
        else:
            s.fill(c)
        if rng.random() < 0.3:
            s.feed(c)
        if rng.random() < 0.25 and c.open:
            s.sync(c)
        if len(c.held) > 6:
            if max(c.held) - c.exp > 40:
                fillwindow(s, c)
            else:
                s.fill(c)
        if rng.random() < 0.05:
            s.feed(c, True)
            s.dumps_synced()
    for x in names:
        s.settle(s.cons[x]) if max(list(s.cons[x].held) + [0]) - s.cons[x].exp < 40 else (fillwindow(s, s.cons[x]), s.settle(s.cons[x]))
    s.dumps()
    return s.done()


def fillwindow(s, c):
    """All the numbers missing before the last held one, in one go, as pings without reply and a few commands."""
    rng = s.rng
    top = max(c.held)
    miss = [k for k in range(c.exp, top) if k not in c.held]
    if rng.random() < 0.5:
        rng.shuffle(miss)
    ps = [s.nop(c, k, reply=False, n=0) if rng.random() < 0.9 else s.read(c, k) for k in miss]
    s.send(c, *ps)


def dumps_synced(s):
    for c in s.cons.values():
        if c.open:
            s.sync(c)
    s.dumps()


Script.dumps_synced = dumps_synced


# ---- C06: solicited data --------------------------------------------------------------------------------
def solicited(rng, n):
    s = Script(rng, {T0: {'0': {'store': 'a', 'blocks': 64}, '1': {'store': 'b', 'blocks': 40, 'shift': rng.choice([9, 12])}, '2': {'store': 'c', 'blocks': 16}}})
    names = ['c1', 'c2'] if rng.random() < 0.4 else ['c1']
    us = s.units()
    for i, x in enumerate(names):
        s.login(x, us if len(names) == 1 else [us[i]])
    for _ in range(n):
        c = s.cons[rng.choice(names)]
        r = rng.random()
        if r < 0.45 and len(c.pend) < 6:
            k = rng.randrange(1, 4)
            base = c.exp
            s.send(c, *[s.write(c, base + i, n=rng.choice([None, None, rng.randrange(1, 17)])) for i in range(k)])
        elif r < 0.8 and c.pend:
            s.feed(c)
        elif r < 0.84:      # data for no outstanding write
            tag = rng.choice([0x99, c.tag, c.other(), c.other()])
            if tag in c.pend:
                tag = 0x99
            s.send(c, {'t': 'dataout', 'itt': tag, 'off': rng.choice([0, 512]), 'len': rng.choice([4, 512, 1024]), 'final': True,
                       'ttt': rng.choice([0, 1, 0xffffffff])})
        elif r < 0.9:
            s.send(c, s.read(c, c.exp))
        elif r < 0.94:
            s.send(c, s.any(c, c.exp))
        elif c.open:
            s.sync(c)
        if rng.random() < 0.04:
            s.feed(c, True)
            s.dumps_synced()
    # sometimes the end is data outside what was requested: it must not be stored
    for x in names:
        c = s.cons[x]
        if rng.random() < 0.5:
            s.feed(c, True)
            p = s.write(c, c.exp, n=rng.randrange(3, 10), imm=0, lun=c.units[0][0])
            s.send(c, p)
            itt, tot = p['itt'], p['edtl']
            first = rng.choice([0, 0, 512])
            if first:
                s.steps.append(['part', c.c, itt, first])
            else:
                s.steps.append(['part', c.c, itt, 0])
            if rng.random() < 0.5:      # another write is asked for its data in between
                s.send(c, s.write(c, c.exp, imm=0, lun=c.units[0][0]))
            how = rng.choice(['gap', 'back', 'over', 'over', 'over', 'far'])
            burst = int(c.keys.get('MaxBurstLength', 262144))
            left = min(tot, burst)
            if first >= left:
                how = 'far'
            off, ln = {'gap': (first + 4, 512), 'back': (first - 4 if first else 8, 512), 'over': (first, left - first + 4), 'far': (tot + 512, 512)}[how]
            s.send(c, {'t': 'dataout', 'itt': itt, 'off': off, 'len': min(ln, 8192) if how != 'over' else ln, 'final': True, 'ttt': 0})
            if how == 'over' and ln > 8192:
                pass
            s.steps.append(['over', c.c])
            c.open = False
        else:
            s.settle(c)
    s.steps.append(['nexus', T0])
    s.dumps()
    return s.done()


# ---- C07: Data-In -----------------------------------------------------------------------------------------
def datain(rng, n):
    s = Script(rng, {T0: {'0': {'store': 'a', 'blocks': rng.choice([40, 130, 300])}, '1': {'store': 'b', 'blocks': 20, 'shift': 12}}})
    c = s.login('c1', s.units(), keys=rkeys(rng, mrd=rng.choice([513, 514, 515, 1021, 8191, 4098]) if rng.random() < 0.2 else None))
    for i in range(n):
        lun, store, nb, bs = rng.choice(c.units)
        k = rng.choice([1, 2, rng.randrange(1, 17), rng.randrange(1, 17), min(nb, rng.randrange(1, 200)), nb])
        k = min(k, nb, 256)
        tot = k * bs
        e = tot if rng.random() < 0.45 else max(0, rng.choice([tot - 1, tot + 1, tot - 4, tot + 4, tot - bs, tot + bs, 0, 1, 511, 512, 513, tot // 2,
                                                              tot * 2, tot + 0x100000, c.mrd, c.mrd - 1, c.mrd + 1, rng.randrange(tot + 1)]))
        r = rng.random()
        if r < 0.72:
            p = s.read(c, c.exp, n=k, edtl=e, lun=lun)
            if e == 0:
                p['dir'] = rng.choice(['r', 'n'])
        elif r < 0.86:      # parameter data, whole or cut
            p = s.tur(c, c.exp)
            a = rng.choice([5, 8, 12, 16, 32, 36, 64, 74, 96, 128, 255, 600])
            p['lun'] = lun
            p['cdb'] = rng.choice([C.inquiry(a), C.inquiry(a, True, rng.choice([0, 0x80, 0x83, 0xb0])), C.mode_sense6(0x3f, 0, min(a, 255)),
                                   C.mode_sense10(0x3f, 0, a), C.readcap10(), C.readcap16(a), C.report_luns(max(a, 16))]).hex()
            p['edtl'] = rng.choice([a, a, max(0, a - 1), a // 2, a + 1, a + 512, 4, 0, c.mrd, c.mrd * 2 + 3])
            p['dir'] = 'r'
            if rng.random() < 0.06:      # room for far more than there is
                p['edtl'] = rng.choice([1 << 24, (1 << 24) - 1, (1 << 24) + a, rng.randrange(1 << 20, 1 << 26)])
        elif r < 0.88:      # a status-only answer
            p = s.tur(c, c.exp)
            p['lun'] = lun
            p['edtl'] = rng.choice([0, 0, 512])
            p['dir'] = 'r' if p['edtl'] else 'n'
        elif r < 0.96:      # more data announced than the command takes
            p = s.write(c, c.exp, n=min(k, 8), imm=0, lun=lun)
            extra = rng.choice([0, 4, bs, 512])
            p['edtl'] += extra
            p['out'] = p['out'] + tokens(rng, 1 + extra // bs)
            if rng.random() < 0.3:      # and one that takes none
                p['cdb'] = C.rw('write', rng.choice((10, 12, 16)), 0, 0).hex()
                p['edtl'] = rng.choice([4, 100, 508, 511, 512, 516, bs])
        else:
            p = s.nop(c, c.exp)
        s.send(c, p)
        if p['itt'] in c.pend:
            s.feed(c, True)
        if i % 5 == 4:
            s.sync(c)
    s.settle(c)
    s.dumps()
    return s.done()


def large(rng, read):
    """Transfers of more than 16 MiB, of units with large blocks: numbers and offsets that need all of their bits."""
    sh = rng.choice([16, 18, 19])
    bs = 1 << sh
    nb = (20 << 20) // bs
    s = Script(rng, {T0: {'0': {'store': 'a', 'blocks': nb, 'shift': sh}}})
    c = s.login('c1', s.units(), keys=rkeys(rng, imm=rng.choice(['Yes', 'No']), mrd=rng.choice([8192, 65536, 262144, 1048576, 16777215]),
                                            burst=rng.choice([65536, 262144, 16777215])))
    for i in range(3):
        k = rng.randrange((16 << 20) // bs + 1, nb + 1)
        if not read:
            p = s.write(c, c.exp, n=k, imm=rng.choice([0, 512]))
            s.send(c, p)
            if rng.random() < 0.5:
                s.send(c, s.write(c, c.exp, n=1, imm=0))
            s.steps += [['part', c.c, p['itt'], 8192, [8192, 4]], ['finish', c.c, p['itt'], rng.choice([8192, 8191, 8000])]]
            c.pend.pop(p['itt'], None)
            s.feed(c, True)
        p = s.read(c, c.exp, n=k)
        p['edtl'] += rng.choice([0, 0, 1, -1, 1 << 24])
        s.send(c, p)
        if read:
            p = s.read(c, c.exp, n=k, edtl=rng.choice([512, 8192, 100]))      # a residual as large
            s.send(c, p)
        s.sync(c)
    s.settle(c)
    s.dumps()
    return s.done()


# ---- C15: task management ----------------------------------------------------------------------------------
def tasks(rng, n):
    s = Script(rng)
    names = ['c1', 'c2'] if rng.random() < 0.5 else ['c1']
    us = s.units()
    for i, x in enumerate(names):
        s.login(x, us if len(names) == 1 else [us[0]] if i == 0 else us[1:], keys=rkeys(rng, imm=rng.choice(['Yes', 'No'])))
    seen = {x: [] for x in names}
    for _ in range(n):
        c = s.cons[rng.choice(names)]
        r = rng.random()
        if r < 0.35 and len(c.pend) < 6:
            p = s.write(c, c.exp, imm=rng.choice([0, 512]))
            seen[c.c].append(p['itt'])
            s.send(c, p)
            if rng.random() < 0.3 and p['itt'] in c.pend:
                s.steps.append(['part', c.c, p['itt'], 512])
        elif r < 0.5 and len(c.held) < 6:
            p = rng.choice([s.write, s.read, s.read])(c, c.exp + rng.choice([1, 1, 2, 3]))
            seen[c.c].append(p['itt'])
            s.send(c, p)
        elif r < 0.8:
            if rng.random() < 0.6:
                cand = list(c.pend) + [q['itt'] for q in c.held.values()] + [0x99] + seen[c.c][-6:]
                other = [i for x in names if x != c.c for i in s.cons[x].pend]
                ref = rng.choice(cand + other + [c.other()])
                f = 1
                lun = rng.choice([u[0] for u in us])
            else:
                ref = None
                f = rng.choice([2, 4, 5, 5, 3, 6, 7, 8, 2, 4, 0, 9, 63])
                lun = rng.choice([u[0] for u in us] + [7])
            imf = rng.random() < 0.7
            p = s.tmf(c, f, ref, lun, sn=c.exp if imf else c.exp, imf=imf)
            if rng.random() < 0.2 and not imf:
                p['sn'] = c.exp + 1
            s.send(c, p)
        elif r < 0.9:
            s.feed(c)
        elif r < 0.95:
            s.sync(c)
        else:
            s.fill(c)
        if rng.random() < 0.05:
            dumps_synced(s)
    for x in names:
        s.settle(s.cons[x])
    s.dumps()
    return s.done()


# ---- C09: a connection or session takes the place of another that has work waiting --------------------------
def takeovers(rng, n):
    s = Script(rng)
    us = s.units()
    s.login('x', us[:2])
    c = s.login('c0', us[:2], keys=rkeys(rng, imm=rng.choice(['Yes', 'No'])))
    for k in range(n):
        if rng.random() < 0.3:
            s.send(c, {'t': 'cmd', 'itt': c.itt(), 'sn': c.exp, 'lun': us[0][0], 'cdb': C.reserve6().hex(), 'dir': 'n', 'edtl': 0})
        for _ in range(rng.randrange(1, 4)):
            p = s.write(c, c.exp, imm=0)
            s.send(c, p)
            if p['itt'] in c.pend and rng.random() < 0.4 and p['edtl'] > 512:
                s.steps.append(['part', c.c, p['itt'], 512])
                p['fed'] = 512
        held = []
        for _ in range(rng.randrange(0, 4)):
            p = rng.choice([s.write, s.write, s.read])(c, c.exp + rng.choice([1, 1, 2, 3]))
            held.append(p)
            s.send(c, p)
        s.sync(c)
        left = [p for p in c.pend.values()]
        how = rng.choice(['session', 'conn'])
        o = {'keys': rkeys(rng, imm=rng.choice(['Yes', 'No'])), 'takes': c.c, 'how': how}
        if how == 'conn':
            o['sn'] = c.exp
        else:
            o['cmdsn'] = rng.choice(WRAP + [(c.base + c.exp) & 0xffffffff] * 4)
        d = Con('c%d' % (k + 1), o['keys'], us[:2], 0)
        if rng.random() < 0.5:
            d.wild(rng)
            d.used += [p['itt'] for p in left]
        else:
            d.tag = rng.choice([0x100, 0x4000 * (k + 1)])
        s.cons[d.c] = d
        c.open = False
        c = d
        s.steps.append(['login', c.c, o])
        # what concerns the tasks that are gone
        rng.shuffle(left)
        for p in left:
            r = rng.random()
            if r < 0.4:
                off = rng.choice([p.get('fed', 0), 0])
                m = min(p['edtl'] - off, 8192)
                s.send(c, {'t': 'dataout', 'itt': p['itt'], 'off': off, 'len': m, 'final': True, 'ttt': rng.choice([p['itt'], 0, 1, 0xffffffff])})
            elif r < 0.6:
                s.send(c, s.tmf(c, 1, p['itt'], p['lun'], sn=c.exp))
            elif r < 0.75 and c.rng is None and p['itt'] < c.tag:
                q = s.write(c, c.exp, imm=0)
                q['itt'] = p['itt']
                s.send(c, q)
                s.steps.append(['finish', c.c, q['itt']])
                c.pend.pop(q['itt'], None)
        for _ in range(rng.randrange(1, 5)):
            s.send(c, s.any(c, c.exp))
            if rng.random() < 0.5:
                s.feed(c)
        s.feed(c, True)
        s.sync(c)
        x = s.cons['x']
        s.send(x, rng.choice([s.write, s.read])(x, x.exp, lun=us[0][0]))
        s.feed(x, True)
        s.sync(x)
        if rng.random() < 0.5:
            s.dumps()
    s.settle(c)
    s.settle(s.cons['x'])
    s.dumps()
    return s.done()


# ---- C24: pings -------------------------------------------------------------------------------------------
def pings(rng, n):
    s = Script(rng)
    c = s.login('c1', s.units())
    for _ in range(n):
        r = rng.random()
        ln = rng.choice([0, 0, 1, 2, 3, 4, 5, 63, 64, 255, 256, 511, 512, 1000, 4096, 8192, rng.randrange(8192)])
        if r < 0.35:
            s.send(c, s.nop(c, c.exp + rng.choice([0, 0, 0, 1, -1, 50]), imf=True, reply=rng.random() < 0.7, n=ln))
        elif r < 0.65:
            s.send(c, s.nop(c, c.exp, reply=rng.random() < 0.7, n=ln))
        elif r < 0.75:
            base = c.exp
            s.send(c, *[s.nop(c, base + i, imf=False, reply=rng.random() < 0.6, n=rng.choice([0, 4, 9])) if rng.random() < 0.7 else s.read(c, base + i)
                        for i in range(5)])
        elif r < 0.82:
            s.send(c, s.nop(c, c.exp + rng.choice([1, 2]), n=ln))
            s.fill(c)
        else:
            s.send(c, s.any(c, c.exp))
        if rng.random() < 0.3:
            s.feed(c)
        if rng.random() < 0.2:
            s.sync(c)
    s.settle(c)
    s.dumps()
    return s.done()


# ---- C21: logout --------------------------------------------------------------------------------------------
def logouts(rng, n):
    s = Script(rng)
    us = s.units()
    s.login('x', [us[2]])
    for i in range(n):
        disc = rng.random() < 0.12
        name = 'c%d' % i
        c = s.login(name, us[:2], disc=disc)
        if disc:
            if rng.random() < 0.5:
                s.send(c, s.text(c, c.exp))
        else:
            if rng.random() < 0.3:
                s.send(c, {'t': 'cmd', 'itt': c.itt(), 'sn': c.exp, 'lun': us[0][0], 'cdb': C.reserve6().hex(), 'dir': 'n', 'edtl': 0})
            for _ in range(rng.randrange(0, 5)):
                s.send(c, s.any(c, c.exp))
                if rng.random() < 0.3:
                    s.feed(c)
            if rng.random() < 0.3:
                s.send(c, s.write(c, c.exp + rng.choice([1, 2])))
        tail = []
        imf = rng.random() < 0.6
        lo = s.logout(c, c.exp, imf, rng.choice([0, 0, 0, 1]))
        if not imf and not c.held and rng.random() < 0.3:
            # the request itself waits for its turn
            lo['sn'] = c.exp + 1
            s.send(c, lo)
            s.sync(c)
            tail = [s.write(c, c.exp) if not disc else s.nop(c, c.exp)]
            s.send(c, *tail)
        else:
            base = c.exp + (0 if imf else 1)
            for k in range(rng.choice([0, 0, 1, 3])):
                tail.append(s.write(c, base + k, imm=512) if not disc and rng.random() < 0.7 else s.nop(c, base + k, imf=rng.random() < 0.3))
            s.send(c, lo, *tail)
        s.steps.append(['over', name])
        s.steps.append(['nexus', T0])
        c.open = False
        if rng.random() < 0.4:
            s.dumps()
        x = s.cons['x']
        s.send(x, s.read(x, x.exp))
        if i % 3 == 2:
            s.sync(x)
    c = s.login('last', us[:2])
    s.send(c, *[s.read(c, c.exp + k, imf=False) for k in range(3)])
    s.send(c, {'t': 'cmd', 'itt': c.itt(), 'sn': c.exp, 'lun': us[0][0], 'cdb': C.reserve6().hex(), 'dir': 'n', 'edtl': 0})
    s.settle(c)
    s.settle(s.cons['x'])
    s.dumps()
    return s.done()


# ---- C20: everything together ------------------------------------------------------------------------------
def pipelines(rng, n):
    s = Script(rng)
    names = ['c1', 'c2', 'c3'][:rng.choice([1, 2, 3])]
    us = s.units()
    for i, x in enumerate(names):
        s.login(x, us if len(names) == 1 else [us[i]], expstatsn=rng.choice([0, 1, 0xffffffff, 0xfffffff0, 0x7fffffff]))
    if rng.random() < 0.3:
        d = s.login('d', us, disc=True)
        for k in range(4):
            s.send(d, rng.choice([s.text(d, d.exp), s.nop(d, d.exp), s.read(d, d.exp), s.tmf(d, 1, 5, sn=d.exp, imf=False)]))
        s.sync(d)
    for _ in range(n):
        c = s.cons[rng.choice(names)]
        r = rng.random()
        if r < 0.6:
            k = rng.randrange(1, 9)
            base = c.exp
            ps = [s.any(c, base + i) for i in range(k)]
            if rng.random() < 0.2:
                ps.insert(rng.randrange(len(ps)), s.any(c, base, imf=True))
            if rng.random() < 0.15:
                rng.shuffle(ps)
            s.send(c, *ps)
        elif r < 0.68:
            s.send(c, {'t': 'other', 'op': rng.choice([0x10, 0x07, 0x1c, 0x1f]), 'itt': c.itt(), 'sn': c.exp})
        elif r < 0.76:
            s.send(c, s.tmf(c, rng.choice([1, 1, 2, 5]), rng.choice(list(c.pend) or [0x99]), sn=c.exp))
        elif r < 0.9:
            s.feed(c)
        else:
            s.sync(c)
        if len(c.pend) > 8:
            s.feed(c, True)
        if rng.random() < 0.05:
            dumps_synced(s)
    for x in names:
        s.settle(s.cons[x])
    s.dumps()
    return s.done()


# ---- behaviours of SessionMC -----------------------------------------------------------------------------
def from_tlc(rng, cfg, num, depth=150):
    res = []
    for hist in tlc.simulate('SessionGen', cfg, num, depth, rng.randrange(1 << 30))[:num]:
        keys = [['MaxBurstLength', '512'], ['MaxRecvDataSegmentLength', '512']]
        st = [['login', 'c', {'cmdsn': rng.choice(WRAP), 'keys': keys}]]
        out = False
        for k, h in enumerate(hist):
            if h['k'] == 'send':
                q = h['p']
                p = {'t': q['t'], 'itt': 0xffffffff if q['itt'] == 'ffffffff' else int(q['itt']), 'sn': q['sn'], 'imm': q['imm']}
                if q['t'] == 'cmd':
                    cdb = bytes(q['cdb'])[:10]
                    p.update(lun=int(q['lun']), cdb=cdb.hex(), dir=q['dir'], edtl=q['edtl'], immlen=q['immlen'])
                    if q['dir'] == 'w':
                        p['out'] = q['dout']
                elif q['t'] == 'nop':
                    p['data'] = '' if q['itt'] == 'ffffffff' else '%02x' % int(q['itt'])
                elif q['t'] == 'tmf':
                    p.update(func=q['func'], ref=int(q['ref']) if q['ref'].isdigit() else 0xffffffff, lun=int(q['lun']))
                elif q['t'] == 'other':
                    p['op'] = 0x1c
                st.append(['send', 'c', [p]])
            elif h['k'] == 'data':
                st.append(['part', 'c', int(h['itt']), h['len']])
            else:
                out = True
                break
            if k % 7 == 6:
                st += [['sync', 'c'], ['dump', 'a']]
        if out:
            st += [['over', 'c'], ['nexus', T0]]
        else:
            st += [['sync', 'c']]
        st += [['dump', 'a'], ['dump', 'b']]
        res.append({'cfg': {'luns': {T0: {'0': {'store': 'a', 'blocks': 2}, '1': {'store': 'b', 'blocks': 1}}}}, 'steps': st})
    return res


# ---- C17: what is counted -----------------------------------------------------------------------------------
def counted(rng, n):
    s = Script(rng)
    names = ['c1', 'c2', 'c3'][:rng.choice([1, 2, 3])]
    us = s.units()
    for i, x in enumerate(names):
        s.login(x, us if len(names) == 1 else [us[i]])
    # one unit they all use, and reserve
    s.luns[T0]['11'] = {'store': 'z', 'blocks': 8, 'init': tokens(rng, 8)}
    held = 0
    for _ in range(n):
        c = s.cons[rng.choice(names)]
        r = rng.random()
        if r < 0.55:
            ps = []
            for i in range(rng.randrange(1, 6)):
                q = rng.random()
                if q < 0.25:
                    cdb, d, e = rng.choice([(C.inquiry(), 'r', 96), (C.readcap10(), 'r', 8), (C.readcap16(), 'r', 32), (C.report_luns(), 'r', 4096), (C.mode_sense6(), 'r', 255),
                                            (C.request_sense(), 'r', 252), (bytes([0xff] + [0] * 5), 'n', 0), (C.rw('read', 10, 0xfffffff0, 1), 'r', 512), (C.rw('read', 16, 1 << 40, 3), 'r', 1536),
                                            (C.rw('verify', 10, 0, 1), 'n', 0), (C.rw('sync', 10, 0, 0), 'n', 0), (C.rw('read', 10, 0, 0), 'n', 0), (C.rw('read', 12, 0, 2), 'r', 700),
                                            (C.rw('read', 10, 0, 1), 'r', 4096), (C.rw('verify', 16, 1, 1), 'n', 0), (C.mode_sense10(), 'r', 300), (C.reserve6(), 'n', 0), (C.release6(), 'n', 0)])
                    ps.append({'t': 'cmd', 'itt': c.itt(), 'sn': c.exp + i, 'lun': rng.choice([c.units[0][0], 7, 11, 11]), 'cdb': cdb.hex(), 'dir': d, 'edtl': e})
                else:
                    ps.append(s.any(c, c.exp + i))
                    if ps[-1].get('dir') == 'w' and q > 0.85:     # a length that is not of whole blocks
                        e = ps[-1]['edtl'] - rng.choice([1, 100, 511, 508])
                        ps[-1].update(edtl=e, immlen=min(ps[-1]['immlen'], e))
            if rng.random() < 0.15:
                ps.insert(rng.randrange(len(ps)), s.any(c, c.exp, imf=True))
            if rng.random() < 0.1:
                rng.shuffle(ps)
            s.send(c, *ps)
        elif r < 0.62:
            s.send(c, s.tmf(c, rng.choice([1, 1, 2, 5]), rng.choice(list(c.pend) or [0x99]), sn=c.exp))
        elif r < 0.8:
            s.feed(c)
        elif r < 0.86:
            for x in names:
                s.settle(s.cons[x])
            s.steps.append(rng.choice([['stats'], ['hold']]))
            if s.steps[-1][0] == 'hold':
                held += 1
        elif r < 0.9:
            s.steps.append(['spoil'])
        elif r < 0.95 and held:
            s.steps.append(['held', rng.randrange(1, held + 1)])
        else:
            s.sync(c)
        if len(c.pend) > 8:
            s.feed(c, True)
    for x in names:
        s.settle(s.cons[x])
    s.steps.append(['stats'])
    for k in range(held):
        s.steps.append(['held', k + 1])
    if rng.random() < 0.5:
        s.steps.append(['drop', names[0]])
        s.steps.append(['stats'])
    return s.done()


def blasts(rng, n):
    s = Script(rng, {T0: {'0': {'store': 'a', 'blocks': 32}}})
    ks = ['read', 'read6', 'read12', 'read16', 'write', 'write6', 'write12', 'write16', 'tur']
    for k in range(3):
        s.steps += [['hold'], ['blast', [[rng.choice(ks), n, rng.choice([1, 2, 8])] for _ in range(rng.choice([3, 6, 8]))]], ['stats'], ['held', k + 1]]
    return s.done()
