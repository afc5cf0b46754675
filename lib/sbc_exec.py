"""Executes SCSI-level scenarios on the real target and records what was sent and what came back.

A scenario is {'cfg': {'luns': {tgt: {lun: {...}}}, ...}, 'steps': [[op, ...], ...]}; the events are the trace
validated by SbcTrace."""
import base64, json, os, re, time, threading
import iscsi as I, target as T, cdb as C

TIMEOUT = 6.0


def limbs(n):
    n &= (1 << 64) - 1
    return [n >> 48 & 0xffff, n >> 32 & 0xffff, n >> 16 & 0xffff, n & 0xffff]


def dectok(buf, bs):
    """Tokens of the blocks in buf; a partial last block counts when it is the beginning of one."""
    out = T.decode(buf, bs)
    t = buf[len(out) * bs:]
    if len(t) >= 4:
        v = int.from_bytes(t[:4], 'big')
        out.append(v if v <= 0xffffff and T.block(v, bs)[:len(t)] == t else -1)
    return out


class Enough(Exception):
    pass


def lun_text(b):
    if b[0] == 0 and not any(b[2:]):
        return str(b[1])
    if b[0] >> 6 == 1 and not any(b[2:]):
        n = (b[0] & 0x3f) << 8 | b[1]
        return str(n) if n > 255 else 'x' + b.hex()
    return 'x' + b.hex()


class SbcRun:
    def __init__(self, sc, timeout=TIMEOUT):
        self.sc = sc
        self.timeout = timeout
        self.ev = []
        self.sess = {}
        self.tgtof = {}
        cfg = sc['cfg']
        self.luns = {t: {int(l): dict(v) for l, v in m.items()} for t, m in cfg['luns'].items()}
        self.bs = {}
        self.devs = {}
        self.sparse = set()
        self.real = {}
        self.rdur = {}
        self.rvol = {}
        self.slog = None
        self.size = {}
        self.osync = set()
        self.images = {}
        self.base_kw = cfg.get('kw', {})
        self.faulty = False
        self.lost = 0
        self.maps = {}
        devs = {}
        for t, m in self.luns.items():
            self.maps[t] = {str(l): v['store'] for l, v in m.items()}
            for l, v in m.items():
                s = v['store']
                bs = 1 << v.get('shift', 9)
                self.bs[s] = bs
                n = v['blocks']
                if v.get('file'):
                    v.pop('file')
                    self.real[s] = os.path.join(T.workdir(), 'real-%d-%s-%d' % (os.getpid(), s, id(self)))
                    v['path'] = 'file:' + self.real[s]
                small = bool((n <= 4096 or v.get('many')) and not v.get('huge') and not v.get('sparse'))
                if v.get('sparse'):
                    self.sparse.add(s)
                init = v.get('init')
                toks = init if init is not None else [0] * n if small else []
                if small and init is not None:
                    p = os.path.join(T.workdir(), 'img-%d-%s-%d' % (os.getpid(), s, id(self)))
                    open(p, 'wb').write(T.payload(init, bs))
                    self.images[s] = p
                if s in self.real and not os.path.exists(self.real[s]):
                    if s in self.images:
                        os.replace(self.images.pop(s), self.real[s])
                    else:
                        with open(self.real[s], 'wb') as f:
                            f.truncate(n * bs)
                    self.rdur[s] = open(self.real[s], 'rb').read()
                devs[s] = {'n': limbs(n), 'bs': bs, 'small': small, 'ro': False, 'swp': False, 'online': v.get('online', True),
                           'removable': False, 'thin': v.get('thin', False), 'toks': toks if small else []}
                self.devs[s] = devs[s]
        self.ev.append({'e': 'reset', 'devs': devs, 'maps': {t: dict(m) for t, m in self.maps.items()}})
        self.start()

    def conf(self):
        tg = {}
        for t, m in self.luns.items():
            tg[t] = {}
            for l, v in m.items():
                v = dict(v)
                v.pop('init', None)
                v.pop('huge', None)
                v.pop('many', None)
                if v['store'] in self.images:
                    v['image'] = self.images[v['store']]
                tg[t][l] = v
        first = T.TGT if T.TGT in tg else next(iter(tg))
        rem = []
        for t, m in tg.items():
            for l in [l for l, v in m.items() if v.get('remote')]:
                v = m.pop(l)
                rem.append((t, l, v))
        c = T.simple_cfg(tg.pop(T.TGT, {}), targets=tg, **self.base_kw)
        for k, (t, l, v) in enumerate(rem):
            c['stores'][v['store']] = {'size': v['blocks'] << v.get('shift', 9), 'image': v.get('image', '')}
            c.setdefault('rembs', []).append({'target': t, 'lun': int(l), 'store': v['store'], 'deviceID': 5000 + k, 'blockShift': v.get('shift', 9),
                                              'thin': v.get('thin', False)})
        if T.TGT not in self.luns:
            c['config']['iscsitargets'].pop(T.TGT, None)
        self.devids = {}
        rev = {v: k for k, v in self.real.items()}
        for s in c['config']['storages']:
            p = s['path'].split(':', 1)[1]
            self.devids[rev.get(p, p)] = s['deviceID']
        return c

    def start(self):
        wrap = []
        if 'strace' in self.sc['cfg'] and self.real and T.have_strace():
            # what the file store asks of the operating system, and errors the operating system gives
            x = self.sc['cfg']['strace']
            self.slog = os.path.join(T.workdir(), 'strace-%d-%d' % (os.getpid(), id(self)))
            self.spos = 0
            open(self.slog, 'w').close()
            wrap = ['strace', '-D', '-f', '-qq', '-y', '-s', '0', '-e', 'signal=none', '-o', self.slog,
                    '-e', 'trace=openat,read,pread64,preadv,preadv2,write,pwrite64,pwritev,pwritev2,fdatasync,fsync,sync_file_range,msync,fadvise64']
            for p in self.real.values():
                wrap += ['-P', p]
            for i in x.get('inject', []):
                wrap += ['-e', 'inject=' + i]
        self.srv = T.Server(self.conf(), wrap=wrap)
        if self.slog:
            self.syscalls()

    def syscalls(self):
        """The operations on the real files since the last call; keeps what a crash would leave in rdur."""
        if not self.slog:
            return []
        with open(self.slog) as f:
            f.seek(self.spos)
            t = f.read()
            t = t[:t.rfind('\n') + 1]
            self.spos += len(t)
        res, dirty, synced = [], {}, set()
        pend = {}
        for l in t.splitlines():
            m = re.match(r'(\d+) +(?:<\.\.\. )?(\w+)(?:\((.*)| resumed>(.*))$', l)
            if not m:
                continue
            pid, call = m.group(1), m.group(2)
            if l.endswith('<unfinished ...>'):
                pend[pid] = m.group(3)
                continue
            body = m.group(3) if m.group(3) is not None else pend.pop(pid, '') + (m.group(4) or '')
            st = [s for s, p in self.real.items() if p in body]
            if not st:
                continue
            s = st[0]
            kind = 'sync' if call in ('fdatasync', 'fsync', 'sync_file_range', 'msync') else 'write' if 'write' in call else \
                'advise' if call == 'fadvise64' else 'open' if call == 'openat' else 'read'
            fault = '(INJECTED)' in body
            res.append({'store': s, 'op': kind, 'fault': 'error' if fault else ''})
            if kind == 'open' and re.search(r'O_D?SYNC', body):
                self.osync.add(s)
            if kind == 'sync' and not fault:
                synced.add(s)
                dirty[s] = False
            if kind == 'write':
                dirty[s] = True
                if s in self.osync:
                    synced.add(s)
        for s, p in self.real.items():
            now = open(p, 'rb').read()
            if s in synced:
                # what was written after the last flush of this command is not durable
                self.rdur[s] = now if not dirty.get(s) or s in self.osync else self.rvol.get(s, self.rdur[s])
            self.rvol[s] = now
        return res

    def stop(self):
        for s in self.sess.values():
            s.close()
        self.sess.clear()
        self.srv.kill()
        self.srv.errf.close()
        for p in list(self.images.values()) + list(self.real.values()) + [self.slog or '']:
            if os.path.exists(p):
                os.unlink(p)

    def add(self, **e):
        self.ev.append(e)

    def open(self, s, tgt, opt=None):
        opt = dict(opt or {})
        opt.setdefault('isid', 0x800000000000 + (hash_name(s) & 0xffffff))
        if 'keys' in opt:
            opt['keys'] = [tuple(k) for k in opt['keys']]
        try:
            self.sess[s] = I.Sess(self.srv.port, tgt, timeout=self.timeout, **opt)
            self.tgtof[s] = tgt
        except (I.Closed, I.Timeout, I.LoginError):
            self.add(e='bad', what='nologin')

    def close(self, s, how='logout'):
        x = self.sess.pop(s, None)
        if x is None:
            return
        try:
            if how == 'logout':
                x.logout()
                x.c.wait_closed(self.timeout)
        except (I.Closed, I.Timeout):
            pass
        I.vanish(x.c, how, x.cmdsn, x.expstatsn, x.nexttag())
        # the target notices the end of the connection: wait until the nexus is gone
        self.settle(self.tgtof[s])
        self.add(e='gone', s=s)

    def settle(self, tgt):
        want = sum(1 for k in self.sess if self.tgtof[k] == tgt)
        dl = time.monotonic() + self.timeout
        while time.monotonic() < dl:
            l = [t for t in self.srv.ctl('list')['targets'] if t['name'] == tgt]
            if not l or len(l[0]['nexus']) <= want:
                return
            time.sleep(0.002)
        self.add(e='bad', what='notfreed')

    def race(self, items):
        """[[s, [[lun, cdb, read length], ...], gone], ...]: commands without data to write, at the same time; each
        session's one after the other, and the session ends with them if gone."""
        items = [i for i in items if i[0] in self.sess]
        if not items:
            return
        go = threading.Barrier(len(items))
        res = [None] * len(items)

        def work(k):
            s, ops, gone = items[k]
            x = self.sess[s]
            go.wait()
            try:
                res[k] = x.pipeline([(bytes.fromhex(c), lun, n, None) for lun, c, n in ops], self.timeout)
                if gone:
                    x.close()
            except (I.Closed, I.Timeout, AssertionError, IndexError):
                pass
        th = [threading.Thread(target=work, args=(k,)) for k in range(len(items))]
        for t in th:
            t.start()
        for t in th:
            t.join()
        if not self.srv.alive():
            raise T.ServerDied()
        if None in res:
            self.add(e='bad', what='noresponse')
            raise Enough()
        qs = []
        for (s, ops, gone), rs in zip(items, res):
            q = []
            for (lun, c, n), r in zip(ops, rs):
                q.append({'e': 'cmd', 's': s, 'tgt': self.tgtof[s], 'lun': str(lun), 'cdb': list(bytes.fromhex(c).ljust(16, b'\0')), 'edtl': n,
                          'dir': 'r' if n else 'n', 'dout': [], 'pbytes': [], 'flt': [], 'fop': [], 'st': r['status'], 'key': r.get('key', 0), 'asc': r.get('asc', 0)})
            if gone:
                q.append({'e': 'gone', 's': s})
                self.sess.pop(s, None)
            qs.append(q)
        for t in {self.tgtof[i[0]] for i in items if i[2]}:
            self.settle(t)
        self.add(e='race', qs=qs)

    def cmd(self, s, lun, cdb, o=None):
        o = o or {}
        cdb = bytes.fromhex(cdb)
        tgt = self.tgtof.get(s)
        ltxt = str(lun)
        wire = lun
        if isinstance(lun, list):
            wire, ltxt = bytes.fromhex(lun[0]), lun[1]
        store = self.maps.get(tgt, {}).get(ltxt)
        bs = self.bs.get(store, 512)
        d = o.get('dir', 'n')
        data = None
        pb = []
        if 'out' in o:
            data = T.payload(o['out'], bs)
            if 'cut' in o:
                data = data[:o['cut']]
        elif 'pbytes' in o:
            data = bytes.fromhex(o['pbytes'])
            pb = list(data)
        edtl = o.get('edtl', len(data) if data is not None else 0)
        ev = {'e': 'cmd', 's': s, 'tgt': tgt, 'lun': ltxt, 'cdb': list(cdb.ljust(16, b'\0')), 'edtl': edtl, 'dir': d,
              'dout': dectok(data, bs) if data is not None and 'out' in o else [], 'pbytes': pb, 'flt': [], 'fop': [], 'st': -1, 'key': 0, 'asc': 0,
              'rcode': 0, 'sl': 0, 'addl': 0, 'dl': 0, 'din': [], 'dinlen': 0, 'ov': False, 'un': False, 'resid': 0, 'raw': [], 'luns': []}
        if self.faulty:
            self.ops(store)
        x = self.sess.get(s)
        if x is None:
            ev['st'] = -1
            self.ev.append(ev)
            return ev
        try:
            r = x.cmd(cdb, wire, data=data, edtl=edtl, imm=o.get('imm'), wflag=d in 'wb', rflag=d in 'rb',
                      timeout=self.timeout, maxpdu=o.get('maxpdu', 8192), immediate=o.get('immediate', False))
            ev['st'] = r['status']
            b = r['in']
            ev['dinlen'] = len(b)
            if o.get('raw') or len(b) <= 64 or cdb[0] == 0xa0:
                ev['raw'] = list(b)
            if cdb[0] == 0xa0:
                ev['luns'] = [lun_text(b[k:k + 8]) for k in range(8, len(b) - 7, 8)]
            if cdb[0] in (8, 0x28, 0xa8, 0x88):
                ev['din'] = dectok(b, bs)
            ev['ov'], ev['un'] = r['O'], r['U']
            ev['resid'] = r['resid'] & 0x7fffffff
            if r['t'] == 'resp':
                ev['dl'] = len(r['sense'])
                ev['sl'] = r.get('senselen', 0)
                ev['rcode'] = r.get('rcode', 0)
                ev['key'], ev['asc'] = r.get('key', 0), r.get('asc', 0)
                if len(r['sense']) >= 10:
                    ev['addl'] = r['sense'][9]
        except (I.Closed, I.Timeout, AssertionError, IndexError, MemoryError):
            ev['st'] = -1
            self.lost += 1
            x.close()
            self.sess.pop(s, None)
            if not self.srv.alive():
                self.add(e='bad', what='crashed')
                raise T.ServerDied()
            self.ev.append(ev)
            self.add(e='gone', s=s)
            if self.lost >= 2:
                raise Enough()
            if self.slog:
                self.syscalls()
            # go on with a fresh session
            self.open(s, tgt)
            return ev
        if self.slog:
            ev['flt'] = ['%s:%s' % (q['op'], q['fault']) for q in self.syscalls() if q['fault'] and
                         not (q['op'] == 'advise' and cdb[0] not in (0x34, 0x90))]
            ev['fop'] = sorted(set(f.split(':')[0] for f in ev['flt']))
        elif self.faulty:
            ev['flt'] = ['%s:%s' % (q['op'], q['fault']) for q in self.ops(store) if q['fault'] and
                         not (q['op'] == 'advise' and cdb[0] not in (0x34, 0x90)) and q['fault'] != 'eof']
            ev['fop'] = sorted(set(f.split(':')[0] for f in ev['flt']))
        self.ev.append(ev)
        return ev

    def dump(self, s, which='vol'):
        if s not in self.real:
            return self.srv.dump(s, which)
        b = self.rdur[s] if which == 'dur' else open(self.real[s], 'rb').read()
        return b.ljust(self.size.get(s, 0) * self.bs[s], b'\0')

    def sdump(self, s, which='vol'):
        bs = self.bs[s]
        blk = {}
        for off, b in self.srv.ctl('sdump', store=s, which=which)['blocks']:
            k, o = divmod(int(off), bs)
            blk.setdefault(k, bytearray(bs))[o:o + 512] = base64.b64decode(b)
        at = sorted(blk)
        self.add(e='sdump' if which == 'vol' else 'sdur', dev=s, at=[limbs(k) for k in at], toks=[T.decode(bytes(blk[k]), bs)[0] for k in at])

    def ops(self, store):
        if store is None:
            return []
        return self.srv.ctl('ops', store=store)['ops']

    def restart(self, how, skip=None):
        # 'clean': what the store holds; 'crash': what had been flushed
        which = 'dur' if how == 'crash' else 'vol'
        imgs = {}
        self.syscalls()
        for s in sorted(self.bs):
            if s in self.real:
                continue
            p = os.path.join(T.workdir(), 'img-%d-%s-%d-r' % (os.getpid(), s, id(self)))
            self.srv.ctl('save', store=s, which=which, path=p)
            imgs[s] = p
        for s in list(self.sess):
            self.sess.pop(s).close()
            self.add(e='gone', s=s)
        self.srv.kill()
        for s, p in imgs.items():
            q = p[:-2]
            os.replace(p, q)
            self.images[s] = q
        if which == 'dur' and self.slog:
            for s, p in self.real.items():
                open(p, 'wb').write(self.rdur[s])
        if which == 'dur':
            for s, q in list(self.images.items()) + list(self.real.items()):
                if s != skip:
                    self.add(e='crash', dev=s, toks=T.decode(open(q, 'rb').read(), self.bs[s]))
        self.start()
        # attributes live in memory only
        for s, d in self.devs.items():
            for k in ('ro', 'swp', 'removable'):
                self.add(e='attr', dev=s, attr=k, v=False)
            self.add(e='attr', dev=s, attr='online', v=d['online'])

    def step(self, st):
        op, a = st[0], st[1:]
        if op == 'open':
            self.open(*a)
        elif op == 'close':
            self.close(*a)
        elif op == 'cmd':
            self.cmd(*a)
        elif op == 'dump' and a[0] in self.sparse:
            self.sdump(a[0])
        elif op == 'dump':
            self.add(e='dump', dev=a[0], toks=T.decode(self.dump(a[0]), self.bs[a[0]]))
        elif op == 'dur' and a[0] in self.real:
            if self.slog:
                self.add(e='dur', dev=a[0], toks=T.decode(self.dump(a[0], 'dur'), self.bs[a[0]]))
        elif op == 'dur' and a[0] in self.sparse:
            self.sdump(a[0], 'dur')
        elif op == 'dur':
            self.add(e='dur', dev=a[0], toks=T.decode(self.srv.dump(a[0], 'dur'), self.bs[a[0]]))
        elif op == 'fault':
            self.srv.ctl('fault', store=a[0], faults=a[1])
            self.faulty = True
        elif op == 'nofault':
            self.srv.ctl('fault', store=a[0], faults=[])
            self.srv.ctl('ops', store=a[0])
            self.faulty = False
        elif op == 'crashat':
            self.srv.ctl('crashat', store=a[0], n=a[1])
        elif op == 'resize':
            self.srv.ctl('resize', size=a[0], grow=1 if len(a) > 1 and a[1] else 0)
            for s, p in self.real.items():
                self.size[s] = max(self.size.get(s, 0), a[0] // self.bs[s])
                if len(a) > 1 and a[1] and os.path.getsize(p) < a[0]:
                    os.truncate(p, a[0])
            self.add(e='resize', n={s: limbs(a[0] // self.bs[s]) for s in self.bs})
        elif op == 'attr':
            t, l, k, v = a
            self.srv.ctl('attr', target=t, lun=l, attr=k, v=1 if v else 0)
            self.add(e='attr', dev=self.maps[t][str(l)], attr=k, v=bool(v))
        elif op == 'map':    # add or remove a mapping
            t, l, dev = a
            if dev is None:
                was = self.maps[t].pop(str(l), None)
                self.srv.ctl('dellun', target=t, lun=l, dev=self.devids.get(was, 0), reread=1)
            else:
                self.srv.ctl('addlun', target=t, lun=l, dev=self.devids[dev], reread=1)
                self.maps[t][str(l)] = dev
            self.add(e='map', tgt=t, luns=dict(self.maps[t]))
        elif op == 'restart':
            self.restart(a[0])
        elif op == 'crashcmd':
            # the backend dies at its n-th operation, in the middle of this command or after it
            n, s, lun, cdb, o = a
            store = self.maps.get(self.tgtof[s], {}).get(str(lun))
            if store is None:
                return
            self.srv.ctl('crashat', store=store, n=n)
            self.cmd(s, lun, cdb, o)
            ev = self.ev.pop()
            while ev['e'] != 'cmd':
                ev = self.ev.pop()
            ev.update(e='crashin', dev=store, toks=T.decode(self.srv.dump(store, 'dur'), self.bs[store]))
            self.ev.append(ev)
            self.restart('crash', skip=store)
        elif op == 'race':
            self.race(a[0])
        elif op == 'tmf':       # functions other than resets leave units as they are
            s, lun, f = a
            x = self.sess[s]
            x.c.send(I.tmf(f, x.nexttag(), I.NOTAG if f != 1 else 0x7ffffff1, x.cmdsn, x.expstatsn, lun))
            p = x.c.recv(self.timeout)
            x.expstatsn = I.u32(p['statsn'] + 1)
            if p['t'] != 'tmf':
                self.add(e='bad', what='tmf')
        elif op == 'reset_lu':
            s, lun = a
            x = self.sess[s]
            x.c.send(I.tmf(5, x.nexttag(), I.NOTAG, x.cmdsn, x.expstatsn, lun))
            p = x.c.recv(self.timeout)
            x.expstatsn = I.u32(p['statsn'] + 1)
            if p['t'] != 'tmf' or p['resp'] != 0:
                self.add(e='bad', what='tmf')
            self.add(e='lureset', dev=self.maps[self.tgtof[s]][str(lun)])
        else:
            raise ValueError(op)


def hash_name(s):
    h = 5381
    for c in s:
        h = (h * 33 + ord(c)) & 0xffffffff
    return h


def run(sc, timeout=TIMEOUT):
    r = SbcRun(sc, timeout)
    try:
        for st in sc['steps']:
            r.step(st)
        if not r.srv.alive():
            r.add(e='bad', what='crashed')
    except Enough:
        pass
    except (T.ServerDied, BrokenPipeError):
        r.add(e='bad', what='crashed')
    except (I.Closed, I.Timeout):
        r.add(e='bad', what='noresponse' if r.srv.alive() else 'crashed')
    finally:
        r.stop()
    return r.ev
