"""Runs the gotgt program itself through lives made of configurations, starts, sessions and ends; the events are the trace
validated by DaemonTrace.

steps
  file name bytes [tokens]     make a file (while the daemon is down); its first cells hold the tokens
  grow name bytes | rmfile name
  conf {...}                   the configuration from now on (see spec/Daemon.tla); 'broken': what is wrong with the text
  start {log, driver, block, home, busy}
  second {...}                 one more daemon on the same ports
  end kill|term|int
  list | api                   the command line's list of targets | the HTTP interface's
  disc addr src                SendTargets=All
  login c tgt addr src | logout c | drop c
  luns c | unit c lun | write c lun lba tokens | read c lun lba blocks
  sendend c lun lba tokens     a write, and the end of the daemon before it answers
  stored name                  what the file holds, read from outside"""
import http.client, json, os, shutil, signal, socket, struct, subprocess, tempfile, time
import iscsi as I, target as T, cdb as C

TGT = 'iqn.2026-01.verif:'


class DaemonRun:
    def __init__(self, sc, timeout=None):
        self.dir = tempfile.mkdtemp(prefix='daemon-', dir=T.workdir())
        self.exe = os.path.join(T.workdir(), 'gotgt')
        self.timeout = timeout or 8.0
        self.ev = [{'e': 'reset'}]
        self.p, self.port, self.api = None, 0, 0
        self.others = []
        self.ports()
        self.sess = {}
        self.bs = {}
        self.fsize = {}
        self.n = 0

    def add(self, **kw):
        self.ev.append(kw)

    def ports(self):
        self.port = T.free_port()
        while True:
            self.api = T.free_port()
            if self.api != self.port:
                break

    def fn(self, name):
        return os.path.join(self.dir, name)

    def addr(self, a):
        return a.replace('PORT', str(self.port))

    def unaddr(self, a):
        return a.replace(':%d' % self.port, ':PORT')

    # -- the configuration file
    def write_conf(self, conf, home):
        d = self.fn('home/.gotgt' if home else 'etc')
        for x in ('home', 'etc'):
            shutil.rmtree(self.fn(x), ignore_errors=True)
        os.makedirs(d)
        os.makedirs(self.fn('home'), exist_ok=True)
        p = os.path.join(d, 'config.json')
        kind = conf['kind']
        if kind == 'absent':
            return d
        doc = {'storages': [], 'iscsiportals': [], 'iscsitargets': {}}
        for s in conf['storages']:
            x = {'deviceID': int(s['dev']), 'path': s['scheme'] + ':' + self.fn(s['file']), 'online': s['online'], 'thinProvisioning': s['thin'], 'blockShift': s['shift']}
            if not s['shift'] and conf.get('terse'):
                x.pop('blockShift')
            if not s['thin'] and conf.get('terse'):
                x.pop('thinProvisioning')
            if not s['online'] and conf.get('terse'):
                x.pop('online')
            if s['scheme'] == '':
                x['path'] = self.fn(s['file'])
            doc['storages'].append(x)
        for q in conf['portals']:
            doc['iscsiportals'].append({'id': int(q['id']), 'portal': self.addr(q['addr'])})
        for t in conf['targets']:
            doc['iscsitargets'][t['name']] = {'tpgts': {g['n']: [int(i) for i in g['ids']] for g in t['groups']}, 'luns': {l['lun']: int(l['dev']) for l in t['luns']}}
        if conf.get('terse'):
            doc = {k: v for k, v in doc.items() if v}
            doc['comment'] = 'not for us'
        b = conf.get('broken', '')
        if b == 'types':
            doc['storages'] = {'deviceID': 1}
        elif b == 'devtype':
            doc['storages'] = (doc.get('storages') or []) + [{'deviceID': 'one', 'path': 'file:/nonexistent', 'online': True}]
        elif b == 'portalid':
            doc['iscsiportals'] = (doc.get('iscsiportals') or []) + [{'id': 70000, 'portal': '127.0.0.1:1'}]
        elif b == 'negative':
            doc['storages'] = (doc.get('storages') or []) + [{'deviceID': -1, 'path': 'file:/nonexistent', 'online': True}]
        text = json.dumps(doc, indent=conf.get('indent'))
        if b == 'cut':
            text = text[:len(text) - 1 - len(text) // 3]
        elif b == 'empty':
            text = ''
        elif b == 'text':
            text = 'storages:\n - deviceID: 1\n'
        if b == 'dir':
            os.makedirs(p)
        else:
            with open(p, 'w') as f:
                f.write(text)
        return d

    def listening(self, port, pid):
        want = '%04X' % port
        for f in ('/proc/net/tcp6', '/proc/net/tcp'):
            try:
                for l in open(f):
                    t = l.split()
                    if len(t) > 9 and t[3] == '0A' and t[1].rsplit(':', 1)[1] == want:
                        d = '/proc/%d/fd' % pid
                        try:
                            if any(os.readlink(os.path.join(d, x)) == 'socket:[%s]' % t[9] for x in os.listdir(d)):
                                return True
                        except OSError:
                            pass
            except OSError:
                pass
        return False

    def spawn(self, conf, opt, port, api):
        d = self.write_conf(conf, opt.get('home'))
        env = {k: v for k, v in os.environ.items() if k not in ('GOSTOR_CONFIG',)}
        env['HOME'] = self.fn('home')
        if not opt.get('home'):
            env['GOSTOR_CONFIG'] = d
        cmd = [self.exe, 'daemon', '--port', str(port), '--host', 'tcp://127.0.0.1:%d' % api]
        if opt.get('log', 'info') != 'info' or opt.get('explicit'):
            cmd += ['--log', opt.get('log', 'info')]
        if opt.get('driver', 'iscsi') != 'iscsi' or opt.get('explicit'):
            cmd += ['--driver', opt.get('driver', 'iscsi')]
        if opt.get('block'):
            cmd += ['--block-multiple-hosts']
        errf = open(self.fn('stderr'), 'ab')
        try:
            return subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=errf, stderr=errf, env=env, cwd=self.dir)
        finally:
            errf.close()

    def await_up(self, p, port, api):
        """'up' when both services listen, the exit status when it ended, 'hang' else"""
        dl = time.monotonic() + 20
        while time.monotonic() < dl:
            if p.poll() is not None:
                return p.returncode
            if self.listening(port, p.pid) and self.listening(api, p.pid):
                # a daemon that is about to give up would do so now
                time.sleep(0.02)
                if p.poll() is None:
                    return 'up'
            time.sleep(0.004)
        return 'hang'

    def opt(self, o):
        return {'log': o.get('log', 'info'), 'driver': o.get('driver', 'iscsi'), 'block': bool(o.get('block')), 'busy': bool(o.get('busy'))}

    def start(self, o, extra=False):
        if self.p and not extra:
            return
        held = []
        if extra:
            port, api = self.port, self.api
            if o.get('busy') == 'iscsi':
                api = T.free_port()
            elif o.get('busy') == 'api':
                port = T.free_port()
        else:
            for _ in range(5):
                self.ports()
                port, api = self.port, self.api
                try:
                    if o.get('busy'):
                        s = socket.socket(socket.AF_INET6)
                        s.setsockopt(socket.IPPROTO_IPV6, socket.IPV6_V6ONLY, 0)
                        s.bind(('::', port if o['busy'] == 'iscsi' else api))
                        s.listen(1)
                        held.append(s)
                    break
                except OSError:
                    continue
        p = self.spawn(self.conf, o, port, api)
        r = self.await_up(p, port, api)
        for s in held:
            s.close()
        if r == 'hang':
            p.kill()
            p.wait()
            self.add(e='bad', what='hang')
            return
        if extra:
            self.others.append(p)
        elif r == 'up':
            self.p = p
            self.block = bool(o.get('block'))
            self.last = None
        self.add(e='start', ok=r == 'up', code=0 if r == 'up' else r, opt=dict(self.opt(o), busy=bool(o.get('busy')) or extra))

    def leave(self, c):
        s = self.sess.pop(c, None)
        if s:
            s.close()
            self.last = s.src
            self.add(e='left', c=c)

    def end(self, sig):
        if not self.p:
            return
        if self.p.poll() is not None:
            self.add(e='bad', what='died')
        else:
            self.p.send_signal({'kill': signal.SIGKILL, 'term': signal.SIGTERM, 'int': signal.SIGINT}[sig])
            try:
                self.p.wait(10)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
                self.add(e='bad', what='unended')
        self.add(e='end', sig=sig, code=self.p.returncode)
        self.p = None
        for c in list(self.sess):
            self.sess.pop(c).close()

    def settle(self, get):
        """the listing once the sessions that ended are gone from it, or after a while"""
        dl = time.monotonic() + (3 if self.timeout < 15 else 8)
        while True:
            r = get()
            if r is None or sum(t['n'] for t in r) == len(self.sess) or time.monotonic() > dl:
                return r
            time.sleep(0.05)

    def cli(self):
        p = subprocess.run([self.exe, 'list', 'target', '--host', 'tcp://127.0.0.1:%d' % self.api], stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=30,
                           env=dict(os.environ, HOME=self.fn('home')))
        if p.returncode != 0:
            return None
        ls = p.stdout.splitlines()
        if not ls or ls[0].split() != ['TARGET', 'NAME', 'STATE', 'SESSIONS']:
            return [{'name': 'no header', 'n': 0, 'groups': []}]
        res = []
        for l in ls[1:]:
            f = l.split()
            if len(f) != 3 or not f[2].isdigit():
                return [{'name': 'unreadable', 'n': 0, 'groups': []}]
            res.append({'name': f[0], 'n': int(f[2]), 'groups': []})
        return res

    def http(self):
        h = http.client.HTTPConnection('127.0.0.1', self.api, timeout=15)
        try:
            h.request('GET', '/target/list')
            r = h.getresponse()
            b = r.read()
            if r.status != 200:
                return None
            res = []
            for t in json.loads(b) or []:
                ports = [q for g in t['tpg'] or [] for v in g.values() if isinstance(v, list) for q in v]
                res.append({'name': t['name'], 'n': len(t['itnexus'] or {}), 'groups': [[str(v) for q in ports for k, v in q.items() if isinstance(v, int)]]})
            return res
        except (OSError, http.client.HTTPException, ValueError, KeyError, AttributeError):
            return None
        finally:
            h.close()

    def step(self, st):
        op, a = st[0], st[1:]
        if self.p and self.p.poll() is not None and op != 'end':
            self.add(e='bad', what='died')
            self.add(e='end', sig='kill', code=-1)
            self.p = None
            for c in list(self.sess):
                self.sess.pop(c).close()
        getattr(self, 'do_' + op)(*a)

    def do_file(self, name, nbytes, toks=()):
        b = T.payload(toks)[:nbytes]
        with open(self.fn(name), 'wb') as f:
            f.write(b)
            f.truncate(nbytes)
        self.fsize[name] = nbytes
        self.add(e='file', name=name, bytes=nbytes, toks=list(toks))

    def do_grow(self, name, nbytes):
        os.truncate(self.fn(name), nbytes)
        self.add(e='grow', name=name, bytes=nbytes)

    def do_rmfile(self, name):
        os.unlink(self.fn(name))
        self.add(e='rmfile', name=name)

    def do_conf(self, conf):
        self.conf = conf
        c = {'kind': 'broken' if conf.get('broken') else conf['kind'], 'storages': conf['storages'], 'portals': conf['portals'], 'targets': conf['targets']}
        self.add(e='conf', conf=c)

    def do_start(self, o):
        self.start(o)

    def do_second(self, o):
        if self.p:
            self.start(o, extra=True)

    def do_end(self, sig):
        self.end(sig)

    def do_list(self):
        r = self.settle(self.cli)
        self.add(e='list', ok=r is not None, targets=r or [], how='cli')

    def do_api(self):
        r = self.settle(self.http)
        self.add(e='list', ok=r is not None, targets=r or [], how='http')

    def patient(self, src, *a, **kw):
        """A session; connections of another host that just ended may still count, so a refusal is final only after a while."""
        dl = time.monotonic() + 1.0
        while True:
            try:
                return I.Sess(*a, src=src, **kw)
            except (I.Closed, I.LoginError, ConnectionError):
                if not self.p or not self.lone(src) or time.monotonic() > dl:
                    raise
            time.sleep(0.05)

    def lone(self, src):
        """may a refusal be because of connections of other hosts that are about to be gone?"""
        return self.block and all(s.src == src for s in self.sess.values()) and self.last != src

    def do_disc(self, addr, src):
        host = addr.split(':')[0]
        s = None
        try:
            s = self.patient(src, self.port, None, ini=TGT + 'disc', isid=0x800000000d00, dst=host, timeout=self.timeout)
            itt = s.nexttag()
            s.c.send(I.text(itt, s.cmdsn, [('SendTargets', 'All')], s.expstatsn))
            p = s.c.recv()
            kv = p['kv']
            ts = []
            for k, v in kv:
                if k == 'TargetName':
                    ts.append({'name': v, 'addrs': []})
                elif k == 'TargetAddress' and ts:
                    x, _, g = self.unaddr(v or '').rpartition(',')
                    ts[-1]['addrs'].append([x, g])
                else:
                    ts.append({'name': 'odd ' + k, 'addrs': []})
            self.add(e='disc', ok=True, addr=addr, src=src, targets=ts)
        except (I.Closed, I.LoginError, OSError, KeyError):
            self.add(e='disc', ok=False, addr=addr, src=src, targets=[])
        except I.Timeout:
            self.add(e='bad', what='noresponse')
        finally:
            if s:
                s.close()
        self.last = src

    def do_login(self, c, tgt, addr, src):
        if c in self.sess:
            return
        host = addr.split(':')[0]
        self.n += 1
        try:
            s = self.patient(src, self.port, tgt, ini=TGT + 'i' + c, isid=0x80000000e000 + self.n, dst=host, timeout=self.timeout)
            s.src = src
            self.sess[c] = s
        except (I.Closed, I.LoginError, OSError):
            pass
        except I.Timeout:
            self.add(e='bad', what='noresponse')
            return
        self.last = src
        self.bs = {k: v for k, v in self.bs.items() if k[0] != c}
        self.add(e='login', c=c, tgt=tgt, addr=addr, src=src, ok=c in self.sess)

    def do_logout(self, c):
        if c in self.sess:
            try:
                self.sess[c].logout()
                self.sess[c].c.wait_closed(5)
            except (I.Closed, I.Timeout):
                pass
            self.leave(c)

    def do_drop(self, c):
        if c in self.sess:
            self.leave(c)

    def cmd(self, c, cdb, lun, **kw):
        try:
            return self.sess[c].cmd(cdb, int(lun), **kw)
        except (I.Closed, I.Timeout, AssertionError):
            self.add(e='bad', what='noresponse')
            self.leave(c)

    def do_luns(self, c):
        if c in self.sess:
            r = self.cmd(c, C.report_luns(4096), 0, read=4096)
            if r:
                d = r['in']
                ls = []
                for k in range(8, len(d) - 7, 8):
                    ls.append(str(d[k + 1] if not d[k] & 0xc0 else (d[k] & 0x3f) << 8 | d[k + 1]))
                self.add(e='luns', c=c, luns=ls)

    def do_unit(self, c, lun):
        if c not in self.sess:
            return
        cap = self.cmd(c, C.readcap16(32), lun, read=32)
        if not cap:
            return
        if not cap['ok'] or len(cap['in']) < 32:
            self.add(e='unit', c=c, lun=lun, present=not (cap.get('asc') == 0x2500), last=0, bs=0, thin=False, ready=False)
            return
        last, bs = struct.unpack('>QI', cap['in'][:12])
        self.bs[c, lun] = bs
        tur = self.cmd(c, C.tur(), lun)
        if tur:
            self.add(e='unit', c=c, lun=lun, present=True, last=min(last, 1 << 30), bs=bs, thin=bool(cap['in'][14] & 0x80), ready=tur['ok'])

    def blocksize(self, c, lun):
        if (c, lun) not in self.bs:
            self.do_unit(c, lun)
        return self.bs.get((c, lun), 512)

    def do_write(self, c, lun, lba, toks):
        if c not in self.sess:
            return
        k = max(1, self.blocksize(c, lun) // 512)
        if c not in self.sess:
            return
        toks = (toks * k)[:max(1, len(toks) // k) * k]
        r = self.cmd(c, C.rw('write', 10, lba, len(toks) // k, C.FUA if toks[0] % 3 == 0 else 0), lun, data=T.payload(toks))
        if r:
            self.add(e='write', c=c, lun=lun, lba=lba, toks=toks, ok=r['ok'])

    def do_read(self, c, lun, lba, n):
        if c not in self.sess:
            return
        k = max(1, self.blocksize(c, lun) // 512)
        if c not in self.sess:
            return
        r = self.cmd(c, C.rw('read', 10, lba, n), lun, read=n * k * 512)
        if r:
            self.add(e='read', c=c, lun=lun, lba=lba, n=n * k, ok=r['ok'], toks=T.decode(r['in']) if r['ok'] else [])

    def do_sendend(self, c, lun, lba, toks):
        if c not in self.sess or not self.p:
            return
        k = max(1, self.blocksize(c, lun) // 512)
        if c not in self.sess:
            return
        s = self.sess[c]
        toks = (toks * k)[:max(1, len(toks) // k) * k]
        b = T.payload(toks)
        if len(b) <= 8192:
            s.c.send(I.scsi_cmd(C.rw('write', 10, lba, len(toks) // k), s.nexttag(), s.cmdsn, s.expstatsn, int(lun), len(b), write=True, data=b))
            self.add(e='sent', c=c, lun=lun, lba=lba, toks=toks)
        self.end('kill')

    def do_stored(self, name):
        try:
            with open(self.fn(name), 'rb') as f:
                b = f.read()
            self.add(e='stored', name=name, bytes=len(b), toks=T.decode(b))
        except OSError:
            pass

    def stop(self):
        for c in list(self.sess):
            self.sess.pop(c).close()
        for p in [self.p] + self.others:
            if p and p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


def run(sc, timeout=None):
    r = DaemonRun(sc, timeout)
    try:
        for st in sc['steps']:
            r.step(st)
        if r.p and r.p.poll() is not None:
            r.add(e='bad', what='died')
    finally:
        r.stop()
    return r.ev
