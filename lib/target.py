"""The target process under test: builds the harness against the repository and drives one server process."""
import base64, json, os, random, shutil, socket, subprocess, sys, tempfile, threading, time, queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TGT = 'iqn.2026-01.verif:t0'

_work = None


def workdir():
    """Per-run scratch folder, removed at exit by the runner."""
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix='verif-')
    return _work


def set_workdir(p):
    global _work
    _work = p


class BuildError(Exception):
    pass


def goenv():
    e = dict(os.environ)
    e.update(GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off', GOWORK='off', GOENV='off', GOTOOLCHAIN='local',
             GOMODCACHE=e.get('GOMODCACHE', '/root/go/pkg/mod'), GOCACHE=e.get('GOCACHE', '/root/.cache/go-build'),
             HOME=e.get('HOME', '/root'))
    return e


def build(race=False, cmds=('tgtsrv',)):
    """Build the harness from REPO's current working tree, in a scratch copy of the harness module."""
    w = os.path.join(workdir(), 'build')
    if not os.path.isdir(w):
        shutil.copytree(os.path.join(VERIF, 'harness'), w)
        if REPO != '/repo':
            p = os.path.join(w, 'go.mod')
            s = open(p).read().replace('=> /repo', '=> ' + REPO)
            open(p, 'w').write(s)
    outs = {}
    for c in cmds:
        out = os.path.join(workdir(), c + ('-race' if race else ''))
        outs[c] = out
        if os.path.exists(out):
            continue
        cmd = ['go', 'build'] + (['-race'] if race else []) + ['-o', out, './cmd/' + c]
        r = subprocess.run(cmd, cwd=w, env=goenv(), capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError(r.stdout + r.stderr)
    return outs


def build_gotgt():
    out = os.path.join(workdir(), 'gotgt')
    if not os.path.exists(out):
        e = goenv()
        e['GOFLAGS'] = '-mod=readonly'
        e['CGO_ENABLED'] = '0'
        r = subprocess.run(['go', 'build', '-o', out, '.'], cwd=REPO, env=e, capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError(r.stdout + r.stderr)
    return out


_port_lock = threading.Lock()
_port_rng = {}


def free_port():
    with _port_lock:
        if os.getpid() not in _port_rng:
            _port_rng.clear()
            _port_rng[os.getpid()] = random.Random(os.getpid() * 7919 + time.time_ns())
        while True:
            p = _port_rng[os.getpid()].randrange(18000, 32000)
            s = socket.socket()
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            try:
                s.bind(('', p))
                return p
            except OSError:
                continue
            finally:
                s.close()


_strace = []


def have_strace():
    """Can processes of our own be traced here?"""
    if not _strace:
        try:
            p = os.path.join(workdir(), 'strace-try-%d' % os.getpid())
            subprocess.run(['strace', '-D', '-f', '-qq', '-e', 'trace=execve', '-o', p, 'true'], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=20, check=True)
            _strace.append('execve' in open(p).read())
            os.unlink(p)
        except (OSError, subprocess.SubprocessError):
            _strace.append(False)
    return _strace[0]


def ported(text, port):
    p = str(port)
    return text.replace('%PORT%', p).replace('%POR%', p[:-1]).replace('%ORT%', p[1:])


class ServerDied(Exception):
    pass


class StartError(Exception):
    pass


class Server:
    """One tgtsrv process.  cfg keys: see srvCfg in the harness.  Portal addresses may use %PORT% (and %POR%, %ORT%: it without
    its last or first digit)."""

    def __init__(self, cfg, race=False, exe=None, wrap=()):
        exe = exe or os.path.join(workdir(), 'tgtsrv' + ('-race' if race else ''))
        last = None
        for attempt in range(6):
            self.port = free_port()
            c = json.loads(ported(json.dumps(cfg), self.port))
            c['port'] = self.port
            self.errf = tempfile.TemporaryFile(dir=workdir())
            env = dict(os.environ)
            env['GOTRACEBACK'] = 'single'
            env['GORACE'] = 'halt_on_error=0 exitcode=0'
            self.p = subprocess.Popen(list(wrap) + [exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf, env=env)
            self.lock = threading.Lock()
            self.n = 0
            try:
                self.p.stdin.write((json.dumps(c) + '\n').encode())
                self.p.stdin.flush()
                line = self.p.stdout.readline()
            except OSError:
                line = b''
            if line and json.loads(line).get('ready'):
                if cfg.get('norun') or self._up():
                    return
            last = self.stderr()
            self.kill()
        raise StartError('target did not start: ' + (last or '')[-2000:])

    def _up(self, port=None):
        dl = time.monotonic() + 15
        # wait until the port listens without consuming a connection slot: look at /proc/net/tcp6
        want = '%04X' % (port or self.port)
        while time.monotonic() < dl:
            if self.p.poll() is not None:
                return False
            for f in ('/proc/net/tcp6', '/proc/net/tcp'):
                try:
                    for l in open(f):
                        t = l.split()
                        if len(t) > 9 and t[3] == '0A' and t[1].rsplit(':', 1)[1] == want and self._owns(t[9]):
                            return True
                except OSError:
                    pass
            time.sleep(0.003)
        return False

    def _owns(self, inode):
        d = '/proc/%d/fd' % self.p.pid
        try:
            return any(os.readlink(os.path.join(d, x)) == 'socket:[%s]' % inode for x in os.listdir(d))
        except OSError:
            return False

    def ctl(self, cmd, timeout=60, **kw):
        with self.lock:
            self.n += 1
            kw.update(cmd=cmd, id=self.n)
            try:
                self.p.stdin.write((json.dumps(kw) + '\n').encode())
                self.p.stdin.flush()
                line = self.p.stdout.readline()
            except OSError:
                line = b''
            if not line:
                raise ServerDied(self.stderr())
            r = json.loads(line)
            if r.get('err'):
                raise RuntimeError('ctl %s: %s' % (cmd, r['err']))
            return r

    def dump(self, store, which='vol'):
        return base64.b64decode(self.ctl('dump', store=store, which=which)['b64'])

    def alive(self):
        return self.p.poll() is None

    def stderr(self):
        try:
            self.errf.seek(0)
            return self.errf.read().decode('latin1')
        except (OSError, ValueError):
            return ''

    def kill(self):
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()
        for f in (self.p.stdin, self.p.stdout):
            try:
                f.close()
            except OSError:
                pass

    close = kill

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.kill()
        self.errf.close()


def simple_cfg(luns, targets=None, **kw):
    """luns: {lun: dict(store=name, blocks=n, shift=9, thin=False, image=path, path=explicit path)} on the default
    target; targets: {name: {lun: ...}} for more."""
    tgts = {TGT: luns}
    if targets:
        tgts.update(targets)
    stores, storages, it = {}, [], {}
    dev = 1000
    bypath = {}
    for tn, ls in tgts.items():
        m = {}
        for lun, l in ls.items():
            key = l.get('path') or l['store']
            if key in bypath:
                m[str(lun)] = bypath[key]
                continue
            dev += 1
            bypath[key] = dev
            shift = l.get('shift', 9)
            if l.get('path'):
                path = l['path']
            else:
                path = 'verif:' + l['store']
                stores[l['store']] = {'size': l['blocks'] << shift, 'image': l.get('image', ''), 'sparse': bool(l.get('sparse'))}
            storages.append({'deviceID': dev, 'path': path, 'online': l.get('online', True), 'thinProvisioning': l.get('thin', False),
                             'blockShift': shift})
            m[str(lun)] = dev
        it[tn] = {'tpgts': {'1': [0]}, 'luns': m}
    cfg = {'stores': stores, 'config': {'storages': storages, 'iscsiportals': [{'id': 0, 'portal': '127.0.0.1:%PORT%'}],
                                        'iscsitargets': it}}
    cfg.update(kw)
    return cfg


# ---- block content tokens -------------------------------------------------
# block(v): 32-bit big-endian words, top byte 0, low 24 bits = rotl24(v, i); v = 0 is the all-zero block.
def _rotl24(v, r):
    r %= 24
    return ((v << r) | (v >> (24 - r))) & 0xffffff


_bcache = {}


def block(v, bs=512):
    k = (v, bs)
    b = _bcache.get(k)
    if b is None:
        words = [_rotl24(v, i) for i in range(24)]
        n = bs // 4
        seq = (words * (n // 24 + 1))[:n]
        b = b''.join(w.to_bytes(4, 'big') for w in seq)
        if len(_bcache) > 20000:
            _bcache.clear()
        _bcache[k] = b
    return b


def payload(toks, bs=512):
    return b''.join(block(t, bs) for t in toks)


def decode(buf, bs=512):
    """Tokens of the whole blocks in buf; -1 for a block that is not block(v) for any v."""
    out = []
    for i in range(0, len(buf) - bs + 1, bs):
        b = buf[i:i + bs]
        v = int.from_bytes(b[:4], 'big')
        out.append(v if v <= 0xffffff and b == block(v, bs) else -1)
    return out
