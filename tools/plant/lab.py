"""Runs the gotgt daemon built from the current directory on a scratch configuration."""
import json, os, shutil, signal, socket, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import iscsi, cdb
from iscsi import *

T0 = 'iqn.2026-01.demo:t0'


def freeport():
    s = socket.socket()
    s.bind(('127.0.0.1', 0))
    p = s.getsockname()[1]
    s.close()
    return p


class Lab:
    """stores: {deviceID: size}; targets: {name: (tpgts {tag: [portal ids]}, luns {lun: deviceID})};
    portals: [address with %d for the port]"""

    def __init__(self, stores=None, targets=None, portals=None, flags=(), opts=None):
        self.dir = tempfile.mkdtemp(prefix='demo')
        self.stores = stores or {1000: 1 << 20}
        self.flags = list(flags)
        self.port = freeport()
        self.bin = os.path.join(self.dir, 'gotgt')
        subprocess.run(['go', 'build', '-o', self.bin, 'gotgt.go'], check=True)
        sts = []
        for d, size in self.stores.items():
            with open(self.img(d), 'wb') as f:
                f.truncate(size)
            st = {'deviceID': d, 'path': 'file:' + self.img(d), 'online': True}
            st.update((opts or {}).get(d, {}))
            sts.append(st)
        targets = targets or {T0: ({'1': [0]}, {'0': next(iter(self.stores))})}
        portals = portals or ['127.0.0.1:%d']
        json.dump({'storages': sts,
                   'iscsiportals': [{'id': i, 'portal': p % self.port if '%d' in p else p} for i, p in enumerate(portals)],
                   'iscsitargets': {n: {'tpgts': t, 'luns': l} for n, (t, l) in targets.items()}},
                  open(os.path.join(self.dir, 'config.json'), 'w'))
        self.p = None
        self.start()

    def img(self, d):
        return os.path.join(self.dir, '%s.img' % d)

    def start(self):
        self.api = freeport()
        self.p = subprocess.Popen([self.bin, 'daemon', '--log', 'error', '--port', str(self.port),
                                   '--host', 'tcp://127.0.0.1:%d' % self.api] + self.flags,
                                  env=dict(os.environ, GOSTOR_CONFIG=self.dir), cwd=self.dir,
                                  stdout=open(os.path.join(self.dir, 'log'), 'ab'), stderr=subprocess.STDOUT)
        end = time.time() + 10
        while time.time() < end and self.p.poll() is None:
            try:
                socket.create_connection(('127.0.0.1', self.port), 1).close()
                time.sleep(0.05)
                return
            except OSError:
                time.sleep(0.02)
        raise SystemExit('the daemon does not start')

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None

    def alive(self):
        return self.p.poll() is None

    def data(self, d=1000, off=0, n=None):
        with open(self.img(d), 'rb') as f:
            f.seek(off)
            return f.read() if n is None else f.read(n)

    def sess(self, target=T0, **kw):
        return Sess(self.port, target, **kw)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.stop()
        shutil.rmtree(self.dir, ignore_errors=True)


def blk(tag, n=1, bs=512):
    """n blocks with recognisable contents"""
    return b''.join((('%s-%d.' % (tag, i)) * bs).encode()[:bs] for i in range(n))


def check(cond, what):
    if not cond:
        print('BROKEN: ' + what)
        sys.exit(1)
