"""Scenario generation for the block command set: behaviours of SbcGen, and random programs over wide values."""
import cdb as C, iscsi, target as T, tlc

T0, T1 = T.TGT, 'iqn.2026-01.verif:t1'
ENDS = ['logout'] + iscsi.SESSION_ENDS


def tokens(rng, n, pool=None):
    if pool:
        return [rng.choice(pool) for _ in range(n)]
    r = rng.random()
    if r < 0.15:
        v = rng.randrange(1 << 24)
        return [v] * n
    return [rng.randrange(1 << 24) if rng.random() < 0.9 else 0 for _ in range(n)]


def sess_opt(rng, plain=False):
    if plain or rng.random() < 0.4:
        return {}
    k = []
    if rng.random() < 0.5:
        k.append(['ImmediateData', rng.choice(['Yes', 'No'])])
    if rng.random() < 0.5:
        k.append(['InitialR2T', 'Yes'])
    if rng.random() < 0.5:
        k.append(['MaxRecvDataSegmentLength', str(rng.choice([512, 1024, 4096, 8192, 65536, 262144]))])
    if rng.random() < 0.5:
        k.append(['FirstBurstLength', str(rng.choice([512, 1536, 4096, 65536]))])
    if rng.random() < 0.5:
        k.append(['MaxBurstLength', str(rng.choice([512, 1024, 4608, 16384, 262144]))])
    return {'keys': k}


def imm_opts(rng, nbytes, so):
    """How the write data is delivered, within what the session negotiated."""
    keys = dict(so.get('keys', []))
    o = {}
    lim = min(int(keys.get('FirstBurstLength', 65536)), 8192)
    if keys.get('ImmediateData') == 'No':
        o['imm'] = 0
    else:
        o['imm'] = rng.choice([0, min(lim, nbytes), min(lim, nbytes, 512), min(lim, nbytes, rng.randrange(0, 9) * 512),
                               min(lim, nbytes, 4 * rng.randrange(0, 512))])
    o['maxpdu'] = rng.choice([512, 1024, 4096, 8192, 8192, 4 * rng.randrange(1, 2000) if nbytes < 20000 else 8192])
    return o


# ---- behaviours of the specification ---------------------------------------------------------------
def from_tlc(rng, cfg, num, depth, seed, na=4, nb=3, faults=False, module='SbcGen', dumps=6, plain=False, names=('s1', 's2')):
    res = []
    for hist in tlc.simulate(module, cfg, num, depth, seed)[:num]:
        so = {s: sess_opt(rng, plain) for s in names}
        luns = {T0: {0: {'store': 'a', 'blocks': na}, 1: {'store': 'b', 'blocks': nb, 'thin': True}}}
        st = [['open', s, T0, so[s]] for s in so]
        n = 0
        for h in hist:
            if h['op'] == 'cmd':
                cdb = bytes(h['cdb'])
                size = 6 if cdb[0] < 32 else 10 if cdb[0] < 128 else 12 if 160 <= cdb[0] < 192 else 16
                o = {'dir': h['dir'], 'edtl': h['edtl']}
                if h['dout']:
                    o['out'] = h['dout']
                    o.update(imm_opts(rng, len(h['dout']) * 512, so[h['s']]))
                if h.get('fail') and faults:
                    dev = {'0': 'a', '1': 'b'}.get(h['lun'])
                    if dev:
                        op = {8: 'read', 10: 'write'}.get(cdb[0] & 0x1f, rng.choice(['read', 'write', 'sync']))
                        st.append(['fault', dev, [{'op': op, 'nth': 1, 'mode': rng.choice(['error', 'short', 'partial']), 'count': 1}]])
                        st.append(['cmd', h['s'], int(h['lun']), cdb[:size].hex(), o])
                        st.append(['nofault', dev])
                        continue
                st.append(['cmd', h['s'], int(h['lun']), cdb[:size].hex(), o])
            elif h['op'] == 'crash':
                st.append(['restart', 'crash'])
                st += [['open', s, T0, so[s]] for s in so]
            elif h['op'] == 'gone':
                st.append(['close', h['s'], rng.choice(ENDS)])
                st.append(['open', h['s'], T0, so[h['s']]])
            elif h['op'] == 'attr':
                st.append(['attr', T0, int(h['lun']), h['attr'], h['v']])
            n += 1
            if dumps and n % dumps == 0:
                st += [['dump', 'a'], ['dur', 'a'], ['dump', 'b'], ['dur', 'b']]
        st += [['dump', 'a'], ['dur', 'a'], ['dump', 'b'], ['dur', 'b']]
        res.append({'cfg': {'luns': luns}, 'steps': st})
    return res


# ---- random programs ---------------------------------------------------------------------------------
class World:
    """What the generator needs to know of a configuration."""

    def __init__(self, rng, kind='std'):
        self.rng = rng
        r = rng
        if kind == 'std':
            na = r.choice([1, 2, 7, 16, 40, 64, 300])
            nb = r.choice([1, 3, 8, 20])
            nc = r.choice([2, 5, 33])
            self.luns = {T0: {0: {'store': 'a', 'blocks': na}, 1: {'store': 'b', 'blocks': nb, 'shift': r.choice([9, 12]), 'thin': True}},
                         T1: {0: {'store': 'c', 'blocks': nc}}}
            if r.random() < 0.4:
                self.luns[T1][r.choice([3, 200])] = dict(self.luns[T0][0])
        for t, m in self.luns.items():
            for l, v in m.items():
                if 'init' not in v and r.random() < 0.7 and v['store'] != 'a':
                    v['init'] = tokens(r, v['blocks'])
        seen = {}
        for t, m in self.luns.items():
            for l, v in m.items():
                if v['store'] in seen:
                    v.update(seen[v['store']])
                seen[v['store']] = dict(v)
        self.stores = sorted(seen)
        self.units = [(t, l, v['store'], v['blocks'], 1 << v.get('shift', 9), v.get('thin', False)) for t, m in self.luns.items() for l, v in m.items()]
        self.sess = {}


def span(rng, nb, mx=16):
    """A valid range, edges preferred."""
    r = rng.random()
    n = rng.randrange(1, min(nb, mx) + 1)
    if r < 0.15:
        return nb - n, n
    if r < 0.3:
        return 0, n
    if r < 0.4:
        return nb - 1, 1
    if r < 0.45 and nb <= 300:
        return 0, nb
    l = rng.randrange(nb - n + 1)
    return l, n


EDGE64 = [0xffffffffffffffff, 0xfffffffffffffffe, 0x8000000000000000, 0x7fffffffffffffff, 0x0080000000000000, 0x007fffffffffffff,
          0x0100000000000000, 0x100000000, 0xffffffff, 0x80000000, 0x7fffffff, 0x00800000, 0x007fffff, 0x0020000000000000]


def badspan(rng, nb, size, bs):
    """A range not wholly inside (or, for count 0, possibly beyond), that the CDB size can express."""
    maxl = {6: 0x1fffff, 10: 0xffffffff, 12: 0xffffffff, 16: 0xffffffffffffffff}[size]
    maxn = {6: 256, 10: 0xffff, 12: 0xffffffff, 16: 0xffffffff}[size]
    for _ in range(50):
        r = rng.random()
        if r < 0.35:
            l = max(0, nb - rng.randrange(0, 3))
            n = rng.randrange(1, 5) + (nb - l)
        elif r < 0.5:
            l, n = nb + rng.randrange(0, 3), rng.randrange(0, 3)
            if n == 0 and l == nb:
                n = 1
        elif r < 0.6:
            l, n = rng.randrange(nb), rng.choice([maxn, maxn - 1, maxn // 2 + 1, nb + 1])
        elif r < 0.7:
            l, n = 0, nb + 1
        else:
            l = rng.choice(EDGE64 + [maxl, maxl - 1, maxl - nb + 1])
            if l > maxl:
                continue
            if l > maxl - 70000 and rng.random() < 0.5:
                n = min(maxn, max(1, maxl + 1 - l + rng.choice([-1, 0, 1, nb, nb - 1])))
            else:
                n = rng.choice([1, 2, 8, 256])
            # an address whose byte offset wraps into the unit
            if size == 16 and rng.random() < 0.3:
                l = (1 << 64) // bs + rng.randrange(nb)
                n = 1
        if n > maxn or l > maxl or l < 0:
            continue
        if size == 6 and n == 0:
            continue
        if l + n > nb and not (n == 0 and l <= nb):
            return l, n
    return nb, 1


def pick_unit(w, rng, tgt):
    u = [x for x in w.units if x[0] == tgt]
    return rng.choice(u)


SIZES = {'read': (6, 10, 12, 16), 'write': (6, 10, 12, 16), 'wverify': (10, 12, 16), 'verify': (10, 12, 16),
         'wsame': (10, 16), 'orwrite': (16,), 'sync': (10, 16), 'prefetch': (10, 16)}


def block_cmd(w, rng, s, kinds, bad=0.0, pool=None, fua=0.15, over=0.15, bytchk=0.8, mx=16, under=0.0):
    """One block command of session s as a step."""
    tgt, so = w.sess[s]
    t, lun, store, nb, bs, thin = pick_unit(w, rng, tgt)
    k = rng.choice(kinds)
    size = rng.choice(SIZES[k])
    isbad = rng.random() < bad
    lo, n = badspan(rng, nb, size, bs) if isbad else span(rng, nb, mx)
    b1 = 0
    if size != 6:
        if k in ('write', 'wverify', 'orwrite', 'read') and rng.random() < fua:
            b1 |= 0x08
        if rng.random() < 0.1 and k != 'wsame':
            b1 |= 0x10
        if k in ('wverify', 'verify') and rng.random() < bytchk:
            b1 |= 0x02
        if k == 'wsame':
            b1 = 0x08 if thin and rng.random() < 0.3 else 0
    if not isbad and size != 6 and k not in ('wsame', 'sync') and rng.random() < 0.04 and lo < nb:
        n = 0
    if not isbad and k in ('wsame', 'sync') and rng.random() < 0.15 and nb - lo <= 64:
        n = 0
    cdb = C.rw(k, size, lo, n & 255 if size == 6 else n, b1)
    o = {'dir': 'n', 'edtl': 0}
    if k == 'read':
        if n > 0:
            e = min(n, 64) * bs
            r = rng.random()
            if r < over:
                e = max(0, e + rng.choice([-bs, bs, -4, 4, -1, 1, 3 * bs, -e + 4]))
            o = {'dir': 'r' if e else 'n', 'edtl': e}
    elif k in ('write', 'wverify', 'orwrite') or (k == 'verify' and b1 & 2) or k == 'wsame':
        m = 1 if k == 'wsame' else min(n, 64 if isbad else n)
        if m:
            toks = tokens(rng, m, pool)
            r = rng.random()
            if r < over:
                toks = toks + tokens(rng, rng.randrange(1, 4), pool)
            elif r < over + under and m > 1:
                toks = toks[:-1]
            o = {'dir': 'w', 'out': toks, 'edtl': len(toks) * bs}
            o.update(imm_opts(rng, len(toks) * bs, so))
    return ['cmd', s, lun, cdb.hex(), o]


def opens(w, rng, names=('s1', 's2', 's3'), tgts=None, plain=False):
    st = []
    for i, s in enumerate(names):
        t = (tgts or [T0, T1 if T1 in w.luns else T0, T0])[i % 3]
        so = sess_opt(rng, plain)
        w.sess[s] = (t, so)
        st.append(['open', s, t, so])
    return st


def dumps(w, dur=False):
    st = []
    for s in w.stores:
        st.append(['dump', s])
        if dur:
            st.append(['dur', s])
    return st


def readback(w, rng, s):
    """Read every block of every unit the session reaches."""
    tgt, so = w.sess[s]
    st = []
    for t, lun, store, nb, bs, thin in w.units:
        if t != tgt:
            continue
        lo = 0
        while lo < nb:
            n = min(nb - lo, 40)
            sz = rng.choice((6, 10, 12, 16))
            st.append(['cmd', s, lun, C.rw('read', sz, lo, n).hex(), {'dir': 'r', 'edtl': n * bs}])
            lo += n
    return st


def program(rng, n, kinds, bad=0.0, names=('s1', 's2', 's3'), relog=0.04, restart=0.0, dumpevery=8, dur=False, plain=False, extra=None, pool=None, **kw):
    w = World(rng)
    st = opens(w, rng, names, plain=plain)
    for i in range(n):
        s = rng.choice(names)
        r = rng.random()
        if r < relog:
            st.append(['close', s, rng.choice(ENDS)])
            so = sess_opt(rng, plain)
            w.sess[s] = (w.sess[s][0], so)
            st.append(['open', s, w.sess[s][0], so])
        elif r < relog + restart:
            st.append(['restart', 'clean'])
            st += [['open', x, w.sess[x][0], w.sess[x][1]] for x in names]
        else:
            e = extra(w, rng, s) if extra else None
            st += [block_cmd(w, rng, s, kinds, bad, pool, **kw)] if e is None else e
        if dumpevery and i % dumpevery == dumpevery - 1:
            st += dumps(w, dur)
    for s in names[:2]:
        st += readback(w, rng, s)
    st += dumps(w, dur)
    return {'cfg': {'luns': {t: {str(l): v for l, v in m.items()} for t, m in w.luns.items()}}, 'steps': st}


# ---- extras ------------------------------------------------------------------------------------------
def unmap_step(w, rng, s, bad=0.3):
    tgt, so = w.sess[s]
    t, lun, store, nb, bs, thin = pick_unit(w, rng, tgt)
    ds = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        if rng.random() < bad:
            r = rng.random()
            if r < 0.5:
                l, n = max(0, nb - rng.randrange(0, 3)), rng.randrange(1, 4) + 3
            elif r < 0.8:
                l, n = rng.choice(EDGE64), rng.choice([1, 2, 0xffffffff, nb])
            else:
                l, n = rng.randrange(nb), rng.choice([0xffffffff, 0x80000000, nb + 1])
        else:
            l, n = span(rng, nb)
        ds.append((l, n))
    body = b''.join(l.to_bytes(8, 'big') + n.to_bytes(4, 'big') + bytes(4) for l, n in ds)
    dl = len(body)
    r = rng.random()
    if r < 0.1 and ds:
        body = body[:-16]          # fewer descriptors than announced
    elif r < 0.15:
        body += bytes(16)
    p = (len(body) + 6).to_bytes(2, 'big') + dl.to_bytes(2, 'big') + bytes(4) + body
    ll = len(p)
    if rng.random() < 0.08:
        ll = rng.choice([0, 4, 7, 8])
        p = p[:ll]
    b1 = 1 if rng.random() < 0.08 else 0
    cdb = bytes([0x42, b1, 0, 0, 0, 0, 0]) + ll.to_bytes(2, 'big') + b'\0'
    o = {'dir': 'w', 'pbytes': p.hex(), 'edtl': len(p)} if p else {'dir': 'n', 'edtl': 0}
    return ['cmd', s, lun, cdb.hex(), o]


SUPPORTED = {0x00, 0x03, 0x04, 0x08, 0x0a, 0x12, 0x15, 0x16, 0x17, 0x1a, 0x1b, 0x1d, 0x1e, 0x25, 0x28, 0x2a, 0x2e, 0x2f, 0x34, 0x35, 0x41, 0x42, 0x55,
             0x5a, 0x5e, 0x5f, 0x88, 0x8a, 0x8b, 0x8e, 0x8f, 0x90, 0x91, 0x93, 0x9e, 0xa0, 0xa3, 0xa8, 0xaa, 0xae, 0xaf}


def badop_step(w, rng, s):
    tgt, so = w.sess[s]
    t, lun, store, nb, bs, thin = pick_unit(w, rng, tgt)
    op = rng.choice([x for x in range(256) if x not in SUPPORTED])
    n = 6 if op < 0x20 else 10 if op < 0x80 else 16
    cdb = bytes([op]) + bytes(rng.randrange(4) == 0 and rng.randrange(256) or 0 for _ in range(n - 1))
    if rng.random() < 0.4:
        toks = tokens(rng, rng.randrange(1, 3))
        return ['cmd', s, lun, cdb.hex(), {'dir': 'w', 'out': toks, 'edtl': len(toks) * bs}]
    if rng.random() < 0.5:
        return ['cmd', s, lun, cdb.hex(), {'dir': 'r', 'edtl': 512}]
    return ['cmd', s, lun, cdb.hex(), {'dir': 'n', 'edtl': 0}]


def badbits_step(w, rng, s):
    """A valid range with a bit the target does not support."""
    k = rng.choice(['read', 'write', 'wverify', 'verify', 'orwrite', 'wsame', 'wsame', 'sain', 'senddiag', 'readcap', 'format'])
    tgt, so = w.sess[s]
    t, lun, store, nb, bs, thin = pick_unit(w, rng, tgt)
    if k == 'sain':
        sa = rng.choice([x for x in range(32) if x not in (16, 18)])
        return ['cmd', s, lun, (bytes([0x9e, sa]) + bytes(11) + b'\x20\0\0').hex(), {'dir': 'r', 'edtl': 32}]
    if k == 'senddiag':
        return ['cmd', s, lun, bytes([0x1d, rng.choice([0, 4, 4, 0x10, 0x20]), 0, 0, 0, 0]).hex(), {'dir': 'n', 'edtl': 0}]
    if k == 'readcap':
        return ['cmd', s, lun, (bytes([0x25, 0, 0, 0, 0, 1, 0, 0, 0, 0])).hex(), {'dir': 'r', 'edtl': 8}]
    if k == 'format':
        return ['cmd', s, lun, bytes([4, rng.choice([0x80, 0x10, 1, 7, 0, 0, 0]), 0, 0, 0, 0]).hex(), {'dir': 'n', 'edtl': 0}]
    size = rng.choice([z for z in SIZES[k] if z != 6])
    lo, n = span(rng, nb)
    if k == 'wsame':
        b1 = rng.choice([0x20, 0x40, 0x80, 0xe0, 0x10, 0x18, 2, 4, 1] + ([] if thin else [8]))
    else:
        b1 = rng.choice([0x20, 0x40, 0x80, 0xe0, 0x60])
        if k == 'verify' and rng.random() < 0.5:
            b1 |= 2
    o = {'dir': 'n', 'edtl': 0}
    if k == 'read':
        o = {'dir': 'r', 'edtl': n * bs}
    elif k in ('write', 'wverify', 'orwrite', 'wsame') or b1 & 2:
        m = 1 if k == 'wsame' else n
        o = {'dir': 'w', 'out': tokens(rng, m), 'edtl': m * bs}
        o.update(imm_opts(rng, m * bs, so))
    return ['cmd', s, lun, C.rw(k, size, lo, n, b1).hex(), o]


def attr_step(w, rng, attrs=('ro', 'swp')):
    t, lun, store, nb, bs, thin = rng.choice(w.units)
    w.attr = getattr(w, 'attr', {})
    if w.attr.get(store) and rng.random() < 0.7:
        k, v = w.attr.pop(store)
        return ['attr', t, lun, k, not v]
    k = rng.choice(attrs)
    v = k != 'online'
    if store in w.attr:
        k, v = w.attr.pop(store)
        return ['attr', t, lun, k, not v]
    w.attr[store] = (k, v)
    return ['attr', t, lun, k, v]


def simple_step(w, rng, s, cdb, edtl=0):
    tgt, so = w.sess[s]
    t, lun, store, nb, bs, thin = pick_unit(w, rng, tgt)
    return ['cmd', s, lun, cdb.hex(), {'dir': 'r' if edtl else 'n', 'edtl': edtl}]


def edges(tier, rng):
    """Every command form at every boundary of the unit: exhaustive in (form, start, count) around the ends, plus the
    extremes of each field."""
    res = []
    for nb, shift, thin in ([(5, 9, False), (4, 12, True)] if tier == 'quick' else [(5, 9, False), (4, 12, True), (1, 9, False), (40, 9, True), (129, 9, False)]):
        bs = 1 << shift
        forms = [(k, z) for k in ('read', 'write', 'wverify', 'orwrite', 'wsame', 'verify', 'verify1', 'sync', 'prefetch') for z in SIZES[k.rstrip('1')]]
        for k, size in forms:
            kk = k.rstrip('1')
            maxl = {6: 0x1fffff, 10: 0xffffffff, 12: 0xffffffff, 16: 0xffffffffffffffff}[size]
            maxn = {6: 256, 10: 0xffff, 12: 0xffffffff, 16: 0xffffffff}[size]
            pts = [(l, n) for l in (0, nb - 1, nb, nb + 1) for n in (0, 1, 2, nb - 1, nb, nb + 1)]
            pts += [(maxl, 1), (maxl, 2), (maxl - 1, 2), (maxl - 1, 1), (0, maxn), (1, maxn), (nb - 1, maxn), (maxl, maxn), (maxl - maxn + 1, maxn),
                    (maxl - maxn + 2, min(maxn, maxl))]
            if size == 16:
                pts += [((1 << 64) // bs, 1), ((1 << 64) // bs + nb - 1, 1), ((1 << 63) // bs, 1), ((1 << 32) + 0, 1), (1 << 63, 1), ((1 << 64) - nb, nb),
                        ((1 << 64) - 1, 2), ((1 << 64) - nb + 1, nb), (1 << 32, nb), ((1 << 55), 1), ((1 << 54) - 1, 1)]
            if size >= 12:
                pts += [(0, (1 << 32) // bs), (0, (1 << 32) // bs + 1), (0, (1 << 31) // bs), (1, (1 << 31) // bs + 1), (0, 1 << 31)]
            w = World.__new__(World)
            st = [['open', 's1', T0, {}]]
            i = 0
            for l, n in pts:
                if l < 0 or l > maxl or n > maxn or n < 0 or (size == 6 and n == 0):
                    continue
                if n == 0 and l == nb:
                    continue
                m = 0 if kk in ('sync', 'prefetch', 'read') or k == 'verify' else 1 if kk == 'wsame' else min(n, nb + 1)
                b1 = 2 if k == 'verify1' else 0
                o = {'dir': 'n', 'edtl': 0}
                if m:
                    o = {'dir': 'w', 'out': [rng.randrange(1 << 24) for _ in range(m)], 'edtl': m * bs}
                elif kk == 'read' and n:
                    o = {'dir': 'r', 'edtl': min(n, nb + 2) * bs}
                st.append(['cmd', 's1', 0, C.rw(kk, size, l, n & 255 if size == 6 else n, b1).hex(), o])
                i += 1
                if i % 4 == 0 and k not in ('read', 'verify', 'prefetch', 'sync'):
                    st.append(['dump', 'a'])
            st.append(['dump', 'a'])
            res.append({'cfg': {'luns': {T0: {'0': {'store': 'a', 'blocks': nb, 'shift': shift, 'thin': thin, 'init': [7 + i for i in range(nb)]}}}}, 'steps': st})
        # every form on a unit that is write protected in one way or the other, or without medium, and afterwards no longer
        for attrs in (('ro',), ('swp',), ('online',), ('removable', 'online')):
            st = [['open', 's1', T0, {}]]
            for v in (True, False):
                for attr in attrs:
                    st.append(['attr', T0, 0, attr, v != (attr == 'online')])
                for kk, size in [(k, z) for k in ('write', 'wverify', 'orwrite', 'wsame', 'read', 'verify', 'sync', 'prefetch') for z in SIZES[k]] + \
                        [('unmap', 0), ('format', 0)] + [(x, 0) for x in ('tur', 'readcap10', 'readcap16', 'lbastatus') if len(attrs[0]) > 3]:
                    lo = rng.randrange(nb)
                    n = rng.randrange(1, nb - lo + 1)
                    if kk == 'unmap':
                        pb = C.unmap_data([(lo, n)])
                        st.append(['cmd', 's1', 0, C.unmap(len(pb)).hex(), {'dir': 'w', 'pbytes': pb.hex(), 'edtl': len(pb)}])
                    elif kk in ('tur', 'readcap10', 'readcap16', 'lbastatus'):
                        cdb, e = {'tur': (C.tur(), 0), 'readcap10': (C.readcap10(), 8), 'readcap16': (C.readcap16(), 32),
                                  'lbastatus': (bytes([0x9e, 18]) + lo.to_bytes(8, 'big') + bytes([0, 0, 0, 24, 0, 0]), 24)}[kk]
                        st.append(['cmd', 's1', 0, cdb.hex(), {'dir': 'r' if e else 'n', 'edtl': e}])
                    elif kk == 'format':
                        st.append(['cmd', 's1', 0, bytes(6).replace(b'\0', b'\4', 1).hex(), {'dir': 'n', 'edtl': 0}])
                    else:
                        m = 1 if kk == 'wsame' else n
                        o = {'dir': 'r', 'edtl': n * bs} if kk == 'read' else {'dir': 'n', 'edtl': 0} if kk in ('verify', 'sync', 'prefetch') else \
                            {'dir': 'w', 'out': [rng.randrange(1 << 24) for _ in range(m)], 'edtl': m * bs}
                        st.append(['cmd', 's1', 0, C.rw(kk, size, lo, n & 255 if size == 6 else n).hex(), o])
                    if v:
                        st.append(['dump', 'a'])
            st.append(['dump', 'a'])
            res.append({'cfg': {'luns': {T0: {'0': {'store': 'a', 'blocks': nb, 'shift': shift, 'thin': thin, 'init': [7 + i for i in range(nb)]}}}}, 'steps': st})
    return res


def faulty(rng, w, s, kinds, modes=('error', 'short', 'partial', 'error')):
    """A backend failure at a particular operation of one command."""
    st = block_cmd(w, rng, s, kinds, 0.0, over=0.1)
    tgt = w.sess[s][0]
    store = w.luns[tgt][st[2]]['store']
    op = rng.choice(['read', 'write', 'sync', 'any', 'any'])
    if int(st[3][:2], 16) in (0x34, 0x90):
        op = rng.choice(['read', 'advise', 'any'])
    f = {'op': op, 'nth': rng.choice([1, 1, 1, 2, 3]), 'mode': rng.choice(modes), 'count': rng.choice([1, 1, 2, 50])}
    return [['fault', store, [f]], st, ['nofault', store]]


def crashing(rng, w, s, kinds, names):
    st = block_cmd(w, rng, s, kinds, 0.0, over=0.0, fua=0.5)
    out = [['crashcmd', rng.choice([1, 1, 2, 2, 3, 4])] + st[1:]]
    return out + [['open', x, w.sess[x][0], w.sess[x][1]] for x in names]


def crash(w, names):
    return [['restart', 'crash']] + [['open', x, w.sess[x][0], w.sess[x][1]] for x in names]


def sync_step(w, rng, s, wide=0.5):
    tgt, so = w.sess[s]
    t, lun, store, nb, bs, thin = pick_unit(w, rng, tgt)
    size = rng.choice((10, 16))
    r = rng.random()
    if r < wide:
        lo, n = 0, rng.choice([0, nb])
    else:
        lo, n = span(rng, nb)
        if rng.random() < 0.2:
            n = 0
    return ['cmd', s, lun, C.rw('sync', size, lo, n, rng.choice([0, 0, 2])).hex(), {'dir': 'n', 'edtl': 0}]


# ---- units of any size ---------------------------------------------------------------------------------
LARGE = [(1 << 21) + 3, (1 << 20) + 5, (1 << 22) + 1, (1 << 23) + 9, (1 << 31) + 5, (1 << 32) - 1, (1 << 32) + 9, (1 << 33) + 1, (1 << 40) + 3, (1 << 50) - 1]
MAXLBA = {6: 0x1fffff, 10: 0xffffffff, 12: 0xffffffff, 16: 0xffffffffffffffff}


def large(rng, steps, kinds=('read', 'read', 'write', 'write', 'wverify', 'orwrite', 'wsame', 'verify'), bad=0.06, nb=None, fua=0):
    """Addresses that differ in one bit, and ranges at the borders of what the command forms and integers can say."""
    nb = nb or rng.choice(LARGE)
    shift = rng.choice([9, 9, 12])
    bs = 1 << shift
    luns = {T0: {0: {'store': 'a', 'blocks': nb, 'shift': shift, 'sparse': True}}}
    used = []
    st = [['open', 's1', T0, {}], ['open', 's2', T0, {'keys': [['InitialR2T', 'Yes'], ['MaxBurstLength', '4096'], ['FirstBurstLength', '1024']]}]]
    so = {'s1': {}, 's2': st[1][3]}
    borders = [1 << k for k in (8, 16, 20, 21, 24, 31, 32, 33, 40)] + [(1 << k) >> shift for k in (31, 32, 33, 40)]

    def addr():
        r = rng.random()
        if used and r < 0.3:
            return rng.choice(used)
        if used and r < 0.65:
            return rng.choice(used) ^ (1 << rng.randrange(nb.bit_length()))
        if r < 0.75:
            return rng.choice(borders) - rng.randrange(4)
        if r < 0.85:
            return nb - 1 - rng.randrange(4)
        return rng.randrange(nb) & rng.randrange(nb) if rng.random() < 0.3 else rng.randrange(min(nb, 1 << rng.randrange(1, 50)))
    for i in range(steps):
        s = rng.choice(['s1', 's2'])
        k = rng.choice(kinds)
        n = rng.choice([1, 1, 1, 2, 3, 5])
        if k == 'unmap':
            ds = []
            for _ in range(rng.choice([1, 2, 3])):
                lo = addr()
                n = rng.choice([1, 2, 1 << rng.randrange(33), nb - lo, (rng.choice(used or [nb]) - lo) + rng.randrange(3)])
                if lo < 0 or n < 0 or n >= 1 << 32:
                    lo, n = max(lo, 0), 1
                ds.append((min(lo, nb), max(0, min(n, nb - lo))) if rng.random() > bad else (lo, n))
            body = b''.join(a.to_bytes(8, 'big') + b.to_bytes(4, 'big') + bytes(4) for a, b in ds)
            p = (len(body) + 6).to_bytes(2, 'big') + len(body).to_bytes(2, 'big') + bytes(4) + body
            st.append(['cmd', s, 0, C.unmap(len(p)).hex(), {'dir': 'w', 'pbytes': p.hex(), 'edtl': len(p)}])
            if rng.random() < 0.7:
                st.append(['dump', 'a'])
            continue
        isbad = rng.random() < bad
        for _ in range(40):
            lo = addr()
            if isbad:
                lo = rng.choice([nb, nb - 1, nb + rng.randrange(1 << 10), nb << 1, rng.choice(EDGE64)])
                n = max(n, 2)
            if 0 <= lo and (lo + n <= nb) != isbad and lo + n < 1 << 64:
                break
        else:
            continue
        z = [x for x in SIZES[k] if lo <= MAXLBA[x]]
        if not z:
            continue
        size = z[0] if z[0] == 6 and rng.random() < 0.5 else rng.choice(z)
        if k == 'sync' and not isbad and rng.random() < 0.7:
            # ranges that end far away, at or next to a block that was written
            if used and rng.random() < 0.6:
                lo = max(0, rng.choice(used) - (1 << rng.randrange(20, 33)) + rng.randrange(3))
                size = 16
            n = rng.choice([0, nb - lo, (rng.choice(used or [nb]) - lo) + rng.randrange(3), 1 << rng.randrange(33)])
            if n < 0 or n >= 1 << (16 if size == 10 else 32) or lo + n > nb or (size == 10 and lo >> 32):
                n = 0
        elif not isbad:
            used.append(lo)
        b1 = 2 if k == 'verify' or (k == 'wverify' and rng.random() < 0.5) else 0
        if k in ('write', 'wverify', 'orwrite') and rng.random() < fua:
            b1 |= 8
        o = {'dir': 'n', 'edtl': 0}
        if k == 'read':
            o = {'dir': 'r', 'edtl': n * bs}
        elif k in ('write', 'wverify', 'orwrite', 'wsame', 'verify'):
            m = 1 if k == 'wsame' else n
            o = {'dir': 'w', 'out': tokens(rng, m, [0, 0, 5] if k == 'verify' else None), 'edtl': m * bs}
            o.update(imm_opts(rng, m * bs, so[s]))
        st.append(['cmd', s, 0, C.rw(k, size, lo, n, b1).hex(), o])
        if i % 12 == 11:
            st.append(['dump', 'a'])
        if fua and i % 2:
            st.append(['dur', 'a'])
    for lo in used[-30:]:
        z = [x for x in SIZES['read'] if lo <= MAXLBA[x]]
        st.append(['cmd', 's1', 0, C.rw('read', rng.choice(z), lo, 1).hex(), {'dir': 'r', 'edtl': bs}])
    st.append(['dump', 'a'])
    return {'cfg': {'luns': {t: {str(l): v for l, v in m.items()} for t, m in luns.items()}}, 'steps': st}


def counts(rng, scs, forms, each=6):
    """Commands on more blocks than 16 bits can count, or on as many as their form can say; the blocks are tiny so that the data stays small. Every form
    (kind, CDB size) of forms appears."""
    forms = list(forms)
    rng.shuffle(forms)
    forms.sort(key=lambda f: f[0] != 'wsame')
    res = []
    for q in range(scs):
        nb = rng.choice([65536, 65537, 65540, 65791, 66000, 70001])
        # up to 4 MiB, more than the target handles in one piece
        shift = [6, 3, 4][q % 3]
        bs = 1 << shift
        st = [['open', 's1', T0, {}], ['open', 's2', T0, {'keys': [['InitialR2T', 'Yes'], ['MaxRecvDataSegmentLength', '65536']]}]]
        mine = forms[q::scs] if scs <= len(forms) else rng.sample(forms, min(each, len(forms)))
        mem = [0] * nb
        for k, size in [('write', rng.choice([12, 16]))] + mine:
            n = min(nb, rng.choice([65536, 65537, nb, 65536 + 256, 65535 + rng.randrange(64)])) if size > 10 else {6: 256, 10: 65535}[size]
            lo = rng.choice([0, nb - n, rng.randrange(nb - n + 1)])
            b1 = 2 if k == 'verify' or (k == 'wverify' and rng.random() < 0.5) else rng.choice([0, 0, 8]) if k in ('write', 'orwrite') else 0
            o = {'dir': 'n', 'edtl': 0}
            if k == 'read':
                o = {'dir': 'r', 'edtl': n * bs}
            elif k != 'sync':
                v = rng.randrange(1, 60)
                out = [v] if k == 'wsame' else [v + (j * 7 >> 8) % 40 for j in range(n)]
                if k == 'verify':
                    out = mem[lo:lo + n]
                    if rng.random() < 0.7:
                        out[-1 - rng.randrange(n - (n & 0xffff) or 1)] ^= 64
                elif k == 'orwrite':
                    mem[lo:lo + n] = [x | y for x, y in zip(mem[lo:], out)]
                else:
                    mem[lo:lo + n] = out * n if k == 'wsame' else out
                o = {'dir': 'w', 'out': out, 'edtl': len(out) * bs}
            st.append(['cmd', rng.choice(['s1', 's2']), 0, C.rw(k, size, lo, n, b1).hex(), o])
            if rng.random() < 0.4:
                # the same number of blocks, one too far
                st.append(['cmd', 's1', 0, C.rw(k, size, nb - n + 1, n, b1).hex(), {'dir': 'n', 'edtl': 0} if k == 'sync' else
                           {'dir': 'r', 'edtl': n * bs} if k == 'read' else {'dir': 'w', 'out': [7] * len(out), 'edtl': len(out) * bs}])
        st.append(['dump', 'a'])
        res.append({'cfg': {'luns': {T0: {'0': {'store': 'a', 'blocks': nb, 'shift': shift, 'many': True}}}}, 'steps': st})
    return res


# ---- units on real files --------------------------------------------------------------------------------
def on_files(rng, sc, inject=False, errs=('EIO', 'ENOSPC', 'EIO')):
    """The same scenario with every unit on a file of its own; with inject, the operating system fails now and then."""
    for m in sc['cfg']['luns'].values():
        for v in m.values():
            v['file'] = True
    inj = []
    if inject:
        for call, p in (('pwrite64', 0.6), ('pread64', 0.6), ('fdatasync', 0.6), ('fsync', 0.3)):
            if rng.random() < p:
                inj.append('%s:error=%s:when=%d+%d' % (call, rng.choice(errs) if call == 'pwrite64' else 'EIO', rng.randrange(1, 9), rng.randrange(3, 14)))
    sc['cfg']['strace'] = {'inject': inj}
    sc['steps'] = [x for x in sc['steps'] if x[0] not in ('fault', 'nofault', 'crashat')]
    return sc


def on_remote(rng, sc):
    """The same scenario with one unit of each target served by a remote backing store."""
    n = {}
    for m in sc['cfg']['luns'].values():
        for v in m.values():
            n[v['store']] = n.get(v['store'], 0) + 1
    for m in sc['cfg']['luns'].values():
        c = [l for l, v in m.items() if n[v['store']] == 1]
        if c:
            m[rng.choice(c)]['remote'] = True
    return sc
