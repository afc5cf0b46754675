import cdb as C, gens as G
from run import Check, Part, MC
T0, T1 = G.T0, G.T1
ASPECTS = {'accepted-lun', 'sense-lun', 'luns', 'stored', 'data', 'refused', 'noresponse', 'nologin', 'capacity', 'dlen'}
NAMES = ('s1', 's2', 's3')
POOL = [0, 1, 2, 3, 5, 7, 15, 16, 63, 64, 100, 127, 128, 200, 255, 256, 257, 300, 511, 512, 1000, 4095, 8191, 16383]


def wire(rng, n):
    """The eight LUN bytes for number n in one of the forms the target understands, or a form it does not."""
    if n < 256:
        return n
    return [bytes([0x40 | n >> 8, n & 255, 0, 0, 0, 0, 0, 0]).hex(), str(n)]


def odd(rng, mapped):
    """Addressing forms that name no mapped unit."""
    n = rng.choice(sorted(mapped))
    b = rng.choice([bytes([0, n & 255, 0, 0, 0, 0, 0, 1]), bytes([0, n & 255, 0, 1, 0, 0, 0, 0]), bytes([1, n & 255, 0, 0, 0, 0, 0, 0]),
                    bytes([0x80, n & 255, 0, 0, 0, 0, 0, 0]), bytes([0xc0, n & 255, 0, 0, 0, 0, 0, 0]), bytes([0xc1, 1, 0, 0, 0, 0, 0, 0]),
                    bytes([0x3f, n & 255, 0, 0, 0, 0, 0, 0]), bytes([0x40, n & 255, 0, 5, 0, 0, 0, 0]), bytes(range(1, 9)), b'\xff' * 8,
                    bytes([0, n & 255, 0, 0, 0, 0, 1, 0]), bytes([0x10, n & 255, 0, 0, 0, 0, 0, 0])])
    return [b.hex(), 'x' + b.hex()]


def gen(tier, rng):
    res = []
    for _ in range(36 if tier == 'quick' else 500):
        nd = rng.choice([2, 3, 4, 6])
        sizes = {'d%d' % i: rng.choice([1, 2, 3, 4, 5, 6, 7]) + 10 * i for i in range(nd)}
        luns = {T0: {}, T1: {}}
        for t in (T0, T1):
            for n in rng.sample(POOL, rng.randrange(0 if t == T1 else 1, 5)):
                d = rng.choice(sorted(sizes))
                luns[t][n] = {'store': d, 'blocks': sizes[d]}
        if rng.random() < 0.7:
            d = rng.choice(sorted(sizes))    # some devices have more than one number
            luns[T0][0] = {'store': d, 'blocks': sizes[d]}
        used = {v['store'] for m in luns.values() for v in m.values()}
        for d in sorted(sizes):        # every device is reachable somewhere at first
            if d not in used:
                n = rng.choice([x for x in POOL if x not in luns[T1]])
                luns[T1][n] = {'store': d, 'blocks': sizes[d]}
        for m in luns.values():
            for v in m.values():
                v['init'] = [1000 * (int(v['store'][1:]) + 1) + k for k in range(v['blocks'])]
        cur = {t: {n: v['store'] for n, v in m.items()} for t, m in luns.items()}
        st = [['open', 's1', T0, {}], ['open', 's2', T1, {}], ['open', 's3', T0, {}]]
        tg = {'s1': T0, 's2': T1, 's3': T0}
        for i in range(40 if tier == 'quick' else 120):
            s = rng.choice(NAMES)
            t = tg[s]
            r = rng.random()
            if r < 0.02 and cur[t]:      # all of a map
                for n in sorted(cur[t]):
                    st.append(['map', t, n, None])
                cur[t] = {}
                continue
            if r < 0.12:
                n = rng.choice(POOL + sorted(cur[t]) * 6)
                if n in cur[t] and rng.random() < 0.7:
                    del cur[t][n]
                    st.append(['map', t, n, None])
                elif n not in cur[t]:
                    d = rng.choice(sorted(sizes))
                    cur[t][n] = d
                    st.append(['map', t, n, d])
                continue
            mapped = sorted(cur[t])
            q = rng.random()
            if q < 0.6 and mapped:
                n = rng.choice(mapped)
                lun = wire(rng, n)
                nb = sizes[cur[t][n]]
            elif q < 0.75 and mapped:
                lun, nb = odd(rng, mapped), 3
            else:
                n = rng.choice([x for x in POOL if x not in cur[t]] + [x + 256 for x in mapped if x + 256 not in cur[t] and x + 256 < 16384] +
                               [x % 256 for x in mapped if x % 256 not in cur[t]])
                lun, nb = wire(rng, n), 3
            k = rng.random()
            if k < 0.3:
                m = rng.randrange(1, min(nb, 3) + 1)
                lo = rng.randrange(nb - m + 1)
                st.append(['cmd', s, lun, C.rw('write', rng.choice((6, 10, 12, 16)), lo, m).hex(), {'dir': 'w', 'out': G.tokens(rng, m), 'edtl': m * 512}])
            elif k < 0.6:
                m = rng.randrange(1, min(nb, 3) + 1)
                lo = rng.randrange(nb - m + 1)
                st.append(['cmd', s, lun, C.rw('read', rng.choice((6, 10, 12, 16)), lo, m).hex(), {'dir': 'r', 'edtl': m * 512}])
            elif k < 0.7:
                st.append(['cmd', s, lun, C.readcap10().hex(), {'dir': 'r', 'edtl': 8}])
            elif k < 0.75:
                st.append(['cmd', s, lun, C.tur().hex(), {'dir': 'n', 'edtl': 0}])
            elif k < 0.8:
                st.append(['cmd', s, lun, C.inquiry().hex(), {'dir': 'r', 'edtl': 96}])
            elif k < 0.95:
                a = rng.choice([16, 24, 4096, 256])
                st.append(['cmd', s, rng.choice([0, lun]), C.report_luns(a, rng.choice([0, 2])).hex(), {'dir': 'r', 'edtl': a}])
            else:
                # one-block write through an unmapped number to provoke aliasing
                st.append(['cmd', s, lun, C.rw('wsame', 10, 0, 1).hex(), {'dir': 'w', 'out': G.tokens(rng, 1), 'edtl': 512}])
            if i % 5 == 4:
                st += [['dump', d] for d in sorted(sizes)]
        st += [['dump', d] for d in sorted(sizes)]
        res.append({'cfg': {'luns': {t: {str(n): v for n, v in m.items()} for t, m in luns.items()}}, 'steps': st})
    return res


def crowd(rng):
    """More targets than a byte counts, each with a map of its own."""
    n = rng.choice([262, 290, 330])
    sizes = {'d%d' % i: i + 1 for i in range(9)}
    luns = {}
    for i in range(n):
        ds = rng.sample(sorted(sizes), rng.choice([1, 1, 2]))
        luns[T0 if i == 0 else T0 + '.%d' % i] = {x: {'store': d, 'blocks': sizes[d]} for x, d in zip(rng.sample([0, 1, 3, 255, 300], len(ds)), ds)}
    # and targets with many units
    for i in rng.sample(range(n), 3):
        t = T0 if i == 0 else T0 + '.%d' % i
        for x in [0] * rng.choice([0, 1, 1]) + rng.sample(range(256), rng.choice([32, 33, 64, 200])):
            d = rng.choice(sorted(sizes))
            luns[t].setdefault(x, {'store': d, 'blocks': sizes[d]})
    for m in luns.values():
        for v in m.values():
            v['init'] = [1000 * sizes[v['store']] + k for k in range(v['blocks'])]
    st = []
    order = sorted(luns)
    rng.shuffle(order)
    # within reach of one another when a number of a target loses its upper bits
    for k, t in enumerate(order):
        s = 'n%d' % k
        st.append(['open', s, t, {}])
        for x in sorted(luns[t]):
            st.append(['cmd', s, wire(rng, x), C.readcap10().hex(), {'dir': 'r', 'edtl': 8}])
        if k % 3 == 0:
            x = rng.choice(sorted(luns[t]))
            st.append(['cmd', s, wire(rng, x), C.rw('write', 10, 0, 1).hex(), {'dir': 'w', 'out': G.tokens(rng, 1), 'edtl': 512}])
        if k % 3 == 1 or len(luns[t]) > 2:
            st.append(['cmd', s, 0, C.report_luns(4096, 0).hex(), {'dir': 'r', 'edtl': 4096}])
            st.append(['cmd', s, 0, C.report_luns(256, 0).hex(), {'dir': 'r', 'edtl': 256}])
        if k % 40 == 39:
            x = [x for x in (0, 2, 7, 256) if x not in luns[t]][0]
            d = rng.choice(sorted(sizes))
            st += [['map', t, x, d], ['cmd', s, wire(rng, x), C.readcap10().hex(), {'dir': 'r', 'edtl': 8}]]
            st += [['dump', d] for d in sorted(sizes)]
        st.append(['close', s])
    st += [['dump', d] for d in sorted(sizes)]
    return {'cfg': {'luns': {t: {str(x): v for x, v in m.items()} for t, m in luns.items()}}, 'steps': st}


def gen_crowd(tier, rng):
    return [crowd(rng) for _ in range(1 if tier == 'quick' else 6)]


CHECK = Check('C12', [Part('maps', 'sbc_exec', 'SbcTrace', ASPECTS, gen), Part('crowd', 'sbc_exec', 'SbcTrace', ASPECTS, gen_crowd)],
              mc=[MC('SbcMC', 'SbcMC2.cfg', 'commands reach exactly the unit they address')])
