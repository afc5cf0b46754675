import cdb as C, gens as G
from run import Check, Part, MC
T0, T1 = G.T0, G.T1
ASPECTS = {'capacity', 'accepted-range', 'refused', 'data', 'stored', 'noresponse', 'nologin', 'dlen'}
NAMES = ('s1', 's2', 's3')
K = ['read', 'write', 'wverify', 'verify', 'orwrite', 'wsame', 'sync', 'prefetch']


def caps(rng, s, lun):
    if rng.random() < 0.5:
        return ['cmd', s, lun, C.readcap10().hex(), {'dir': 'r', 'edtl': 8}]
    a = rng.choice([32, 32, 12, 8, 16, 255])
    return ['cmd', s, lun, C.readcap16(a).hex(), {'dir': 'r', 'edtl': max(a, 32)}]


def gen_small(tier, rng):
    """Resize between small sizes with data in place."""
    res = []
    for _ in range(24 if tier == 'quick' else 400):
        w = G.World(rng)
        for t, m in w.luns.items():
            for v in m.values():
                v.pop('shift', None)
        # one size for all units: a resize changes every unit of the target
        st = G.opens(w, rng, NAMES, plain=True)
        w.units = [(t, l, s, nb, 512, th) for t, l, s, nb, bs, th in w.units]
        if any(len(v.get('init', [])) and v['blocks'] != len(v['init']) for m in w.luns.values() for v in m.values()):
            pass
        for i in range(40 if tier == 'quick' else 100):
            s = rng.choice(NAMES)
            r = rng.random()
            if r < 0.1:
                n = rng.choice([1, 2, 5, 8, 16, 17, 40, 100])
                grow = True
                st.append(['resize', n * 512, grow])
                w.units = [(t, l, x, n, bs, th) for t, l, x, nb, bs, th in w.units]
            elif r < 0.35:
                t, lun = G.pick_unit(w, rng, w.sess[s][0])[:2]
                st.append(caps(rng, s, lun))
            else:
                st.append(G.block_cmd(w, rng, s, K, bad=0.4, over=0.0, mx=6))
            if i % 6 == 5:
                st += G.dumps(w)
        for s in NAMES[:2]:
            st += G.readback(w, rng, s)
        st += G.dumps(w)
        res.append({'cfg': {'luns': {t: {str(l): v for l, v in m.items()} for t, m in w.luns.items()}}, 'steps': st})
    return res


def gen_huge(tier, rng):
    """Nominal sizes around the limits of the command forms."""
    res = []
    big = [1 << 16, (1 << 16) + 1, (1 << 21), (1 << 21) + 1, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 2, (1 << 32) - 1, 1 << 32, (1 << 32) + 1,
           (1 << 32) + 7, (1 << 33), (1 << 40) + 3, (1 << 52) - 1]
    for shift in (9, 12):
        bs = 1 << shift
        for half in range(2):
            st = [['open', 's1', T0, {}], ['open', 's2', T0, {}]]
            sizes = list(big)
            rng.shuffle(sizes)
            for nb in sizes[half::2]:
                if nb * bs >= 1 << 62:
                    continue
                st.append(['resize', nb * bs, False])
                for s in ('s1', 's2'):
                    st.append(['cmd', s, 0, C.readcap10().hex(), {'dir': 'r', 'edtl': 8}])
                    st.append(['cmd', s, 0, C.readcap16(32).hex(), {'dir': 'r', 'edtl': 32}])
                for k, size in [(k, z) for k in ('verify', 'prefetch', 'sync', 'read', 'write', 'wverify', 'orwrite') for z in G.SIZES[k]]:
                    maxl = {6: 0x1fffff, 10: 0xffffffff, 12: 0xffffffff, 16: 0xffffffffffffffff}[size]
                    for lo, n in ((nb - 1, 1), (nb - 2, 2), (nb, 1), (nb - 1, 2), (nb - 2, 1), (nb + 1, 1), (nb - 5, 4)):
                        if lo > maxl or rng.random() < 0.35:
                            continue
                        o = {'dir': 'r', 'edtl': n * bs} if k == 'read' else {'dir': 'n', 'edtl': 0}
                        if k in ('write', 'wverify', 'orwrite'):
                            o = {'dir': 'w', 'out': G.tokens(rng, n), 'edtl': n * bs}
                        st.append(['cmd', rng.choice(['s1', 's2']), 0, C.rw(k, size, lo, n).hex(), o])
            st.append(['dump', 'a'])
            res.append({'cfg': {'luns': {T0: {'0': {'store': 'a', 'blocks': 16, 'shift': shift, 'sparse': True}}}}, 'steps': st})
    return res


def gen_file(tier, rng):
    return [G.on_files(rng, sc) for sc in gen_small(tier, rng)[:10 if tier == 'quick' else 150]]


CHECK = Check('C18', [Part('small', 'sbc_exec', 'SbcTrace', ASPECTS, gen_small), Part('huge', 'sbc_exec', 'SbcTrace', ASPECTS, gen_huge),
                      Part('file', 'sbc_exec', 'SbcTrace', ASPECTS, gen_file)],
              mc=[MC('SbcMC', 'SbcMC1.cfg', 'range rules accept exactly the blocks of the unit')])
