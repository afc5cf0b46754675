import cdb as C, gens as G
from run import Check, Part, MC
ASPECTS = {'param-len', 'param-diff', 'param-form', 'param-refused', 'param-served', 'param-ops', 'sense', 'noresponse', 'nologin'}
VPD = [0, 0x80, 0x83, 0xb0, 0xb2]
MODE = [(2, 0), (8, 0), (0x0a, 0), (0x0a, 1), (0x1c, 0)]


def allocs(rng, full, wide=True):
    r = rng.random()
    if r < 0.35:
        return rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17])
    if r < 0.6:
        return max(0, full + rng.choice([-2, -1, 0, 1, 2]))
    if r < 0.8:
        return rng.randrange(0, full + 8)
    return rng.choice([255, 96, 252] + ([256, 257, 512, 1024, 4096, 65535] if wide else []))


def request(rng):
    k = rng.choice(['inq', 'vpd', 'vpd', 'vpd', 'm6', 'm6', 'm6', 'm10', 'm10', 'm10', 'cap', 'luns', 'ops', 'pr', 'other'])
    if k == 'inq':
        a = allocs(rng, 74)
        return C.inquiry(a, page=0 if rng.random() < 0.85 else rng.choice([1, 0x80, 0xff])), a
    if k == 'vpd':
        a = allocs(rng, rng.choice([8, 9, 40, 64, 100]))
        return C.inquiry(a, True, rng.choice(VPD) if rng.random() < 0.7 else rng.randrange(256)), a
    if k in ('m6', 'm10'):
        a = allocs(rng, rng.choice([12, 16, 24, 30, 120]), k == 'm10')
        pg, sub = (0x3f, rng.choice([0, 0, 0xff])) if rng.random() < 0.35 else rng.choice(MODE) if rng.random() < 0.65 else (rng.randrange(63), rng.choice([0, 0, 1, 2, 255]))
        pc = rng.choice([0, 0, 0, 1, 2, 2, 3] if rng.random() < 0.5 else [0])
        f = C.mode_sense6 if k == 'm6' else C.mode_sense10
        return f(pg, sub, min(a, 255) if k == 'm6' else a, rng.random() < 0.5, pc), a
    if k == 'cap':
        a = allocs(rng, 32)
        return C.readcap16(a if rng.random() < 0.95 else rng.choice([1 << 24, 1 << 31, (1 << 32) - 1])), a
    if k == 'luns':
        a = allocs(rng, 40)
        return C.report_luns(a if rng.random() < 0.95 else rng.choice([1 << 24, 1 << 31, (1 << 32) - 1])), a
    if k == 'ops':
        a = allocs(rng, rng.choice([76, 184]))
        return C.rsoc(0 if rng.random() < 0.85 else rng.randrange(1, 8), rng.randrange(256), alloc=a if rng.random() < 0.95 else (1 << 32) - 1,
                      rctd=rng.random() < 0.4), a
    if k == 'pr':
        a = allocs(rng, 8)
        return C.pr_in(2, a), a
    a = 0
    return rng.choice([C.tur(), C.readcap10()]), 8


def one(rng, s, lun, cdb, a):
    r = rng.random()
    e = max(a, 8) if r < 0.75 else rng.choice([0, 1, 3, 4, 5, 8, 16, a // 2, max(0, a - 1), a + 1, 4096]) if r < 0.95 else 65536
    if cdb[0] == 0:
        return ['cmd', s, lun, cdb.hex(), {'dir': 'n', 'edtl': 0}]
    return ['cmd', s, lun, cdb.hex(), {'dir': 'r', 'edtl': min(e, 70000), 'raw': True}]


def lists(rng, s, lun):
    return [['cmd', s, lun, c.hex(), {'dir': 'r', 'edtl': 4096, 'raw': True}] for c in
            (C.inquiry(255, True, 0), C.mode_sense10(0x3f, rng.choice([0, 0xff]), 1024), C.rsoc(alloc=2048))]


def gen(tier, rng):
    res = []
    for n in range(24 if tier == 'quick' else 300):
        # names of every length: the descriptors that carry them are as long
        T0, T1 = ['iqn.2026-01.verif:' + 'n' * rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 30, 31, 32, 33, 99, 150, 203, 204, 205]) + c for c in 'ab']
        na = rng.choice([1, 7, 64, 4096])
        luns = {T0: {0: {'store': 'a', 'blocks': na}, 1: {'store': 'b', 'blocks': rng.choice([2, 9]), 'shift': rng.choice([9, 12]), 'thin': True}},
                T1: {0: {'store': 'c', 'blocks': 3}}}
        if n % 3 == 0:
            luns[T0] = {0: luns[T0][1] | {'store': 'a'}}
        if rng.random() < 0.4:
            luns[T1][rng.choice([3, 200, 256, 300])] = dict(luns[T0][0])
        for l in rng.sample(range(2, 500), rng.choice([0, 0, 3, 12])):
            luns[T0][l] = {'store': 'z%d' % l, 'blocks': 1}
        units = [(t, l) for t, m in luns.items() for l in sorted(m)[:4]]
        names = [('s%d' % k, T0 if k < 3 else T1) for k in range(1, 5)]
        st = [['open', s, t, G.sess_opt(rng)] for s, t in names]
        for t, l in units:
            s = rng.choice([x for x, y in names if y == t])
            if rng.random() < 0.8:
                st += lists(rng, s, l)
        for k in range(150 if tier == 'quick' else 400):
            s, t = rng.choice(names)
            l = rng.choice([b for a, b in units if a == t])
            r = rng.random()
            if r < 0.02:
                st.append(['resize', 512 * 8 * rng.choice([1, 2, 3, 1000, 1 << 21, 1 << 30, (1 << 32) - 1, 1 << 32]), False])
            elif r < 0.05:
                st.append(['attr', t, l, rng.choice(['ro', 'swp', 'removable', 'online', 'online']), rng.random() < 0.5])
                st += lists(rng, s, l)
            elif r < 0.08:
                # a page at a time, with every length
                c, _ = request(rng)
                for a in sorted(rng.sample(range(0, 80), 12)):
                    c2 = bytearray(c)
                    if c[0] == 0x12:
                        c2[3:5] = a.to_bytes(2, 'big')
                    elif c[0] == 0x1a:
                        c2[4] = a
                    elif c[0] == 0x5a:
                        c2[7:9] = a.to_bytes(2, 'big')
                    elif c[0] == 0x9e:
                        c2[10:14] = a.to_bytes(4, 'big')
                    elif c[0] in (0xa0, 0xa3):
                        c2[6:10] = a.to_bytes(4, 'big')
                    st.append(one(rng, s, l, bytes(c2), a))
            else:
                st.append(one(rng, s, l, *request(rng)))
        res.append({'cfg': {'luns': {t: {str(l): v for l, v in m.items()} for t, m in luns.items()}}, 'steps': st})
    return res


CHECK = Check('C27', [Part('param', 'sbc_exec', 'ParamTrace', ASPECTS, gen)],
              mc=[MC('ParamMC', 'ParamMC1.cfg', 'every answer is the beginning of the complete data and asking again with the announced length gets all')],
              assumptions=['parameter data may change only when a unit attribute, its size or the LUN map changes'])
