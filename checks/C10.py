import cdb as C, gens as G
from run import Check, Part, MC
W = ['write', 'read', 'verify', 'sync', 'wsame', 'orwrite', 'wverify', 'prefetch']
NAMES = ('s1', 's2', 's3')
ASPECTS = {'noconflict', 'conflict', 'stored', 'noresponse', 'nologin', 'busy', 'badstatus', 'notfreed', 'race'}


def form(rng, reserve):
    """RESERVE(6) or RELEASE(6). The target reserves units, not extents, and for nobody else: what the initiator writes
    into the fields of those obsolete features makes no difference."""
    f = C.reserve6 if reserve else C.release6
    if rng.random() < 0.5:
        return f()
    return f(rng.choice([0, 1, 2, 0x10, 0x11, 0x12, 0x1e, 0x1f, 0xe0]), rng.choice([0, 1, 0xff]), rng.choice([0, 0, 8, 0x100]))


def resv(w, rng, s):
    tgt, so = w.sess[s]
    t, lun, store, nb, bs, thin = G.pick_unit(w, rng, tgt)
    return ['cmd', s, lun, form(rng, rng.random() < 0.6).hex(), {'dir': 'n', 'edtl': 0}]


def extra(w, rng, s):
    r = rng.random()
    if r < 0.3:
        return [resv(w, rng, s)]
    if r < 0.36:
        return [G.unmap_step(w, rng, s, 0.0)]
    if r < 0.5:
        tgt = w.sess[s][0]
        t, lun, store, nb, bs, thin = G.pick_unit(w, rng, tgt)
        cdb, e = rng.choice([(C.inquiry(), 96), (C.request_sense(), 252), (C.report_luns(), 256), (C.start_stop(), 0), (C.format_unit(), 0),
                             (C.start_stop(True, False), 0), (C.tur(), 0), (C.readcap10(), 8), (C.readcap16(), 32)])
        return [['cmd', s, lun, cdb.hex(), {'dir': 'r' if e else 'n', 'edtl': e}]]
    if r < 0.54:
        tgt = w.sess[s][0]
        t, lun, store, nb, bs, thin = G.pick_unit(w, rng, tgt)
        return [['reset_lu', s, lun]]
    if r < 0.58:
        tgt = w.sess[s][0]
        t, lun, store, nb, bs, thin = G.pick_unit(w, rng, tgt)
        return [['tmf', s, lun, rng.choice([1, 2, 3, 4, 4, 6, 7, 8])]]
    return None


def gen_wide(tier, rng):
    n, k = (32, 60) if tier == 'quick' else (400, 160)
    return [G.program(rng, k, W, bad=0.03, relog=0.05, extra=extra, dumpevery=6, plain=True) for _ in range(n)]


def gen_spec(tier, rng):
    n, depth, cfg = (16, 41, 'SbcGenR1.cfg') if tier == 'quick' else (300, 121, 'SbcGenR2.cfg')
    res = G.from_tlc(rng, cfg, n, depth, rng.randrange(1 << 30), na=2, nb=2, dumps=5, plain=True, names=('s1', 's2', 's3'))
    return res


def gen_maps(tier, rng):
    """Units that several targets share or that are unmapped and mapped again while they are reserved: the reservation
    belongs to the unit and ends with its session, whatever the map says at that time."""
    res = []
    T0, T1 = G.T0, G.T1
    for _ in range(14 if tier == 'quick' else 200):
        devs = ['d0', 'd1', 'd2']
        size = {d: rng.randrange(2, 7) for d in devs}
        cur = {T0: {0: 'd0', 1: 'd1'}, T1: {0: 'd1', 3: 'd2'}}
        if rng.random() < 0.5:
            cur[T1][2] = 'd0'
        luns = {t: {n: {'store': d, 'blocks': size[d], 'init': [7] * size[d]} for n, d in m.items()} for t, m in cur.items()}
        tg = {'s1': T0, 's2': T0, 's3': T1, 's4': T1}
        st = [['open', s, t, {}] for s, t in tg.items()]
        for i in range(50 if tier == 'quick' else 120):
            s = rng.choice(sorted(tg))
            t = tg[s]
            r = rng.random()
            if r < 0.1:
                n = rng.choice([0, 1, 2, 3])
                if n in cur[t]:
                    if len(cur[t]) > 1 or rng.random() < 0.3:
                        del cur[t][n]
                        st.append(['map', t, n, None])
                else:
                    cur[t][n] = rng.choice(devs)
                    st.append(['map', t, n, cur[t][n]])
                continue
            if r < 0.2:
                st += [['close', s, rng.choice(G.ENDS)], ['open', s, t, {}]]
                continue
            if not cur[t]:
                continue
            n = rng.choice(sorted(cur[t]))
            nb = size[cur[t][n]]
            if r < 0.5:
                st.append(['cmd', s, n, form(rng, rng.random() < 0.75).hex(), {'dir': 'n', 'edtl': 0}])
            elif r < 0.54:
                st.append(['reset_lu', s, n] if rng.random() < 0.6 else ['tmf', s, n, rng.choice([1, 2, 3, 4, 4, 6, 7, 8])])
            elif r < 0.8:
                st.append(['cmd', s, n, C.rw('write', rng.choice((6, 10, 12, 16)), rng.randrange(nb), 1).hex(), {'dir': 'w', 'out': G.tokens(rng, 1), 'edtl': 512}])
            else:
                st.append(['cmd', s, n, C.rw('read', rng.choice((6, 10, 12, 16)), 0, nb).hex(), {'dir': 'r', 'edtl': 512 * nb}])
            if i % 10 == 9:
                st += [['dump', d] for d in devs]
        res.append({'cfg': {'luns': {t: {str(l): v for l, v in m.items()} for t, m in luns.items()}}, 'steps': st})
    return res


def gen_races(tier, rng):
    """Sessions of one or two targets that reserve, release and use the same units at the same time, and end in the middle of it."""
    res = []
    T0, T1 = G.T0, G.T1
    for _ in range(20 if tier == 'quick' else 300):
        luns = {T0: {0: {'store': 'a', 'blocks': 2, 'init': [7, 8]}, 1: {'store': 'b', 'blocks': 2, 'init': [5, 6]}}, T1: {}}
        two = rng.random() < 0.5
        if two:
            luns[T1][0] = dict(luns[T0][0])
        tg = {'s1': T0, 's2': T0, 's3': T1 if two else T0, 's4': T1 if two else T0}
        st = [['open', s, t, {}] for s, t in tg.items()]
        for _ in range(30 if tier == 'quick' else 80):
            who = rng.sample(sorted(tg), rng.choice([2, 3, 3, 4]))
            one = rng.random() < 0.6
            items, over = [], []
            for s in who:
                ops = []
                for _ in range(rng.randrange(1, 6)):
                    lun = 0 if one or tg[s] == T1 else rng.choice([0, 1])
                    k = rng.random()
                    c, n = (form(rng, k < 0.45), 0) if k < 0.7 else (C.tur(), 0) if k < 0.85 else (C.rw('read', 10, 0, 1), 512)
                    ops.append([lun, c.hex(), n])
                gone = rng.random() < 0.2
                items.append([s, ops, gone])
                if gone:
                    over.append(s)
            st.append(['race', items])
            st += [['open', s, tg[s], {}] for s in over]
            # who has it now
            for s in rng.sample(sorted(tg), 2):
                st.append(['cmd', s, 0, C.tur().hex(), {'dir': 'n', 'edtl': 0}])
            if rng.random() < 0.4:
                st += [['cmd', s, l, C.release6().hex(), {'dir': 'n', 'edtl': 0}] for s in sorted(tg) for l in ((0, 1) if tg[s] == T0 else (0,))]
        res.append({'cfg': {'luns': {t: {str(l): v for l, v in m.items()} for t, m in luns.items()}}, 'steps': st})
    return res


CHECK = Check('C10', [Part('wide', 'sbc_exec', 'SbcTrace', ASPECTS, gen_wide), Part('spec', 'sbc_exec', 'SbcTrace', ASPECTS, gen_spec),
                      Part('maps', 'sbc_exec', 'SbcTrace', ASPECTS, gen_maps),
                      Part('races', 'sbc_exec', 'SbcTrace', ASPECTS, gen_races, procs=3)],
              mc=[MC('SbcMC', 'SbcMC2.cfg', 'exclusion and lifetime of reservations, two sessions and two units')])
