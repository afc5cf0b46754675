import gens as G, tlc
from run import Check, Part, MC
T0, T1 = G.T0, G.T1
ASPECTS = {'pr-status', 'pr-gen', 'pr-keys', 'pr-resv', 'pr-len', 'sense', 'noresponse', 'nologin', 'pr-race'}
Z = '0' * 16
NAMES = ('s1', 's2', 's3', 's4', 't1')


def conf(rng):
    luns = {T0: {'0': {'store': 'a', 'blocks': 2}, '1': {'store': 'b', 'blocks': 2}}, T1: {'0': {'store': 'a', 'blocks': 2}}}
    if rng.random() < 0.5:
        luns[T0]['2'] = {'store': 'a', 'blocks': 2}
    return {'luns': luns}


def look(rng, s, lun):
    return ['prin', s, lun, rng.choice([0, 0, 1, 1]), rng.choice([8, 16, 24, 24, 32, 64, 255, 256, 4096, 4096, 4096, 65535, 40, 20, 4])]


def full(s, lun):
    return [['prin', s, lun, 0, 4096], ['prin', s, lun, 1, 4096]]


def replay(rng, num):
    res = []
    for hist in tlc.simulate('PrGen', 'PrGen1.cfg', num, 80, rng.randrange(1 << 30))[:num]:
        st = [['open', s, T0, {}] for s in NAMES[:4]]
        seen = {}
        for h in hist:
            st.append(['prout', h['s'], 0, h['sa'], {k: h[k] for k in ('key', 'sark', 'type', 'scope', 'unreg')}])
            w = rng.choice(NAMES[:4])
            st += [['prin', w, 0, 0, 4096], ['prin', w, 0, 1, 4096]] if rng.random() < 0.7 else [look(rng, w, 0)]
            if rng.random() < 0.15:
                st.append(look(rng, w, 1))
        res.append({'cfg': conf(rng), 'steps': st + full('s1', 0) + full('s2', 1)})
    return res


class U:
    """Just enough of the state to choose requests that matter."""

    def __init__(self):
        self.regs, self.holder, self.type = {}, None, 0


def wild(rng, tier):
    cfg = conf(rng)
    units = {(t, l): t + m['store'] for t, ml in cfg['luns'].items() for l, m in ml.items()}
    us = {}
    st = [['open', s, T1 if s[0] == 't' else T0, {}] for s in NAMES]
    names = list(NAMES)
    pool = ['%016x' % rng.getrandbits(64) for _ in range(3)] + ['0000000000000001', 'ffffffffffffffff', '8000000000000000']
    if rng.random() < 0.25:      # everyone has the same key
        pool = pool[:1]
    extra = 0
    for _ in range(60 if tier == 'quick' else 160):
        s = rng.choice(names)
        t = T1 if s[0] == 't' else T0
        lun = rng.choice([int(l) for (tt, l) in units if tt == t])
        lun = 0 if rng.random() < 0.6 else lun
        u = us.setdefault(units[t, str(lun)], U())
        own = u.regs.get(s, Z)
        key = own if rng.random() < 0.85 else rng.choice(pool + [Z])
        others = [k for x, k in u.regs.items() if x != s]
        r = rng.random()
        o = {'key': key, 'sark': rng.choice(pool), 'type': rng.choice([1, 3, 5, 6, 7, 8])}
        if s not in u.regs and r < 0.6 or r < 0.2:
            sa = rng.choice([0, 0, 6])
            if rng.random() < 0.3:
                o['sark'] = Z
            elif others and rng.random() < 0.3:
                o['sark'] = rng.choice(others)
            if sa == 6 or key == own:
                if o['sark'] == Z:
                    u.regs.pop(s, None)
                    if u.holder == s or not u.regs:
                        u.holder = None
                else:
                    u.regs[s] = o['sark']
        elif r < 0.45:
            sa = 1
            if u.holder and rng.random() < 0.4:
                o['type'] = u.type
            if rng.random() < 0.1:
                o['type'] = rng.choice([0, 2, 4, 9, 15])
            elif s in u.regs and key == own and not u.holder:
                u.holder, u.type = s, o['type']
        elif r < 0.6:
            sa = 2
            if u.holder and rng.random() < 0.8:
                o['type'] = u.type
                if key == own and (u.holder == s or u.type > 6):
                    u.holder = None
        elif r < 0.68:
            sa = 3
            if rng.random() < 0.5:
                o['key'] = rng.choice(pool)
            if s in u.regs and o['key'] == own:
                u.regs.clear()
                u.holder = None
        elif r < 0.85:
            sa = 4
            q = rng.random()
            o['sark'] = rng.choice(others) if others and q < 0.75 else Z if q < 0.85 else rng.choice(pool)
            if o['sark'] == own:        # preempting oneself without holding the reservation: left open
                continue
            if s in u.regs and key == own:
                if u.holder and (u.regs.get(u.holder) == o['sark'] or u.type > 6 and o['sark'] == Z):
                    u.holder, u.type = s, o['type']
                for x in [x for x, k in u.regs.items() if k == o['sark'] and x != s]:
                    del u.regs[x]
                    if x == u.holder:
                        u.holder = None
        elif r < 0.93:
            sa = 7
            if len(others) != len(set(others)) or own in others or not others:
                continue
            o['sark'] = rng.choice(others)
            o['unreg'] = rng.random() < 0.5
            if rng.random() < 0.1:
                o['sark'] = Z
            if s in u.regs and key == own and u.holder == s and o['sark'] != Z:
                u.holder = [x for x, k in u.regs.items() if k == o['sark'] and x != s][0]
                if o['unreg']:
                    del u.regs[s]
        elif r < 0.97:
            sa = rng.choice([0, 1, 2, 3, 4, 6])
            if rng.random() < 0.5:
                o['len'] = rng.choice([0, 8, 16, 23, 25, 28, 32])
            else:
                o['flags'] = rng.choice([1, 4, 8, 12]) if sa in (0, 6) else 0
                if not o['flags']:
                    continue
        else:
            if extra < 2 and rng.random() < 0.5:
                # sessions come and go; what they registered stays with the name they had
                v = rng.choice(names)
                if len([x for x in names if x[0] == v[0]]) > 1:
                    names.remove(v)
                    st.append(['close', v])
                    nm = 's' + str(5 + extra)
                    extra += 1
                    names.append(nm)
                    st.append(['open', nm, T0, {}])
            continue
        if rng.random() < 0.06:
            # a unit gets one more number, or loses one, and stays what it is
            n = rng.choice([4, 5, 200])
            if (t, str(n)) in units:
                if n != lun:
                    del units[t, str(n)]
                    st.append(['map', t, n, None])
            else:
                d = rng.choice([m['store'] for m in cfg['luns'][t].values()])
                units[t, str(n)] = t + d
                st.append(['map', t, n, d])
                st += full(s, n)
        st.append(['prout', s, lun, sa, o])
        w = rng.choice(names)
        wl = lun if w[0] == s[0] or w[0] != 't' and t == T0 else 0
        if rng.random() < 0.8:
            st += [['prin', w, wl, 0, 4096], ['prin', w, wl, 1, 4096]]
        else:
            st.append(look(rng, w, wl))
    for w in ([n for n in names if n[0] == 's'][:1]):
        st += full(w, 0) + full(w, 1)
    return {'cfg': cfg, 'steps': st}


def leaving(rng):
    """Reservations of every type, whose registrants leave one after the other; keys may be those of others."""
    st = [['open', s, T0, {}] for s in NAMES[:4]]
    for typ in rng.sample([1, 3, 5, 6, 7, 8, 7, 8], 8):
        pool = ['%016x' % rng.getrandbits(64) for _ in range(rng.choice([1, 1, 2, 3]))]
        lun = rng.choice([0, 1])
        who = rng.sample(NAMES[:4], rng.choice([2, 3, 4]))
        own = {s: rng.choice(pool) for s in who}
        for s in who:
            st.append(['prout', s, lun, 6, {'sark': own[s]}])
        st.append(['prout', rng.choice(who), lun, 1, {'key': own[who[0]], 'type': typ}])
        st.append(['prout', who[0], lun, 1, {'key': own[who[0]], 'type': typ}])
        st += full(who[0], lun)
        rng.shuffle(who)
        for k, s in enumerate(who):
            st.append(['prout', s, lun, rng.choice([0, 6]), {'key': own[s], 'sark': Z}])
            st += full(rng.choice(NAMES[:4]), lun)
            if k + 1 < len(who) and rng.random() < 0.2:      # back again
                st.append(['prout', s, lun, 0, {'sark': own[s]}])
                st += full(s, lun)
                st.append(['prout', s, lun, 0, {'key': own[s], 'sark': Z}])
    return {'cfg': conf(rng), 'steps': st}


def races(rng, tier):
    """Sessions that send their requests at the same time."""
    cfg = conf(rng)
    names = ['s1', 's2', 's3', 's4']
    st = [['open', s, T0, {}] for s in names]
    for _ in range(25 if tier == 'quick' else 80):
        lun = rng.choice([0, 0, 1])
        pool = ['%016x' % rng.getrandbits(64) for _ in range(rng.choice([2, 4]))]
        kind = rng.choice(['reg', 'reg', 'resv', 'mix', 'mix'])
        who = rng.sample(names, rng.choice([2, 3, 3, 4]))
        own = {}
        if rng.random() < 0.7:
            # from a known beginning
            st.append(['prout', who[0], lun, 6, {'sark': pool[0]}])
            st.append(['prout', who[0], lun, 3, {'key': pool[0]}])
            if kind != 'reg':
                for s in names:
                    own[s] = rng.choice(pool)
                    st.append(['prout', s, lun, 6, {'sark': own[s]}])
                if rng.random() < 0.4:
                    s = rng.choice(names)
                    st.append(['prout', s, lun, 1, {'key': own[s], 'type': rng.choice([1, 3, 5, 6, 7, 8])}])
        typ = rng.choice([1, 3, 5, 6, 7, 8])
        items = []
        for s in who:
            ops, mine = [], own.get(s, Z)
            for _ in range(rng.randrange(1, 7 if len(who) < 4 else 5)):
                sa = rng.choice({'reg': [0, 6, 6], 'resv': [1, 1, 2], 'mix': [0, 6, 1, 2, 3, 4]}[kind])
                o = {'key': mine if rng.random() < 0.9 else rng.choice(pool), 'type': typ if rng.random() < 0.8 else rng.choice([1, 3, 5, 6, 7, 8])}
                if sa in (0, 6):
                    o['sark'] = rng.choice(pool + [Z]) if rng.random() < 0.8 else '%016x' % rng.getrandbits(64)
                    mine = o['sark']
                elif sa == 4:
                    o['sark'] = rng.choice(pool)
                    if o['sark'] == o['key']:       # preempting oneself without holding the reservation: left open
                        continue
                ops.append([sa, o])
            if ops:
                items.append([s, lun, ops])
        st.append(['prace', items])
        st += full(rng.choice(names), lun)
    return {'cfg': cfg, 'steps': st}


def gen_races(tier, rng):
    return [races(rng, tier) for _ in range(24 if tier == 'quick' else 300)]


def gen(tier, rng):
    q = tier == 'quick'
    return replay(rng, 24 if q else 300) + [leaving(rng) for _ in range(4 if q else 60)] + [wild(rng, tier) for _ in range(32 if q else 500)]


CHECK = Check('C11', [Part('pr', 'pr_exec', 'PrTrace', ASPECTS, gen),
                      Part('races', 'pr_exec', 'PrTrace', ASPECTS, gen_races, procs=3)],
              mc=[MC('PrMC', 'PrMC1.cfg', 'three sessions, three keys: every history of persistent reservation requests keeps the rules of PrMC'),
                  MC('PrMC', 'PrMC2.cfg', 'four sessions, three keys', 'thorough')])
