"""Scenarios about connecting, logging in, sessions, discovery and the life of the service."""
import random
import tlc
P = 'iqn.2026-01.verif:'
LO = ['127.0.0.1', '127.0.0.2', '127.0.0.3', '127.0.0.4']
ALIKE = [a % h for h in LO[:2] for a in ('%s:%%POR%%', '%s', '%s:', '%s:%%PORT%%0', '%s:0%%PORT%%', ' %s:%%PORT%%', '%s:%%PORT%% ', '0%s:%%PORT%%', '%s:3260')]
ALIKE += ['127.0.0:%PORT%', '27.0.0.1:%PORT%', '127.0.0.:%PORT%', ':%PORT%', '%PORT%', '127.0.0.1:%ORT%', '[::ffff:127.0.0.1]:%PORT%', '']
INIS = [P + 'ini', P + 'ini2', P + 'INI', 'iqn.x']


def hello(ini=INIS[0], isid=0x800000000001, **kw):
    r = {'csg': 0, 'nsg': 1, 'T': False, 'isid': isid, 'kv': [['InitiatorName', ini], ['AuthMethod', 'None']]}
    r.update(kw)
    return r


def full(tgt, ini=INIS[0], isid=0x800000000001, tsih=0, cid=0, csg=1, extra=(), **kw):
    """A request that completes a login (tgt None: a discovery session)."""
    kv = [['InitiatorName', ini]] + ([['SessionType', 'Normal'], ['TargetName', tgt]] if tgt else [['SessionType', 'Discovery']])
    if csg == 0:
        kv.append(['AuthMethod', 'None'])
    r = {'csg': csg, 'nsg': 3, 'T': True, 'isid': isid, 'tsih': tsih, 'cid': cid, 'kv': kv + [list(k) for k in extra]}
    r.update(kw)
    return r


def world(rng, nt=None, nport=None, block=False, cluster=False):
    nport = nport or rng.choice([1, 2, 3])
    portals = ['%s:%%PORT%%' % a for a in LO[:nport]]
    tg = {}
    for i in range(nt or rng.choice([1, 2, 2, 3])):
        # every portal in at most one group of a target
        ps = [k for k in range(nport) if rng.random() < 0.75] or [rng.randrange(nport)]
        rng.shuffle(ps)
        gs = {}
        for k in ps:
            g = rng.choice(['1', '2', '7', '1', '2', '257', '512', '65535'])
            gs.setdefault(g, []).append(k)
        if rng.random() < 0.1:
            gs['9'] = []
        tg[P + 't%d' % i] = {'tpgts': gs, 'dev': rng.choice(['d0', 'd1', 'd%d' % i])}
    if rng.random() < 0.5:
        # addresses like those that are in use
        for d in rng.sample(ALIKE, rng.choice([1, 2, 3])):
            t = rng.choice(sorted(tg))
            g = rng.choice(sorted(tg[t]['tpgts']))
            if rng.random() < 0.5 and len([k for ps in tg[t]['tpgts'].values() for k in ps if k < nport]) > 1:
                tg[t]['tpgts'][g] = tg[t]['tpgts'][g][1:]
            tg[t]['tpgts'][g].append(len(portals))
            portals.append(d)
    sc = {'portals': portals, 'targets': tg, 'steps': []}
    if block:
        sc['block'] = True
    if cluster:
        sc['cluster'] = rng.choice(['10.0.0.9:3260', '127.0.0.1:%PORT%', '[fe80::1]:3260'])
    return sc


def at(sc, tgt, rng=None, right=True):
    """An address that is (not) a portal of the target."""
    mine = {k for ps in sc['targets'][tgt]['tpgts'].values() for k in ps}
    mine = {sc['portals'][k] for k in mine}
    c = [a for a in LO if ('%s:%%PORT%%' % a in mine) == right]
    return (rng or random).choice(c) if c else None


# ---------------------------------------------------------------- C08: what it takes to get in
def dialog(rng, sc, c):
    """A login dialog with right and wrong turns."""
    names = sorted(sc['targets'])
    st = []
    tgt = rng.choice(names)
    dst = at(sc, tgt, rng, rng.random() < 0.8) or LO[0]
    st.append(['connect', c, {'dst': dst, 'cmdsn': rng.choice([1, 1, 0, 77, 0x7fffffff, 0xffffffff])}, None])
    isid = 0x800000000000 + rng.randrange(1, 4)
    if rng.random() < 0.25:
        st.append(early(rng, c))
        if rng.random() < 0.5:
            return st
    mode = rng.choice(['normal'] * 5 + ['disc'] * 2)
    tname = tgt
    q = rng.random()
    if q < 0.08:
        tname = rng.choice([P + 'nobody', tgt.upper(), tgt[:-1], tgt + 'x', '', tgt + ':', ' ' + tgt, '0', 'All'])
    elif q < 0.12:
        tname = None
    if q > 0.97:
        mode = 'odd'
    who = [['InitiatorName', rng.choice(INIS)]]
    ty = {'normal': [['SessionType', 'Normal']] if rng.random() < 0.8 else [], 'disc': [['SessionType', 'Discovery']],
          'odd': [['SessionType', rng.choice(['normal', 'DISCOVERY', 'Boot', '', 'Discovery,Normal'])]]}[mode]
    tn = [['TargetName', tname]] if tname is not None and (mode != 'disc' or rng.random() < 0.3) else []
    meth = ['CHAP', 'SRP', 'KRB5', 'SPKM1', 'SPKM2', 'X-com.verif.None', 'Nonesuch', 'none']
    rng.shuffle(meth)
    auth = [['AuthMethod', 'None']]
    if rng.random() < 0.4:      # None anywhere in a list
        k = rng.randrange(1, 6)
        auth = [['AuthMethod', ','.join(meth[:k][:rng.randrange(k + 1)] + ['None'] + meth[k:][:rng.randrange(3)])]]
    if rng.random() < 0.16:     # and lists without it
        auth = [['AuthMethod', rng.choice(['CHAP', 'none', 'NONE', 'None2', '', ','.join(meth[:rng.randrange(1, 7)]), ','.join(meth[:rng.randrange(2, 9)]), ','.join(meth[:3])])]]
    ident = who + ty + tn
    plan = rng.choice(['sec0+1', 'sec1+op', 'op', 'sec3', 'secN', 'opN', 'jump', 'back', 'forever'])
    cs = rng.random()
    cont = {'split': sorted(rng.sample(range(1, 60), rng.choice([1, 2, 3])))} if cs < 0.2 else {}

    def req(csg, nsg, t, kv, **kw):
        r = {'csg': csg, 'nsg': nsg, 'T': t, 'isid': isid, 'kv': [list(k) for k in kv]}
        r.update(kw)
        return ['login', c, r]
    if plan == 'sec0+1':
        st += [req(0, 1, False, ident + auth, **cont), req(0, 1, True, [['X-com.verif', 'a=b']]), req(1, 3, True, [])]
    elif plan == 'sec1+op':
        late = rng.random() < 0.3
        st += [req(0, 1, True, who + auth if late else ident + auth, **cont), req(1, 3, True, ident if late or rng.random() < 0.5 else [])]
    elif plan == 'op':
        st += [req(1, 3, True, ident, **cont)]
    elif plan == 'sec3':
        st += [req(0, 3, True, ident + auth, **cont)]
    elif plan == 'secN':
        st += [req(0, 0, False, ident + auth, **cont)] + [req(0, rng.choice([0, 1, 3]), False, []) for _ in range(rng.choice([1, 3, 6]))] + [req(0, rng.choice([1, 3]), True, [])]
        st += [req(1, 3, True, [])]
    elif plan == 'opN':
        st += [req(1, rng.choice([0, 1, 3]), False, ident, **cont)] + [req(1, 3, False, [['MaxOutstandingR2T', '1']])] + [req(1, 3, True, [])]
    elif plan == 'jump':
        st += [req(rng.choice([0, 1, 2, 3]), rng.choice([0, 1, 2, 3]), rng.random() < 0.8, ident + (auth if rng.random() < 0.5 else []))]
        if rng.random() < 0.5:
            st += [req(rng.choice([0, 1]), 3, True, [])]
    elif plan == 'back':
        st += [req(0, 1, True, ident + auth), req(0, rng.choice([1, 3]), True, ident), req(1, 3, True, [])]
    else:
        st += [req(0, 1, False, ident + auth)] * rng.choice([2, 5])
    # a change of mind about who is addressed
    if rng.random() < 0.1:
        k = rng.randrange(1, len(st))
        if st[k][0] == 'login' and not st[k][2].get('split'):
            o = rng.choice([['TargetName', rng.choice(names + [P + 'nobody'])], ['SessionType', rng.choice(['Normal', 'Discovery'])]])
            if all(x[0] != o[0] for x in st[k][2]['kv']):
                st[k][2]['kv'].append(o)
    if rng.random() < 0.3:
        st.insert(rng.randrange(2, len(st) + 1), early(rng, c))
    return st


def early(rng, c):
    k = rng.choice(['cmd', 'write', 'write', 'tmf', 'dataout', 'nop', 'text', 'snack'])
    o = {'imm': rng.random() < 0.4}
    if k == 'write':
        o.update(lba=rng.randrange(8), tok=rng.randrange(5000, 6000))
    if k == 'cmd':
        o.update(rng.choice([{'cdb': '12000000600000', 'edtl': 96}, {'cdb': '28000000000000000100', 'edtl': 512}, {'cdb': 'a00000000000000010000000', 'edtl': 4096},
                             {'cdb': '25000000000000000000', 'edtl': 8}, {'cdb': '000000000000', 'edtl': 0}, {'cdb': '160000000000', 'edtl': 0}]))
        o['cdb'] = o['cdb'][:12] if len(o['cdb']) == 14 else o['cdb']
    if k == 'tmf':
        o['func'] = rng.choice([1, 2, 4, 5, 6, 7])
    return ['req', c, k, o]


def probe(rng, sc, c):
    """What can be done on a connection, whatever became of it."""
    st = []
    for _ in range(rng.choice([1, 2, 3])):
        r = rng.random()
        if r < 0.3:
            st.append(early(rng, c))
            if st[-1][2] in ('dataout', 'snack'):
                st[-1] = ['req', c, 'cmd', {}]
            if st[-1][2] == 'write':
                st[-1] = ['write', c, rng.randrange(8), rng.randrange(1, 4000)]
        elif r < 0.5:
            st.append(['write', c, rng.randrange(8), rng.randrange(1, 4000)])
        elif r < 0.7:
            st.append(['read', c, rng.randrange(8)])
        elif r < 0.85:
            st.append(['text', c, rng.choice(['All', '', sorted(sc['targets'])[0]])])
        else:
            st.append(['ping', c])
    return st


def entry(rng, tier):
    sc = world(rng)
    names = sorted(sc['targets'])
    st = []
    # one session that watches the contents
    w = rng.choice(names)
    st += [['connect', 'w', {'dst': at(sc, w, rng)}, None], ['login', 'w', full(w, P + 'watch')]]
    st += [['write', 'w', k, 100 + k] for k in range(8)]
    for n in range(8 if tier == 'quick' else 14):
        c = 'c%d' % n
        st += dialog(rng, sc, c)
        if rng.random() < 0.75:
            st += probe(rng, sc, c)
        if rng.random() < 0.1:
            # a login request in the full feature phase
            st += [['login', c, full(rng.choice(names))], ['ping', c]]
        st += [['read', 'w', k] for k in rng.sample(range(8), 2)]
        if rng.random() < 0.3:
            st.append(rng.choice([['drop', c], ['logout', c]]))
        if rng.random() < 0.3:
            st.append(['list'])
    st += [['read', 'w', k] for k in range(8)] + [['list']]
    sc['steps'] = st
    return sc


def alike(rng):
    """Targets whose only portals have addresses like those that are in use."""
    sc = {'portals': [LO[0] + ':%PORT%'] + list(ALIKE), 'targets': {P + 't0': {'tpgts': {'1': [0]}, 'dev': 'd0'}}, 'steps': []}
    for i in range(len(ALIKE)):
        sc['targets'][P + 't%d' % (i + 1)] = {'tpgts': {'1': [i + 1]}, 'dev': 'd%d' % (i % 2)}
    st, n = sc['steps'], 0
    for t in sorted(sc['targets']):
        for dst in LO[:2]:
            c = 'c%d' % n
            n += 1
            st += [['connect', c, {'dst': dst, 'cmdsn': 1}, None], ['login', c, full(t, isid=0x800000000000 + n)], ['ping', c]]
    return sc


CDBS = [('120000006000', 96), ('a00000000000000010000000', 4096), ('28000000000000000100', 512), ('25000000000000000000', 8), ('000000000000', 0),
        ('160000000000', 0), ('170000000000', 0), ('03000000fc00', 252), ('5e000000000000010000', 256), ('1b0000000000', 0), ('1a003f00ff00', 255),
        ('35000000000000000000', 0), ('41000000000000000100', 0), ('9e100000000000000000000000200000', 32)]


def phases(rng):
    """Every request that is not for the state a connection is in, one after the other."""
    res = []
    ks = [('cmd', {'cdb': c, 'edtl': e, 'imm': i}) for c, e in CDBS for i in (False, True)] + [('write', {'lba': 1, 'tok': 5007, 'imm': i}) for i in (False, True)]
    ks += [('tmf', {'func': f, 'imm': i}) for f in (1, 2, 5, 6, 7) for i in (False, True)] + [('dataout', {})]
    for phase in ('none', 'security', 'operational', 'discovery'):
        sc = {'portals': [LO[0] + ':%PORT%'], 'targets': {P + 't0': {'tpgts': {'1': [0]}, 'dev': 'd0'}}, 'steps': []}
        st = sc['steps']
        k = [('nop', {}), ('text', {}), ('snack', {})] if phase != 'discovery' else []
        for i, (kind, o) in enumerate(ks + k):
            c = 'c%d' % i
            st.append(['connect', c, {'cmdsn': 1}, None])
            if phase == 'security':
                st.append(['login', c, hello(isid=0x800000000001 + i)])
            elif phase == 'operational':
                st.append(['login', c, {'csg': 1, 'nsg': 3, 'T': False, 'isid': 0x800000000001 + i,
                                        'kv': [['InitiatorName', INIS[0]], ['SessionType', 'Normal'], ['TargetName', P + 't0']]}])
            elif phase == 'discovery':
                st.append(['login', c, full(None, isid=0x800000000001 + i)])
            st += [['req', c, kind, dict(o)], ['ping', c], ['drop', c]]
        st += [['connect', 'z', {'cmdsn': 1}, None], ['login', 'z', full(P + 't0', isid=0x800000000900)], ['read', 'z', 1], ['list']]
        res.append(sc)
    return res


# ---------------------------------------------------------------- C09: sessions
def sessions(rng, tier):
    sc = world(rng, nt=rng.choice([1, 2, 3]))
    names = sorted(sc['targets'])
    st, live = [], []
    inis = INIS[:2] if rng.random() < 0.6 else INIS
    isids = [0x800000000001, 0x800000000002, 0x1, 0x800000000101]
    if rng.random() < 0.6:       # that differ in a single bit of the 48
        isids[1:] = [isids[0] ^ (1 << k) for k in rng.sample(range(48), 3)]
    n = 0
    for _ in range(26 if tier == 'quick' else 70):
        r = rng.random()
        if r < 0.55 or not live:
            c = 'c%d' % n
            n += 1
            disc = rng.random() < 0.12
            tgt = rng.choice(names)
            ini, isid, cid = rng.choice(inis), rng.choice(isids), rng.choice([0, 0, 0, 1])
            tsih = 0
            q = rng.random()
            if q < 0.22 and live:
                o = rng.choice(live)
                tsih = o[0] if rng.random() < 0.8 else rng.choice([1, 2, 5, 0xfffe, 0xffff])
                if rng.random() < 0.75:
                    tgt, ini, isid, cid = o[1:]
                    if rng.random() < 0.25:
                        cid ^= 1
            elif q < 0.45 and live:
                _, tgt, ini, isid, cid = rng.choice(live)
            st.append(['connect', c, {'dst': at(sc, tgt, rng), 'cmdsn': rng.choice([1, 5, 0xfffffff0])}, None])
            if rng.random() < 0.3:
                st.append(['login', c, hello(ini, isid, tsih=tsih, cid=cid)])
            f = full(None if disc else tgt, ini, isid, tsih, cid, csg=rng.choice([0, 1, 1]))
            if st[-1][0] == 'login' and f['csg'] == 1:
                f['csg'] = 1
            st.append(['login', c, f])
            if not disc:
                live.append((c, tgt, ini, isid, cid))
            if rng.random() < 0.5:
                for o in rng.sample(live, min(len(live), 3)):
                    st.append(['ping', o[0]] if rng.random() < 0.6 else ['write', o[0], rng.randrange(4), rng.randrange(1, 999)])
        elif r < 0.65:
            # several at once for the same or neighbouring nexuses
            k = rng.choice([2, 2, 3])
            tgt, ini = rng.choice(names), rng.choice(inis)
            dst = at(sc, tgt, rng)
            same = rng.random() < 0.7
            it, cs = [], []
            for j in range(k):
                c = 'c%d' % n
                n += 1
                isid = isids[0] if same else rng.choice(isids[:2])
                st.append(['connect', c, {'dst': dst}, None])
                it.append([c, full(tgt, ini, isid)])
                cs.append((c, tgt, ini, isid, 0))
            st.append(['race', it])
            st += [['ping', c[0]] for c in cs]
            live += cs
        elif r < 0.8:
            o = live.pop(rng.randrange(len(live)))
            st.append(rng.choice([['drop', o[0]], ['logout', o[0]]]))
        elif r < 0.9:
            st.append(['list'])
        else:
            o = rng.choice(live)
            st.append(rng.choice([['ping', o[0]], ['read', o[0], rng.randrange(4)], ['req', o[0], 'cmd', {}]]))
    st.append(['list'])
    for o in live:
        st.append(['ping', o[0]])
    for o in live:
        st.append(rng.choice([['drop', o[0]], ['logout', o[0]]]))
    st.append(['list'])
    sc['steps'] = st
    return sc


# ---------------------------------------------------------------- C16: one host at a time
def hosts(rng, tier):
    sc = world(rng, nt=rng.choice([1, 2]), block=rng.random() < 0.85)
    names = sorted(sc['targets'])
    st, live, n = [], [], 0         # live: (name, host)
    hs = ['127.0.0.1', '127.0.0.2', '127.0.0.11', '127.0.1.1']

    def opts(h, retry=False):
        t = rng.choice(names)
        return t, dict({'src': h, 'dst': at(sc, t, rng)}, **({'retry': 1} if retry else {}))

    def newname():
        nonlocal n
        n += 1
        return 'c%d' % n
    if rng.random() < 0.5:
        it = []
        two = rng.sample(hs, 2)
        for j in range(rng.choice([2, 3, 4, 5])):
            c = newname()
            h = rng.choice(two)
            it.append([c, opts(h)[1], hello(isid=0x800000000000 + n)])
        st.append(['crace', it])
        st += [['ping', c] for c, _, _ in []]
        # whoever came first: end them all
        st += [['drop', it[k][0]] for k in range(len(it))]
    for _ in range(30 if tier == 'quick' else 80):
        cur = {h for _, h in live} if sc.get('block') else set()
        r = rng.random()
        if r < 0.34:
            h = rng.choice(sorted(cur)) if cur and rng.random() < 0.8 else rng.choice(hs)
            if cur and h not in cur:
                continue
            c = newname()
            t, o = opts(h, retry=not cur and bool(sc.get('block')))
            st.append(['connect', c, o, hello(isid=0x800000000000 + n)])
            live.append((c, h))
            q = rng.random()
            if q < 0.6:
                st.append(['login', c, full(t, isid=0x800000000000 + n)])
            elif q < 0.75:
                st.append(['login', c, full(None, isid=0x800000000000 + n)])
        elif r < 0.62:
            # somebody else knocks
            other = [h for h in hs if h not in cur]
            if not cur or not other:
                continue
            for _ in range(rng.choice([1, 1, 3])):
                c = newname()
                st.append(['connect', c, opts(rng.choice(other))[1], hello(isid=0x800000000000 + n)])
        elif r < 0.85 and live:
            k = rng.randrange(len(live))
            c, h = live.pop(k)
            st.append(rng.choice([['drop', c], ['logout', c]]))
        elif live:
            c, h = rng.choice(live)
            st.append(rng.choice([['ping', c], ['text', c, 'All']]) if rng.random() < 0.5 else ['list'])
            if st[-1][0] in ('ping', 'text'):
                st.pop()
                st.append(['list'])
    sc['steps'] = st
    return sc


def reinst_hosts(rng, tier):
    """A host whose session is replaced, or whose logins fail, still counts exactly its open connections."""
    sc = world(rng, nt=1, block=True)
    t = sorted(sc['targets'])[0]
    a, b = rng.sample(['127.0.0.1', '127.0.0.2', '127.0.0.33'], 2)
    d = at(sc, t, rng)
    st, n = [], 0
    for rnd in range(6 if tier == 'quick' else 16):
        x, y = (a, b) if rng.random() < 0.5 else (b, a)
        cs = []
        for k in range(rng.choice([1, 2, 3])):
            n += 1
            c = 'c%d' % n
            st.append(['connect', c, {'src': x, 'dst': d, 'retry': 1}, hello()])
            cs.append(c)
            q = rng.random()
            if q < 0.7:
                # all of them are one nexus: each replaces the one before
                st.append(['login', c, full(t)])
            elif q < 0.8:
                st.append(['login', c, full(P + 'nobody')])
                st.append(['over', c])
                cs.pop()
        n += 1
        if cs:
            st.append(['connect', 'x%d' % n, {'src': y, 'dst': d}, hello()])
            st.append(['login', cs[-1], full(t)])
            st.append(['connect', 'y%d' % n, {'src': y, 'dst': d}, hello()])
        rng.shuffle(cs)
        for c in cs:
            st.append(rng.choice([['drop', c], ['logout', c]]))
    sc['steps'] = st
    return sc


# ---------------------------------------------------------------- C13: discovery
def discovery(rng, tier):
    np = rng.choice([1, 2, 3, 4])
    portals = ['%s:%%PORT%%' % a for a in LO[:np]]
    more = ['192.168.%d.%d:%d' % (rng.randrange(256), rng.randrange(256), rng.choice([3260, 860, 65535])) for _ in range(rng.choice([0, 1, 4, 12]))]
    portals += list(dict.fromkeys(more))
    if rng.random() < 0.3:
        portals.append(rng.choice(['[::1]:3260', '[2001:db8::1]:%PORT%', 'storage.example.com:3260']))
    ids = rng.sample(range(0, 500), len(portals)) if rng.random() < 0.7 else list(range(len(portals)))
    if rng.random() < 0.3:
        ids = [k * 10 + 1 for k in range(len(portals))]
    nt = rng.choice([0, 1, 2, 3, 5, 12, 40]) if rng.random() < 0.8 else rng.choice([60, 120])
    tg = {}
    for i in range(nt):
        gs, free = {}, list(range(len(portals)))
        rng.shuffle(free)
        for g in rng.sample(['1', '2', '3', '10', '256', '65535', '12'], rng.choice([1, 1, 2, 3])):
            k = rng.choice([0, 1, 1, 2, 3])
            gs[g], free = free[:k], free[k:]
        tg[rng.choice([P + 't%d', 'iqn.2016-09.com.gostor:%d:x', 'eui.%016X', P + 'All%d', P + 'a.very.long.name.of.a.target.' * 3 + '%d']) % i] = {'tpgts': gs, 'dev': 'd%d' % (i % 3)}
    if not tg:
        tg = {}
    sc = {'portals': portals, 'ids': ids, 'targets': tg, 'steps': []}
    if rng.random() < 0.3:
        sc['cluster'] = rng.choice(['10.0.0.9:3260', '127.0.0.1:%PORT%', '[fe80::1]:3260'])
    if rng.random() < 0.5:
        o = sorted(tg)
        rng.shuffle(o)
        sc['order'] = o
    st = []
    names = sorted(tg)
    ok = [t for t in names if any(k < np for ps in tg[t]['tpgts'].values() for k in ps)]
    use = None
    if ok:
        use = rng.choice(ok)
        d = LO[rng.choice([k for ps in tg[use]['tpgts'].values() for k in ps if k < np])]
        st += [['connect', 'n', {'dst': d}, None], ['login', 'n', full(use, P + 'norm')], ['write', 'n', 1, 11], ['write', 'n', 2, 12]]
    for n in range(3 if tier == 'quick' else 6):
        c = 'd%d' % n
        st += [['connect', c, {'dst': LO[rng.randrange(4)], 'cmdsn': rng.choice([1, 9, 0xffffffff])}, None],
               ['login', c, full(None, rng.choice(INIS), csg=rng.choice([0, 1]))]]
        for _ in range(rng.choice([1, 2, 4])):
            q = rng.random()
            v = 'All' if q < 0.5 else rng.choice(names) if names and q < 0.8 else rng.choice([P + 'nobody', 'all', 'ALL', 'iqn', '', P] + ([names[0][:-1], names[0] + '0', names[0].upper()] if names else []))
            if v in tg or v in ('All',) or v not in names:
                st.append(['text', c, v])
        if use and rng.random() < 0.5:
            st += [['read', 'n', rng.choice([1, 2])], ['text', 'n', rng.choice(['', use])]]
        if use and rng.random() < 0.4:
            st += [['req', c, rng.choice(['cmd', 'write', 'tmf', 'dataout']), {'lba': 1, 'tok': 999}]]
        if rng.random() < 0.15:
            st.append(['cluster', rng.choice(['', '10.1.1.1:3260'])])
        if rng.random() < 0.25:
            g = {rng.choice(['1', '4']): rng.sample(range(len(portals)), 1)}
            st.append(['newtarget', P + 'new%d' % n, g, True])
            st.append(['text', c, 'All'])
        if rng.random() < 0.25:
            # with a portal there is not
            st.append(['newtarget', P + 'broken%d' % n, {'1': [rng.choice([77, 78])]}, False])
            st += [['text', c, 'All'], ['text', c, P + 'broken%d' % n]]
        if rng.random() < 0.5:
            st.append(rng.choice([['logout', c], ['drop', c]]))
    if use:
        st += [['read', 'n', 1], ['read', 'n', 2], ['list']]
    sc['steps'] = st
    return sc


# ---------------------------------------------------------------- C22: the service
def service(rng, tier):
    sc = world(rng, nt=rng.choice([1, 2, 3]), nport=rng.choice([1, 2]))
    names = sorted(sc['targets'])
    conf = {t: v['tpgts'] for t, v in sc['targets'].items()}
    st, n, live = [], 0, []

    def login(ini=None):
        nonlocal n
        n += 1
        c = 'c%d' % n
        t = rng.choice(names)
        st.append(['connect', c, {'dst': at(sc, t, rng)}, None])
        st.append(['login', c, full(t, ini or rng.choice(INIS), 0x800000000000 + rng.choice([n, n, 1]))])
        live.append(c)
        return c
    toks = iter(range(100, 9000))
    for rnd in range(3 if tier == 'quick' else 7):
        for _ in range(rng.choice([1, 2, 3])):
            c = login()
            st.append(['write', c, rng.randrange(6), next(toks)])
        for _ in range(rng.choice([1, 2])):
            q = rng.random()
            nm = rng.choice(names + [P + 'extra%d' % rnd])
            g = {rng.choice(['1', '3']): [rng.randrange(len(sc['portals']))]}
            st.append(['newtarget', nm, g, True] if q < 0.85 else ['newtarget', P + 'broken%d' % rnd, {'1': [rng.choice([77, 78])]}, False])
            st.append(['list'])
            if nm in names:
                # the first one is intact
                c = login()
                st += [['read', c, rng.randrange(6)], ['read', live[0], rng.randrange(6)]]
        if rng.random() < 0.6:
            sub = []
            keep, st = st, sub
            for _ in range(rng.choice([2, 4])):
                c = login()
                st += [['write', c, rng.randrange(6), next(toks)], ['read', c, rng.randrange(6)]]
                if rng.random() < 0.6:
                    st.append(['drop', c])
                    live.remove(c)
            st = keep
            st.append(['listloop', 60, sub])
        # close and start again
        n += 1
        half = 'h%d' % n
        t = rng.choice(names)
        stage = rng.choice([0, 1, 2])
        st.append(['connect', half, {'dst': at(sc, t, rng)}, None])
        if stage > 0:
            st.append(['login', half, hello(P + 'half')])
        st.append(['svcclose'])
        n += 1
        st += [['connect', 'x%d' % n, {'dst': LO[0]}, None]]
        st += [['login', half, full(t, P + 'half')], ['over', half]] if rng.random() < 0.8 else [['drop', half]]
        st += [['list']]
        if rng.random() < 0.5:
            st += [['connect', 'z%d' % n, {'dst': LO[1]}, None]]
        st.append(['svcrun'])
        c = login(P + 'again')
        st += [['read', c, k] for k in range(6)]
        st.append(['list'])
    for c in live:
        st.append(rng.choice([['drop', c], ['logout', c]]))
    st.append(['list'])
    sc['steps'] = st
    return sc


# ---------------------------------------------------------------- C23: keys
NUM = {'MaxOutstandingR2T': (1, 65535, 1), 'FirstBurstLength': (512, 16777215, 65536), 'MaxBurstLength': (512, 16777215, 262144),
       'ErrorRecoveryLevel': (0, 2, 0), 'DefaultTime2Retain': (0, 3600, 20), 'DefaultTime2Wait': (0, 3600, 2), 'MaxConnections': (1, 65535, 1),
       'MaxRecvDataSegmentLength': (512, 16777215, 8192)}
BOOL = ['InitialR2T', 'ImmediateData', 'DataPDUInOrder', 'DataSequenceInOrder', 'IFMarker', 'OFMarker']


def numval(rng, k, legal=False):
    lo, hi, d = NUM[k]
    c = [lo, lo + 1, d, max(lo, d - 1), min(hi, d + 1), hi, hi - 1, rng.randrange(lo, hi + 1), rng.randrange(lo, min(hi, 4 * d + 8) + 1)]
    if k in ('MaxBurstLength', 'MaxRecvDataSegmentLength', 'FirstBurstLength'):
        c += [512, 513, 1000, 1024, 1536, 4096, 8192, 16384, 65536, 262144, 262143, 131072]
    v = rng.choice(c)
    if not legal and rng.random() < 0.12 and k != 'MaxRecvDataSegmentLength':
        return rng.choice([str(hi + 1), '4294967295', '4294967296', '99999999999999999999', '', 'abc', '-1', '1.5', '12x', '0x', '0xzz', ' 1', 'Yes'] + ([str(lo - 1)] if lo > 0 else []))
    if rng.random() < 0.12:
        return rng.choice(['0x%x', '0X%X', '0x%X']) % v
    return str(v)


def offers(rng):
    kv = []
    for k in rng.sample(sorted(NUM), rng.randrange(0, len(NUM) + 1)):
        kv.append([k, numval(rng, k)])
    for k in rng.sample(BOOL, rng.randrange(0, len(BOOL) + 1)):
        kv.append([k, rng.choice(['Yes', 'No', 'Yes', 'No', 'Yes', 'No', 'maybe', '', 'Yes,No', '1'])])
    for k in ('HeaderDigest', 'DataDigest'):
        if rng.random() < 0.6:
            kv.append([k, rng.choice(['None', 'CRC32C', 'CRC32C,None', 'None,CRC32C', 'X-foo', 'X-foo,None', 'X-a,CRC32C', 'CRC32C,X-b,None', 'MD5'])])
    for _ in range(rng.choice([0, 0, 1, 2])):
        kv.append([rng.choice(['X-com.example.%d', 'Foo%d', 'MaxBurstLengthX%d', 'x%d', 'initialR2T%d', 'X-%d#']) % rng.randrange(100), rng.choice(['1', 'Yes', 'a=b', 'None', 'a,b,c', '=', 'v' * 200])])
    if rng.random() < 0.1:
        kv.append([rng.choice(['TaskReporting', 'OFMarkInt', 'RDMAExtensions']), rng.choice(['1', 'RFC3720', '2048~8192', 'No'])])
    if rng.random() < 0.1:
        kv.append(['InitiatorAlias', 'some one'])
    if rng.random() < 0.1:
        kv.append(['MaxXmitDataSegmentLength', '4096'] if rng.random() < 0.5 else ['MaxQueueCmd', '64'])
    rng.shuffle(kv)
    return kv


def keys(rng, tier):
    sc = {'portals': ['127.0.0.1:%PORT%'], 'targets': {P + 't0': {'tpgts': {rng.choice(['1', '5']): [0]}, 'dev': 'd0'}}, 'steps': []}
    t = P + 't0'
    st = []
    for n in range(6 if tier == 'quick' else 14):
        c = 'c%d' % n
        st.append(['connect', c, {'cmdsn': rng.choice([1, 100])}, None])
        kv = offers(rng)
        who = [['InitiatorName', INIS[0]], ['SessionType', 'Normal'], ['TargetName', t]]
        disc = rng.random() < 0.1
        if disc:
            who = [['InitiatorName', INIS[0]], ['SessionType', 'Discovery']]
        isid = 0x800000000000 + n + 1

        def req(csg, nsg, tr, kv, **kw):
            return ['login', c, dict({'csg': csg, 'nsg': nsg, 'T': tr, 'isid': isid, 'kv': kv}, **kw)]

        def cut(kv):
            from iscsi import kvtext
            ln = len(kvtext([tuple(k) for k in kv]))
            if rng.random() < 0.35 and ln > 4:
                return {'split': sorted({rng.randrange(1, ln) for _ in range(rng.choice([1, 2, 5]))})}
            return {}
        if rng.random() < 0.6:
            sk = who + [['AuthMethod', rng.choice(['None', 'CHAP,None'])]] + ([['X-sec.unknown', 'v']] if rng.random() < 0.3 else [])
            st.append(req(0, 1, True, sk, **cut(sk)))
            first = []
        else:
            first = who
        # the offers over one or more requests
        parts = [[]]
        for o in kv:
            if rng.random() < 0.2:
                parts.append([])
            parts[-1].append(o)
        if first and rng.random() < 0.3:
            parts[-1] = parts[-1] + first
        else:
            parts[0] = first + parts[0]
        for k, p in enumerate(parts):
            last = k == len(parts) - 1
            st.append(req(1, 3, last, p, **cut(p)))
        if not disc:
            for _ in range(rng.choice([1, 2, 3])):
                nb = rng.choice([1, 2, 3, 8, 16, 17, 64, 128, 200, 256, 513, 600, 1100] if tier != 'quick' or rng.random() < 0.3 else [1, 2, 3, 8, 16, 17, 33])
                st.append(['xread', c, nb])
                immok = all(o[1] == 'Yes' for o in kv if o[0] == 'ImmediateData' and o[1] in ('Yes', 'No'))
                fb = [o[1] for o in kv if o[0] == 'FirstBurstLength']
                lim = 512 if fb or any(o[0] == 'MaxBurstLength' for o in kv) else 8192
                st.append(['xwrite', c, nb, rng.choice([0, 512, min(lim, nb * 512)]) if immok else 0])
        st.append(rng.choice([['logout', c], ['drop', c]]))
    sc['steps'] = st
    return sc


# ---------------------------------------------------------------- C09: more sessions than there are handles
def handles(rng, kind, n):
    sc = {'portals': ['127.0.0.1:%PORT%'], 'targets': {P + 't0': {'tpgts': {rng.choice(['1', '5']): [0]}, 'dev': 'd0'}}, 'steps': []}
    sc['steps'] = [['connect', 'a', {}, None], ['login', 'a', full(P + 't0', isid=0x800000000055)],
                   ['storm', kind, n], ['ping', 'a'], ['connect', 'b', {}, None], ['login', 'b', full(P + 't0', isid=0x800000000056)], ['ping', 'b'],
                   ['logout', 'a'], ['ping', 'b']]
    return sc


# ---------------------------------------------------------------- C22: listings all through many logins
def listing(rng, kind, n, ms):
    sc = {'portals': ['127.0.0.1:%PORT%'], 'targets': {P + 't0': {'tpgts': {'1': [0]}, 'dev': 'd0'}}, 'steps': []}
    st = sc['steps']
    for k in range(rng.choice([1, 3, 8])):
        st += [['connect', 'a%d' % k, {}, None], ['login', 'a%d' % k, full(P + 't0', isid=0x800000000155 + k)]]
    st += [['write', 'a0', 1, 77], ['listloop', ms, [['storm', kind, n]]], ['list'], ['ping', 'a0'], ['read', 'a0', 1]]
    return sc


# ---------------------------------------------------------------- behaviours of the specification
def from_tlc(rng, cfg, num, extra=''):
    """Replays of LoginGen's behaviours.  extra: what else is done between the steps, of 'ping', 'list', 'write'."""
    res = []
    isids = {'a': 0x800000000001, 'b': 0x800000000002}
    names = {'t1': P + 't1', 't2': P + 't2', 't9': P + 't9', 'i1': P + 'ini', 'i2': P + 'ini2'}
    dst = {'p1': LO[0], 'p2': LO[1]}
    for b in tlc.simulate('LoginGen', cfg, num, 260, rng.randrange(1 << 30))[:num]:
        sc = {'portals': ['%s:%%PORT%%' % LO[0], '%s:%%PORT%%' % LO[1]],
              'targets': {P + 't1': {'tpgts': {'1': [0]}, 'dev': 'd0'}, P + 't2': {'tpgts': {'1': [0], '2': [1]}, 'dev': 'd1'}}, 'steps': []}
        if b['block']:
            sc['block'] = True
        st, live = [], {}
        service = any(h['k'] == 'service' for h in b['steps'])
        for h in b['steps']:
            k = h['k']
            c = h.get('c')
            if k == 'connect':
                o = {'src': h['host'], 'dst': dst[h['dst']], 'cmdsn': rng.choice([1, 7, 0xffffffff])}
                if h['first'] and b['block']:
                    o['retry'] = 1
                st.append(['connect', c, o, hello(names['i1']) if b['block'] or service else None])
                if h['adm']:
                    live[c] = 'login'
            elif k == 'login':
                r = h['r']
                q = h['ask']['quote']
                st.append(['login', c, {'csg': r['csg'], 'nsg': r['nsg'], 'T': r['T'], 'isid': isids[r['isid']], 'cid': r['cid'],
                                        'tsih': int(q) if q.isdigit() else q, 'kv': [[x['k'], names.get(x['v'], x['v'])] for x in r['kv']]}])
                if not h['ok']:
                    st.append(['refused', c])
                    live.pop(c, None)
                elif r['T'] and r['nsg'] == 3:
                    live[c] = 'disc' if any(x['v'] == 'Discovery' for x in r['kv']) else 'full'
            elif k == 'end':
                st.append(['drop' if h['st'] not in ('normal', 'disc') or rng.random() < 0.5 else 'logout', c])
                live.pop(c, None)
            elif k == 'service':
                st.append(['svcrun' if h['run'] else 'svcclose'])
            if extra and rng.random() < 0.4:
                e = rng.choice(extra.split())
                ok = [x for x in live if live[x] == 'full']
                if e == 'list':
                    st.append(['list'])
                elif ok:
                    x = rng.choice(ok)
                    st.append(['ping', x] if e == 'ping' else ['write', x, rng.randrange(8), rng.randrange(1, 4000)] if rng.random() < 0.5 else ['read', x, rng.randrange(8)])
        sc['steps'] = st + [['list']] + [['ping', x] for x in sorted(live) if live[x] == 'full']
        res.append(sc)
    return res
