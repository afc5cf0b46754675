"""Scenarios with several sessions at the same time."""
import cdb as C
from gens import T0, T1


def units(rng):
    # d0 is shared by both targets, d1 only has one
    return {'luns': {T0: {'0': {'store': 'a', 'blocks': 8}, '1': {'store': 'b', 'blocks': 8}}, T1: {'0': {'store': 'c', 'blocks': 8}, '3': {'store': 'a', 'blocks': 8}}}}


MAP = {T0: {0: 'a', 1: 'b'}, T1: {0: 'c', 3: 'a'}}


class Tok:
    def __init__(self, rng):
        self.n, self.rng = 0, rng

    def __call__(self):
        self.n += 1
        return self.n * 7 % 0xfffff + 1


def op(rng, tok, tgt, nb=8, ors=True):
    lun = rng.choice(list(MAP[tgt]))
    dev = MAP[tgt][lun]
    n = rng.choice([1, 1, 1, 2, 3, nb])
    lba = rng.randrange(nb - n + 1)
    r = rng.random()
    if r < 0.45:
        return {'k': 'r', 'cdb': C.rw('read', rng.choice((6, 10, 12, 16)), lba, n).hex(), 'lun': lun, 'dev': dev, 'lba': lba, 'n': n, 'len': n * 512, 'imm': 0, 'toks': []}
    imm = rng.choice([0, n * 512, n * 512, 512])
    o = {'lun': lun, 'dev': dev, 'lba': lba, 'n': n, 'imm': imm, 'len': n * 512}
    if r < 0.8:
        o.update(k='w', cdb=C.rw('write', rng.choice((6, 10, 12, 16)), lba, n, b1=0).hex(), toks=[tok() for _ in range(n)])
    elif r < 0.87:
        o.update(k='w', cdb=C.rw('wverify', rng.choice((10, 12, 16)), lba, n).hex(), toks=[tok() for _ in range(n)])
    elif r < 0.93:
        o.update(k='vq', n=1, imm=512, len=512, cdb=C.rw('verify', rng.choice((10, 16)), lba, 1, b1=2).hex(), toks=[rng.choice([0, tok.n * 7 % 0xfffff + 1])])
    elif r < 0.97 or not ors:
        o.update(k='same', imm=512, len=512, cdb=C.rw('wsame', rng.choice((10, 16)), lba, n).hex(), toks=[tok()])
    else:
        o.update(k='or', cdb=C.rw('orwrite', 16, lba, n).hex(), toks=[1 << rng.randrange(24) for _ in range(n)])
    return o


def storm(rng, n, churn=True):
    tok = Tok(rng)
    th = []
    for k in range(rng.choice([3, 4, 5])):
        tgt = rng.choice([T0, T0, T1])
        ops = []
        for _ in range(n):
            ops.append(op(rng, tok, tgt))
            r = rng.random()
            if r < 0.03:
                ops.append({'k': rng.choice(['relog', 'drop', 'ping'])})
            elif r < 0.05:
                ops.append({'k': 'sleep', 'n': rng.randrange(1, 400)})
        th.append({'tgt': tgt, 'ini': 'iqn.2026-01.verif:i%d' % (k % 3), 'isid': 0x800000000100 + k, 'depth': rng.choice([1, 1, 2]) if k else rng.choice([1, 2, 3]), 'ops': ops})
    if churn:
        for k in range(rng.choice([1, 2])):
            same = rng.random() < 0.5
            ops = []
            for _ in range(n // 3):
                ops.append({'k': rng.choice(['relog', 'drop', 'ping'])})
            th.append({'tgt': rng.choice([T0, T1]), 'ini': 'iqn.2026-01.verif:c%d' % k, 'isid': 0x800000000200 + k, 'depth': 1, 'ops': ops})
        if rng.random() < 0.3:
            # one that leaves in the middle of its commands: what it stored may or may not be there
            ops = []
            for _ in range(2):
                ops += [op(rng, tok, T0, ors=False), {'k': 'cut'}]
            th.append({'tgt': T0, 'ini': 'iqn.2026-01.verif:cut', 'isid': 0x800000000300, 'depth': 2, 'ops': ops})
    cfg = units(rng)
    if rng.random() < 0.5:       # on real files
        for m in cfg['luns'].values():
            for v in m.values():
                v['file'] = True
    return {'cfg': cfg, 'threads': th}


def gated(rng, n):
    """Operations stopped inside the backend while others come and go."""
    tok = Tok(rng)
    names = {'s1': T0, 's2': T0, 's3': T1, 's4': T0}
    st = [['open', s, t, {}] for s, t in names.items()]
    busy = set()
    for _ in range(n):
        dev = rng.choice(['a', 'a', 'b'])
        g = rng.choice(['read', 'write', 'both'])
        kinds = ['read', 'write'] if g == 'both' else [g]
        st += [['gate', dev, k] for k in kinds]
        cs = rng.sample(sorted(names), rng.choice([2, 3, 4]))
        cnt = 0
        for s in cs:
            t = names[s]
            while True:
                o = op(rng, tok, t)
                if o['dev'] == dev or rng.random() < 0.1:
                    break
            st.append(['call', s, o])
            busy.add(s)
            cnt += 1
            if rng.random() < 0.5:
                st.append(['wait', dev, rng.choice(kinds), 1])
        if rng.random() < 0.15:
            s = rng.choice(cs)
            st += [['drop', s]] if False else []
        rng.shuffle(kinds)
        for k in kinds:
            st.append(['ungate', dev, k])
            if rng.random() < 0.5:
                s = rng.choice(cs)
        for s in cs:
            st.append(['ret', s])
            if rng.random() < 0.4:
                o = op(rng, tok, names[s])
                st += [['call', s, o], ['ret', s]]
    return {'cfg': units(rng), 'steps': st}
