import cdb as C, gens as G
from run import Check, Part, MC
ASPECTS = {'miscompare', 'accepted-miscompare', 'accepted-range', 'refused', 'stored', 'data', 'noresponse'}
POOL = [0, 1, 1, 1, 2, 0x123456]


def gen_wide(tier, rng):
    n, k = (24, 60) if tier == 'quick' else (400, 150)
    kinds = ['verify', 'verify', 'verify', 'wverify', 'write', 'read']
    return [G.program(rng, k, kinds, bad=0.12, bytchk=0.75, pool=POOL if rng.random() < 0.7 else None, dumpevery=8, over=0.1, under=0.12, mx=5, extra=extra) for _ in range(n)]


def extra(w, rng, s):
    """Write some blocks, then verify them: equal, and with exactly one byte of one block different."""
    if rng.random() > 0.35:
        return None
    tgt, so = w.sess[s]
    t, lun, store, nb, bs, thin = G.pick_unit(w, rng, tgt)
    lo, n = G.span(rng, nb, 6)
    toks = G.tokens(rng, n)
    st = [['cmd', s, lun, C.rw(rng.choice(['write', 'wverify']), rng.choice((10, 12, 16)), lo, n).hex(),
           dict({'dir': 'w', 'out': toks, 'edtl': n * bs}, **G.imm_opts(rng, n * bs, so))]]
    for _ in range(2):
        size = rng.choice((10, 12, 16))
        data = list(toks)
        a, m = 0, n
        if rng.random() < 0.4 and n > 1:       # a part of them
            a = rng.randrange(n)
            m = rng.randrange(1, n - a + 1)
        data = data[a:a + m]
        if rng.random() < 0.6:
            i = rng.choice([0, m - 1, rng.randrange(m)])
            data[i] ^= 1 << rng.randrange(24)
        if rng.random() < 0.15 and m > 1:      # fewer blocks sent than addressed, equal as far as they go
            data = toks[a:a + rng.randrange(1, m)]
        elif rng.random() < 0.15:              # more
            data = data + G.tokens(rng, 1)
        o = {'dir': 'w', 'out': data, 'edtl': len(data) * bs}
        o.update(G.imm_opts(rng, len(data) * bs, so))
        st.append(['cmd', s, lun, C.rw('verify', size, lo + a, m, 2 | rng.choice([0, 0x10])).hex(), o])
    if rng.random() < 0.3:
        st.append(['dump', store])
    return st


def gen_spec(tier, rng):
    n, depth, cfg = (12, 41, 'SbcGen1.cfg') if tier == 'quick' else (250, 121, 'SbcGen2.cfg')
    return G.from_tlc(rng, cfg, n, depth, rng.randrange(1 << 30), dumps=4)


def gen_large(tier, rng):
    return [G.large(rng, 60 if tier == 'quick' else 150, ('write', 'wverify', 'verify', 'verify', 'verify', 'read')) for _ in range(6 if tier == 'quick' else 150)]


CHECK = Check('C19', [Part('wide', 'sbc_exec', 'SbcTrace', ASPECTS, gen_wide), Part('spec', 'sbc_exec', 'SbcTrace', ASPECTS, gen_spec),
                      Part('large', 'sbc_exec', 'SbcTrace', ASPECTS, gen_large)],
              mc=[MC('SbcMC', 'SbcMC1.cfg', 'verify outcome equals comparison, medium unchanged')])
