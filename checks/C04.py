import gens as G
from run import Check, Part, MC
W = ['write', 'read', 'read', 'wverify', 'verify', 'orwrite', 'wsame', 'sync', 'prefetch']
ASPECTS = {'fault-hidden', 'fault-sense', 'leak', 'stored', 'data', 'refused', 'noresponse', 'nologin', 'durable', 'busy', 'badstatus'}


def extra(w, rng, s):
    if rng.random() < 0.45:
        return G.faulty(rng, w, s, W)
    if rng.random() < 0.05:
        tgt = w.sess[s][0]
        st = G.unmap_step(w, rng, s, 0)
        store = w.luns[tgt][st[2]]['store']
        return [['fault', store, [{'op': 'unmap', 'nth': 1, 'mode': 'error', 'count': 1}]], st, ['nofault', store]]
    return None


def gen_wide(tier, rng):
    n, k = (32, 50) if tier == 'quick' else (400, 150)
    return [G.program(rng, k, W, bad=0.02, fua=0.3, extra=extra, dumpevery=3, dur=True) for _ in range(n)]


def gen_each(tier, rng):
    """Fault enumeration: every command form x every backend operation it makes (first, second, third) x every way to fail."""
    import cdb as C
    res = []
    for k in ('read', 'write', 'wverify', 'orwrite', 'wsame', 'verify', 'sync', 'prefetch'):
        st = [['open', 's1', G.T0, {}]]
        for size in G.SIZES[k]:
            for fua in ((0, 8) if k in ('write', 'wverify', 'orwrite', 'read') and size != 6 else (2,) if k == 'verify' else (0,)):
                for op in ('read', 'write', 'sync', 'advise'):
                    if op == 'advise' and k != 'prefetch':
                        continue
                    for nth in (1, 2):
                        for mode in ('error', 'short', 'partial'):
                            if op in ('sync', 'advise') and mode != 'error':
                                continue
                            n = rng.randrange(1, 4)
                            lo = rng.randrange(0, 8 - n)
                            b1 = fua | (2 if k == 'wverify' else 0)
                            m = 0 if k in ('read', 'sync', 'prefetch') else 1 if k == 'wsame' else n
                            o = {'dir': 'r', 'edtl': n * 512} if k == 'read' else {'dir': 'n', 'edtl': 0}
                            if m:
                                o = {'dir': 'w', 'out': G.tokens(rng, m), 'edtl': m * 512}
                            st.append(['fault', 'a', [{'op': op, 'nth': nth, 'mode': mode, 'count': 1}]])
                            st.append(['cmd', 's1', 0, C.rw(k, size, lo, n, b1).hex(), o])
                            st.append(['nofault', 'a'])
                            st.append(['dump', 'a'])
                            st.append(['cmd', 's1', 0, C.rw('read', 10, 0, 8).hex(), {'dir': 'r', 'edtl': 4096}])
        res.append({'cfg': {'luns': {G.T0: {'0': {'store': 'a', 'blocks': 8, 'init': [9, 8, 7, 6, 5, 4, 3, 2]}}}}, 'steps': st})
    # commands that the target splits: one of the pieces fails
    nb = 40000
    st = [['open', 's1', G.T0, {}]]
    for k, size, nth in [('wsame', 16, 1), ('wsame', 16, 2), ('wsame', 16, 3), ('wsame', 10, 2)] + rng.sample([('write', 12, 1), ('orwrite', 16, 2), ('wverify', 16, 2), ('read', 16, 1)], 2):
        n = nb - rng.randrange(3000)
        o = {'dir': 'r', 'edtl': n * 64} if k == 'read' else {'dir': 'w', 'out': G.tokens(rng, 1) * (1 if k == 'wsame' else n), 'edtl': 64 if k == 'wsame' else n * 64}
        st += [['fault', 'a', [{'op': 'any' if k == 'wverify' else 'read' if k in ('read', 'orwrite') and nth == 1 else 'any', 'nth': nth, 'mode': rng.choice(['error', 'short']) if k == 'wsame' else 'error', 'count': 1}]],
               ['cmd', 's1', 0, C.rw(k, size, rng.randrange(nb - n + 1), n, 2 if k == 'wverify' else 0).hex(), o], ['nofault', 'a']]
        if nth > 1:
            st.append(['dump', 'a'])
    res.append({'cfg': {'luns': {G.T0: {'0': {'store': 'a', 'blocks': nb, 'shift': 6, 'many': True}}}}, 'steps': st})
    return res


def gen_spec(tier, rng):
    n, depth, cfg = (12, 41, 'SbcGenF1.cfg') if tier == 'quick' else (250, 121, 'SbcGenF2.cfg')
    return G.from_tlc(rng, cfg, n, depth, rng.randrange(1 << 30), faults=True, dumps=2)


def gen_file(tier, rng):
    """The file store, with errors from the operating system."""
    n, k = (14, 50) if tier == 'quick' else (250, 150)
    return [G.on_files(rng, G.program(rng, k, W, bad=0.02, fua=0.3, dumpevery=3, dur=True), True) for _ in range(n)]


def gen_remote(tier, rng):
    n, k = (10, 40) if tier == 'quick' else (150, 120)
    return [G.on_remote(rng, G.program(rng, k, W, bad=0.02, fua=0.3, extra=extra, dumpevery=3)) for _ in range(n)]


CHECK = Check('C04', [Part('each', 'sbc_exec', 'SbcTrace', ASPECTS, gen_each), Part('wide', 'sbc_exec', 'SbcTrace', ASPECTS, gen_wide),
                      Part('spec', 'sbc_exec', 'SbcTrace', ASPECTS, gen_spec),
                      Part('file', 'sbc_exec', 'SbcTrace', ASPECTS, gen_file),
                      Part('remote', 'sbc_exec', 'SbcTrace', ASPECTS, gen_remote)],
              mc=[MC('SbcMC', 'SbcMC1.cfg', 'failed commands stay inside their range in every state')])
