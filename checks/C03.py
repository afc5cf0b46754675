import gens as G
from run import Check, Part, MC
NAMES = ('s1', 's2', 's3')
W = ['write', 'write', 'wverify', 'orwrite', 'wsame', 'read']
ASPECTS = {'durable', 'fault-hidden', 'stored', 'noresponse', 'nologin', 'refused'}


def extra(w, rng, s):
    r = rng.random()
    if r < 0.15:
        return [G.sync_step(w, rng, s)]
    if r < 0.2:
        return G.crash(w, NAMES)
    if r < 0.27:
        return G.crashing(rng, w, s, W, NAMES)
    if r < 0.35:
        st = G.faulty(rng, w, s, ['write', 'wverify', 'orwrite', 'sync', 'sync'], ('error',))
        st[0][2][0]['op'] = 'sync'
        st[0][2][0]['nth'] = 1
        return st
    return None


def gen_wide(tier, rng):
    n, k = (28, 40) if tier == 'quick' else (400, 120)
    return [G.program(rng, k, W, bad=0.02, fua=0.5, extra=extra, dumpevery=2, dur=True, restart=0.01) for _ in range(n)]


def gen_spec(tier, rng):
    n, depth, cfg = (14, 41, 'SbcGenF1.cfg') if tier == 'quick' else (250, 121, 'SbcGenF2.cfg')
    return G.from_tlc(rng, cfg, n, depth, rng.randrange(1 << 30), faults=True, dumps=1)


def fextra(w, rng, s):
    r = rng.random()
    if r < 0.2:
        return [G.sync_step(w, rng, s)]
    if r < 0.27:
        return G.crash(w, NAMES)
    return None


def gen_file(tier, rng):
    """The file store: a crash leaves what fdatasync had been asked for."""
    n, k = (14, 40) if tier == 'quick' else (250, 120)
    return [G.on_files(rng, G.program(rng, k, W, bad=0.02, fua=0.5, extra=fextra, dumpevery=2, dur=True, restart=0.01), rng.random() < 0.4) for _ in range(n)]


def gen_remote(tier, rng):
    n, k = (10, 40) if tier == 'quick' else (150, 120)
    return [G.on_remote(rng, G.program(rng, k, W, bad=0.02, fua=0.5, extra=extra, dumpevery=2, dur=True)) for _ in range(n)]


def gen_large(tier, rng):
    """Units of any size: ranges beyond what 32 bits of bytes can say."""
    n, k = (10, 50) if tier == 'quick' else (200, 120)
    return [G.large(rng, k, W + ['sync', 'sync', 'sync', 'unmap'], fua=0.4) for _ in range(n)]


CHECK = Check('C03', [Part('wide', 'sbc_exec', 'SbcTrace', ASPECTS, gen_wide), Part('spec', 'sbc_exec', 'SbcTrace', ASPECTS, gen_spec),
                      Part('file', 'sbc_exec', 'SbcTrace', ASPECTS, gen_file),
                      Part('remote', 'sbc_exec', 'SbcTrace', ASPECTS, gen_remote),
                      Part('large', 'sbc_exec', 'SbcTrace', ASPECTS, gen_large)],
              mc=[MC('SbcMC', 'SbcMC1.cfg', 'forced and synchronised data is durable in every state, with crashes and failures')])
