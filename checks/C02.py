import gens as G
from run import Check, Part, MC
KINDS = ['read', 'write', 'wverify', 'orwrite', 'wsame', 'verify', 'sync', 'prefetch']
ASPECTS = {'accepted', 'stored', 'leak', 'refused', 'noresponse'}


def extra(w, rng, s):
    r = rng.random()
    if r < 0.12:
        return [G.unmap_step(w, rng, s)]
    if r < 0.18:
        return [G.badop_step(w, rng, s)]
    if r < 0.3:
        return [G.badbits_step(w, rng, s)]
    if r < 0.37:
        return [G.attr_step(w, rng)]
    return None


def gen_wide(tier, rng):
    n, k = (32, 60) if tier == 'quick' else (500, 160)
    return [G.program(rng, k, KINDS, bad=0.5, extra=extra, dumpevery=5, mx=6, under=0.05) for _ in range(n)]


def gen_spec(tier, rng):
    n, depth, cfg = (12, 41, 'SbcGen1.cfg') if tier == 'quick' else (300, 121, 'SbcGen2.cfg')
    return G.from_tlc(rng, cfg, n, depth, rng.randrange(1 << 30), dumps=3)


def gen_large(tier, rng):
    """Units of any size, half of the commands not inside."""
    n, k = (8, 60) if tier == 'quick' else (150, 120)
    return [G.large(rng, k, ('read', 'write', 'wverify', 'orwrite', 'wsame', 'verify', 'sync', 'prefetch', 'unmap', 'unmap'), bad=0.45) for _ in range(n)]


CHECK = Check('C02', [Part('wide', 'sbc_exec', 'SbcTrace', ASPECTS, gen_wide),
                      Part('edges', 'sbc_exec', 'SbcTrace', ASPECTS, lambda tier, rng: G.edges(tier, rng)),
                      Part('spec', 'sbc_exec', 'SbcTrace', ASPECTS, gen_spec),
                      Part('large', 'sbc_exec', 'SbcTrace', ASPECTS, gen_large)],
              mc=[MC('SbcMC', 'SbcMC2.cfg', 'refused commands change nothing, with switches and two units')])
