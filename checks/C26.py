import cdb as C, gens as G
from run import Check, Part, MC
ASPECTS = {'sense', 'miscompare', 'sense-lun', 'sensefmt', 'badstatus', 'busy', 'accepted', 'refused', 'conflict', 'fault-sense', 'fault-code', 'fault-hidden', 'noresponse'}
K = ['read', 'write', 'wverify', 'orwrite', 'wsame', 'verify', 'sync', 'prefetch']


def extra(w, rng, s):
    r = rng.random()
    if r < 0.08:
        return [G.unmap_step(w, rng, s)]
    if r < 0.16:
        return [G.badop_step(w, rng, s)]
    if r < 0.28:
        return [G.badbits_step(w, rng, s)]
    if r < 0.36:
        return [G.attr_step(w, rng, ('ro', 'swp', 'online', 'removable'))]
    if r < 0.44:
        return G.faulty(rng, w, s, K)
    if r < 0.5:
        return [['cmd', s, rng.choice([9, 77, 255, [bytes([0x41, 0, 0, 0, 0, 0, 0, 0]).hex(), '256']]),
                 rng.choice([C.tur(), C.rw('read', 10, 0, 1), C.inquiry(), C.readcap10(), bytes([0xc1]) + bytes(15), C.rw('verify', 16, 0, 1)]).hex(),
                 {'dir': 'n', 'edtl': 0}]]
    if r < 0.66:
        cdb, e = rng.choice([(C.tur(), 0), (C.readcap10(), 8), (C.readcap16(), 32), (C.start_stop(), 0), (C.format_unit(), 0), (C.start_stop(False, True), 0),
                             (C.start_stop(True, True), 0), (C.reserve6(), 0), (C.release6(), 0), (C.inquiry(), 96), (C.request_sense(), 252),
                             (C.mode_sense6(), 255), (C.mode_sense10(), 1024), (C.inquiry(255, True, 0x83), 255), (C.inquiry(255, True, 0x55), 255),
                             (C.mode_sense6(0x22), 255), (C.rsoc(), 4096), (C.pr_in(0), 1024), (C.report_luns(), 256), (C.prevent(), 0)])
        return [G.simple_step(w, rng, s, cdb, e)]
    return None


def gen_wide(tier, rng):
    n, k = (36, 60) if tier == 'quick' else (500, 150)
    return [G.program(rng, k, K, bad=0.4, extra=extra, dumpevery=0, mx=6, under=0.05) for _ in range(n)]


CHECK = Check('C26', [Part('wide', 'sbc_exec', 'SbcTrace', ASPECTS, gen_wide), Part('edges', 'sbc_exec', 'SbcTrace', ASPECTS, lambda t, r: G.edges(t, r))],
              mc=[MC('SbcMC', 'SbcMC2.cfg', 'every command has an allowed outcome, with its cause')])
