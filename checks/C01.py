import gens as G
import sgens as S
from run import Check, Part, MC
ALL = ['read', 'write', 'wverify', 'orwrite', 'wsame', 'verify', 'sync']
STORE = ['read', 'read', 'write', 'write', 'wverify', 'orwrite', 'wsame']
ASPECTS = {'data', 'stored', 'refused', 'noresponse', 'nologin', 'dlen'}


def gen_spec(tier, rng):
    n, depth = (16, 41) if tier == 'quick' else (300, 121)
    cfg = 'SbcGen1.cfg' if tier == 'quick' else 'SbcGen2.cfg'
    return G.from_tlc(rng, cfg, n, depth, rng.randrange(1 << 30))


def gen_wide(tier, rng):
    n, k = (24, 40) if tier == 'quick' else (400, 120)
    return [G.program(rng, k, STORE, bad=0.04, restart=0.03) for _ in range(n)]


def gen_large(tier, rng):
    return [G.large(rng, 60 if tier == 'quick' else 150) for _ in range(20 if tier == 'quick' else 300)]


def gen_counts(tier, rng):
    forms = [(k, z) for k in ALL for z in G.SIZES[k] if k != 'sync']
    return G.counts(rng, 4 if tier == 'quick' else 60, forms)


def gen_file(tier, rng):
    n, k = (12, 40) if tier == 'quick' else (200, 120)
    return [G.on_files(rng, G.program(rng, k, STORE, bad=0.04, restart=0.06)) for _ in range(n)]


def gen_remote(tier, rng):
    n, k = (10, 40) if tier == 'quick' else (150, 120)
    return [G.on_remote(rng, G.program(rng, k, STORE, bad=0.04, restart=0.04)) for _ in range(n)]


def gen_pipelined(tier, rng):
    """Several commands of a connection under way at once."""
    n, k = (24, 40) if tier == 'quick' else (300, 120)
    return [S.solicited(rng, k) if i % 2 else S.pipelines(rng, k) for i in range(n)]


CHECK = Check('C01', [Part('spec', 'sbc_exec', 'SbcTrace', ASPECTS, gen_spec),
                      Part('wide', 'sbc_exec', 'SbcTrace', ASPECTS, gen_wide),
                      Part('large', 'sbc_exec', 'SbcTrace', ASPECTS, gen_large),
                      Part('counts', 'sbc_exec', 'SbcTrace', ASPECTS, gen_counts),
                      Part('file', 'sbc_exec', 'SbcTrace', ASPECTS, gen_file),
                      Part('remote', 'sbc_exec', 'SbcTrace', ASPECTS, gen_remote),
                      Part('pipelined', 'session_exec', 'SessionTrace', {'data', 'stored', 'missing-cmd', 'nologin', 'silent'}, gen_pipelined, cfg='SessionTrace.cfg')],
              mc=[MC('SbcMC', 'SbcMC1.cfg', 'one session, every storing and reading form, crashes and backend failures')])
