from run import Check, Part, MC
import sgens as G

# Solicited data: several outstanding writes, every cutting of the bursts, data nobody asked for.

ASPECTS = {'closed', 'data', 'extra', 'missing', 'missing-cmd', 'missing-r2t', 'nologin', 'notfreed', 'r2t', 'silent', 'status', 'stored', 'unclosed'}


def gen_solicited(tier, rng):
    n, k = (70, 40) if tier == 'quick' else (700, 120)
    return [G.solicited(rng, k) for _ in range(n)]


def gen_spec(tier, rng):
    return G.from_tlc(rng, 'SessionGen1.cfg', 60 if tier == 'quick' else 1500)


def gen_large(tier, rng):
    return [G.large(rng, False) for _ in range(3 if tier == 'quick' else 20)]


CHECK = Check('C06', [Part('solicited', 'session_exec', 'SessionTrace', ASPECTS, gen_solicited, cfg='SessionTrace.cfg'),
                     Part('large', 'session_exec', 'SessionTrace', ASPECTS | {'datain', 'datain-burst', 'datain-flag', 'datain-seg', 'resid'}, gen_large, cfg='SessionTrace.cfg'),
                     Part('spec', 'session_exec', 'SessionTrace', ASPECTS, gen_spec, cfg='SessionTrace.cfg')],
              mc=[MC('SessionMC', 'SessionMC2.cfg', 'solicited data, task sets, resets, rejects of one connection, three PDUs'),
                  MC('SessionMC', 'SessionMC4.cfg', 'the same with four PDUs', tier='thorough', timeout=850)])
