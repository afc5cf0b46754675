from run import Check, Part, MC
import sgens as G

# Data-In sequences: transfer lengths around every limit, all negotiated segment and burst lengths.

ASPECTS = {'closed', 'data', 'datain', 'datain-burst', 'datain-flag', 'datain-seg', 'dlen', 'extra', 'leak', 'missing', 'missing-cmd', 'nologin', 'resid', 'silent', 'status'}


def gen_datain(tier, rng):
    n, k = (70, 30) if tier == 'quick' else (700, 100)
    return [G.datain(rng, k) for _ in range(n)]


def gen_large(tier, rng):
    return [G.large(rng, True) for _ in range(3 if tier == 'quick' else 20)]


CHECK = Check('C07', [Part('datain', 'session_exec', 'SessionTrace', ASPECTS, gen_datain, cfg='SessionTrace.cfg'),
                     Part('large', 'session_exec', 'SessionTrace', ASPECTS, gen_large, cfg='SessionTrace.cfg')],
              mc=[MC('SessionMC', 'SessionMC2.cfg', 'solicited data, task sets, resets, rejects of one connection, three PDUs')])
