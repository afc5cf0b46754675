from run import Check, Part, MC
import sgens as G

# Logout in every situation, with commands pending, held and sent after it.

ASPECTS = {'closed', 'expcmdsn', 'extra', 'logout', 'missing', 'missing-cmd', 'missing-logout', 'nologin', 'notfreed', 'silent', 'statsn', 'status', 'stored', 'unclosed'}


def gen_logouts(tier, rng):
    n, k = (60, 9) if tier == 'quick' else (600, 25)
    return [G.logouts(rng, k) for _ in range(n)]


def gen_spec(tier, rng):
    return G.from_tlc(rng, 'SessionGen1.cfg', 80 if tier == 'quick' else 1500)


CHECK = Check('C21', [Part('logouts', 'session_exec', 'SessionTrace', ASPECTS, gen_logouts, cfg='SessionTrace.cfg'),
                     Part('spec', 'session_exec', 'SessionTrace', ASPECTS, gen_spec, cfg='SessionTrace.cfg')],
              mc=[MC('SessionMC', 'SessionMC1.cfg', 'order, window, single execution, aborts and logout of one connection, three PDUs'),
                  MC('SessionMC', 'SessionMC3.cfg', 'the same with four PDUs', tier='thorough', timeout=850)])
