from run import Check, Part, MC
import sgens as G

# Pings of every length, immediate or numbered, with and without reply, between other commands.

ASPECTS = {'closed', 'data', 'expcmdsn', 'extra', 'missing', 'missing-cmd', 'missing-nop', 'nologin', 'nop', 'silent', 'status', 'stored'}


def gen_pings(tier, rng):
    n, k = (60, 50) if tier == 'quick' else (600, 150)
    return [G.pings(rng, k) for _ in range(n)]


def gen_spec(tier, rng):
    return G.from_tlc(rng, 'SessionGen1.cfg', 60 if tier == 'quick' else 1500)


CHECK = Check('C24', [Part('pings', 'session_exec', 'SessionTrace', ASPECTS, gen_pings, cfg='SessionTrace.cfg'),
                     Part('spec', 'session_exec', 'SessionTrace', ASPECTS, gen_spec, cfg='SessionTrace.cfg')],
              mc=[MC('SessionMC', 'SessionMC1.cfg', 'order, window, single execution, aborts and logout of one connection, three PDUs')])
