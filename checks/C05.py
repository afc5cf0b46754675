from run import Check, Part, MC
import sgens as G

# Command window: random numbering, gaps, duplicates, reordering, numbers at and beyond the edge of the window, 32-bit wrap.

ASPECTS = {'closed', 'data', 'expcmdsn', 'extra', 'maxcmdsn', 'missing', 'missing-cmd', 'missing-nop', 'missing-r2t', 'missing-text', 'missing-tmf', 'nologin', 'silent', 'status', 'stored'}


def gen_window(tier, rng):
    n, k = (60, 40) if tier == 'quick' else (600, 120)
    return [G.window(rng, k) for _ in range(n)]


def gen_spec(tier, rng):
    return G.from_tlc(rng, 'SessionGen1.cfg', 80 if tier == 'quick' else 1500)


CHECK = Check('C05', [Part('window', 'session_exec', 'SessionTrace', ASPECTS, gen_window, cfg='SessionTrace.cfg'),
                     Part('spec', 'session_exec', 'SessionTrace', ASPECTS, gen_spec, cfg='SessionTrace.cfg')],
              mc=[MC('SessionMC', 'SessionMC1.cfg', 'order, window, single execution, aborts and logout of one connection, three PDUs'),
                  MC('SessionMC', 'SessionMC3.cfg', 'the same with four PDUs', tier='thorough', timeout=850)])
