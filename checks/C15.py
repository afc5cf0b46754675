from run import Check, Part, MC
import sgens as G

# Task management: aborts of writes that wait for data and commands that wait for their turn, by tag and by unit.

ASPECTS = {'closed', 'expcmdsn', 'extra', 'missing', 'missing-cmd', 'missing-r2t', 'missing-tmf', 'nologin', 'silent', 'status', 'stored', 'tmf'}


def gen_tasks(tier, rng):
    n, k = (70, 40) if tier == 'quick' else (700, 120)
    return [G.tasks(rng, k) for _ in range(n)]


def gen_spec(tier, rng):
    return G.from_tlc(rng, 'SessionGen1.cfg', 80 if tier == 'quick' else 1500)


CHECK = Check('C15', [Part('tasks', 'session_exec', 'SessionTrace', ASPECTS, gen_tasks, cfg='SessionTrace.cfg'),
                     Part('spec', 'session_exec', 'SessionTrace', ASPECTS, gen_spec, cfg='SessionTrace.cfg')],
              mc=[MC('SessionMC', 'SessionMC1.cfg', 'order, window, single execution, aborts and logout of one connection, three PDUs'),
                  MC('SessionMC', 'SessionMC2.cfg', 'solicited data, task sets, resets, rejects of one connection, three PDUs'),
                  MC('SessionMC', 'SessionMC3.cfg', 'the same with four PDUs', tier='thorough', timeout=850),
                  MC('SessionMC', 'SessionMC4.cfg', 'the same with four PDUs', tier='thorough', timeout=850)])
