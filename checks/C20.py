from run import Check, Part, MC
import sgens as G

# Responses: long pipelines on several connections, one numbered answer each.

ASPECTS = {'closed', 'data', 'dlen', 'expcmdsn', 'extra', 'missing', 'missing-cmd', 'missing-nop', 'missing-r2t', 'missing-reject', 'missing-text', 'missing-tmf', 'nologin', 'reject', 'sense', 'silent', 'statsn', 'status', 'stored'}


def gen_pipelines(tier, rng):
    n, k = (60, 40) if tier == 'quick' else (600, 120)
    return [G.pipelines(rng, k) for _ in range(n)]


def gen_spec(tier, rng):
    return G.from_tlc(rng, 'SessionGen1.cfg', 80 if tier == 'quick' else 1500)


CHECK = Check('C20', [Part('pipelines', 'session_exec', 'SessionTrace', ASPECTS, gen_pipelines, cfg='SessionTrace.cfg'),
                     Part('spec', 'session_exec', 'SessionTrace', ASPECTS, gen_spec, cfg='SessionTrace.cfg')],
              mc=[MC('SessionMC', 'SessionMC2.cfg', 'solicited data, task sets, resets, rejects of one connection, three PDUs'),
                  MC('SessionMC', 'SessionMC4.cfg', 'the same with four PDUs', tier='thorough', timeout=850)])
