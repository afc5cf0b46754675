import rgens as R
from run import Check, Part, MC
ASPECTS = {'crashed', 'wedged', 'victim', 'lost-data', 'listing', 'notfreed', 'unclosed', 'unreachable', 'nologin'}


def gen(tier, rng):
    return R.scenarios(rng, 64 if tier == 'quick' else 1200, 60)


CHECK = Check('C14', [Part('peer', 'robust_exec', 'RobustTrace', ASPECTS, gen)],
              mc=[MC('RobustMC', 'RobustMC1.cfg', 'both sides agree on PDU boundaries; pings at a boundary are answered or the connection closes; an ended connection is given up')])
