import lingens as L
from run import Check, Part, MC
ASPECTS = {'order', 'stored', 'dlen', 'status', 'noresponse', 'closed', 'extra', 'nologin'}


def gen_storm(tier, rng):
    return [L.storm(rng, 40 if tier == 'quick' else 80) for _ in range(40 if tier == 'quick' else 600)]


def gen_gated(tier, rng):
    return [L.gated(rng, 14 if tier == 'quick' else 30) for _ in range(30 if tier == 'quick' else 400)]


CHECK = Check('C25', [Part('storm', 'lin_exec', 'LinTrace', ASPECTS, gen_storm, procs=4, cmds=('tgtsrv', 'storm')),
                     Part('gated', 'lin_exec', 'LinTrace', ASPECTS, gen_gated)],
              mc=[MC('LinMC', 'LinMC2.cfg', 'the worlds of the monitor are exactly the linearizations, for every history of four operations on a block')])
