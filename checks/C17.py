import sgens as G
from run import Check, Part, MC
ASPECTS = {'count', 'iops', 'volume', 'snapshot', 'lost', 'extra', 'nologin', 'silent'}


def gen(tier, rng):
    return [G.counted(rng, 40) for _ in range(60 if tier == 'quick' else 900)]


def gen_blast(tier, rng):
    return [G.blasts(rng, 600 if tier == 'quick' else 3000) for _ in range(8 if tier == 'quick' else 60)]


CHECK = Check('C17', [Part('histories', 'stats_exec', 'StatsTrace', ASPECTS, gen),
                     Part('concurrent', 'stats_exec', 'StatsTrace', ASPECTS, gen_blast, procs=3)],
              mc=[MC('StatsMC', 'StatsMC1.cfg', 'three commands answered in any order, a snapshot at any time'),
                  MC('StatsMC', 'StatsMC2.cfg', 'four commands, two snapshots', tier='thorough')])
