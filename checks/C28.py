import dgens as G
from run import Check, Part, MC
ASPECTS = {'start-refused', 'start-accepted', 'start-status', 'end-status', 'hang', 'died', 'unended', 'listing', 'list-dead', 'list-failed', 'list-sessions', 'list-groups',
           'served-dead', 'disc-refused', 'disc-targets', 'disc-portals', 'lun-extra', 'lun-missing', 'capacity', 'thin', 'online', 'refused', 'admitted', 'file-size',
           'file-content', 'luns', 'write-accepted', 'write-failed', 'read-accepted', 'read-failed', 'content', 'noresponse'}


def gen_lives(tier, rng):
    return [G.lives(rng, tier) for _ in range(60 if tier == 'quick' else 900)]


def gen_spec(tier, rng):
    return G.spec(rng, 40 if tier == 'quick' else 600, 45)


CHECK = Check('C28', [Part('lives', 'daemon_exec', 'DaemonTrace', ASPECTS, gen_lives, gotgt=True, cmds=()),
                      Part('spec', 'daemon_exec', 'DaemonTrace', ASPECTS, gen_spec, gotgt=True, cmds=())],
              mc=[MC('DaemonMC', 'DaemonMC1.cfg', 'lives, sessions of two hosts and data over the good and bad configurations'),
                  MC('DaemonMC', 'DaemonMC2.cfg', 'more writes and starts', tier='thorough')])
