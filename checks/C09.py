import lgens as L, sgens as S
from run import Check, Part, MC
ASPECTS = {'tsih', 'tsih-zero', 'tsih-dup', 'admit-tsih', 'nexus', 'closed', 'unclosed', 'served-dead', 'refused', 'noresponse', 'storm', 'login-tag', 'content'}


def gen(tier, rng):
    return [L.sessions(rng, tier) for _ in range(60 if tier == 'quick' else 900)]


def gen_many(tier, rng):
    # more sessions one after the other than there are handles, for each way in which a session ends
    return [L.handles(rng, k, 66000) for k in ('logout', 'drop', 'reinst', 'many', 'disc', 'half', 'fail')]


def gen_spec(tier, rng):
    return L.from_tlc(rng, 'LoginGen2.cfg', 20 if tier == 'quick' else 300, 'ping list')


TAKEN = {'extra', 'stored', 'data', 'closed', 'unclosed', 'silent', 'missing', 'tmf', 'status', 'notfreed', 'nologin', 'crashed'}


def gen_takeovers(tier, rng):
    return [S.takeovers(rng, 6 if tier == 'quick' else 14) for _ in range(24 if tier == 'quick' else 300)]


CHECK = Check('C09', [Part('sessions', 'login_exec', 'LoginTrace', ASPECTS, gen),
                      Part('handles', 'login_exec', 'LoginTrace', ASPECTS, gen_many, procs=7, cmds=('tgtsrv', 'storm')),
                      Part('takeovers', 'session_exec', 'SessionTrace', TAKEN, gen_takeovers, cfg='SessionTrace.cfg'),
                      Part('spec', 'login_exec', 'LoginTrace', ASPECTS, gen_spec)], mc=[MC('LoginMC', 'LoginMC1.cfg', 'three connections, quoted and fresh handles, two portals', workers='4'), MC('LoginMC', 'LoginMC4.cfg', 'three connections of two initiators, discovery', workers='4', tier='thorough')])
