import lgens as L
from run import Check, Part, MC
ASPECTS = {'service-admitted', 'admit-service', 'unstopped', 'unstarted', 'target-twice', 'target-bad', 'target-refused', 'listing', 'nexus', 'content', 'refused',
           'noresponse', 'served-dead', 'storm'}


def gen(tier, rng):
    return [L.service(rng, tier) for _ in range(40 if tier == 'quick' else 600)]


def gen_spec(tier, rng):
    return L.from_tlc(rng, 'LoginGen4.cfg', 16 if tier == 'quick' else 250, 'list ping write')


def gen_listing(tier, rng):
    n, ms, k = (2500, 2500, 2) if tier == 'quick' else (20000, 20000, 8)
    return [L.listing(rng, kind, n, ms) for kind in ('logout', 'many', 'drop', 'reinst') for _ in range(k)]


CHECK = Check('C22', [Part('service', 'login_exec', 'LoginTrace', ASPECTS, gen),
                      Part('listing', 'login_exec', 'LoginTrace', ASPECTS, gen_listing, procs=4, cmds=('tgtsrv', 'storm')),
                      Part('spec', 'login_exec', 'LoginTrace', ASPECTS, gen_spec)], mc=[MC('LoginMC', 'LoginMC2.cfg', 'three connections of two hosts, service on and off', workers='4')])
