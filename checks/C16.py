import lgens as L
from run import Check, Part, MC
ASPECTS = {'host-admitted', 'host-refused', 'served-dead', 'refused', 'noresponse'}


def gen(tier, rng):
    n = 48 if tier == 'quick' else 700
    return [L.hosts(rng, tier) for _ in range(n)] + [L.reinst_hosts(rng, tier) for _ in range(n // 2)]


def gen_spec(tier, rng):
    return L.from_tlc(rng, 'LoginGen3.cfg', 20 if tier == 'quick' else 300, 'list')


CHECK = Check('C16', [Part('hosts', 'login_exec', 'LoginTrace', ASPECTS, gen), Part('spec', 'login_exec', 'LoginTrace', ASPECTS, gen_spec)], mc=[MC('LoginMC', 'LoginMC2.cfg', 'three connections of two hosts, service on and off', workers='4')])
