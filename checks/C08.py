import lgens as L
from run import Check, Part, MC
ASPECTS = {'admit-stage', 'admit-type', 'admit-target', 'admit-portal', 'admit-auth', 'admit-mrdsl', 'admit-early', 'login-stage', 'login-form', 'login-twice',
           'served-early', 'served-dead', 'disc-served', 'content', 'unclosed', 'refused', 'noresponse'}


def gen(tier, rng):
    return [L.alike(rng)] + L.phases(rng) + [L.entry(rng, tier) for _ in range(60 if tier == 'quick' else 900)]


def gen_spec(tier, rng):
    return L.from_tlc(rng, 'LoginGen1.cfg', 20 if tier == 'quick' else 300, 'ping write')


CHECK = Check('C08', [Part('entry', 'login_exec', 'LoginTrace', ASPECTS, gen), Part('spec', 'login_exec', 'LoginTrace', ASPECTS, gen_spec)], mc=[MC('LoginMC', 'LoginMC3.cfg', 'every kind of login request, two connections, two portals, service on and off', workers='4'), MC('LoginMC', 'LoginMC2.cfg', 'three connections of two hosts, service on and off', workers='4', tier='thorough')])
