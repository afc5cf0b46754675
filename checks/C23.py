import lgens as L
from run import Check, Part, MC
ASPECTS = {'key-number', 'key-bool', 'key-digest', 'key-unknown', 'key-other', 'key-extra', 'key-tpgt', 'segments', 'bursts', 'content', 'refused', 'noresponse',
           'login-form', 'login-stage', 'admit-mrdsl'}


def gen(tier, rng):
    return [L.keys(rng, tier) for _ in range(60 if tier == 'quick' else 900)]


CHECK = Check('C23', [Part('keys', 'login_exec', 'LoginTrace', ASPECTS, gen)],
              mc=[MC('LoginMC', 'LoginMC5.cfg', 'the answers that are allowed, for every key and value at the edges; discovery answers')])
