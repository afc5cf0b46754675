import lgens as L
from run import Check, Part, MC
ASPECTS = {'targets', 'text-form', 'content', 'noresponse', 'refused', 'disc-served', 'listing'}


def gen(tier, rng):
    return [L.discovery(rng, tier) for _ in range(70 if tier == 'quick' else 900)]


CHECK = Check('C13', [Part('discovery', 'login_exec', 'LoginTrace', ASPECTS, gen)],
              mc=[MC('LoginMC', 'LoginMC5.cfg', 'the answers that are allowed, for every key and value at the edges; discovery answers')])
