"""What each check runs."""
import models
from common import *

ASSUMPTIONS = [
    'the harness, which calls the public API and reads frames through its public accessors, reports what it saw',
    'frames whose structure is changed in place leave their views unspecified: those are not looked at any more',
    'functions are called within their documented preconditions (DESIGN.md, "Preconditions")',
    'values: floats are multiples of 1/256 of moderate size where arithmetic is exact, other values compare by identity',
    'histories longer or larger than those explored behave alike (small scope)',
]

QUICK, THOROUGH = 240, 2500     # traces per shard


def random_tasks(run, profile):
    n = THOROUGH if run.thorough else QUICK
    # how many of the shards run under the race detector
    watched = {'C25': CPUS - 2, 'C14': 2, 'C10': 1}.get(profile, 0)
    profiles = PROFILES.get(profile, [profile])
    return [(lambda k=k: random_shard(run, profiles[k % len(profiles)], run.seed, k * n, n, k < watched)) for k in range(CPUS)]


# profiles of the generator, where there is not one
PROFILES = {'C25': ['C25', 'C25p']}

# bounded models whose histories are replayed, per property
MODELS = {
    'C01': ['views', 'views-deep'], 'C02': ['splits'], 'C03': ['sorts'], 'C04': ['writes', 'writes-rename'],
    'C05': ['copies', 'copies-rename'], 'C06': ['structure', 'structure-rows'], 'C07': ['settings', 'structure'],
    'C08': ['concat', 'selections'], 'C09': ['rowcat'], 'C10': ['masks'], 'C11': ['readers'], 'C15': ['texts'], 'C16': ['texts'],
    'C17': ['onehot'], 'C18': ['scale'], 'C19': ['auto'], 'C20': ['json'], 'C21': ['lin'], 'C23': ['print', 'names'], 'C24': ['train'],
    'C14': ['queue'], 'C25': ['par'], 'C26': ['calls', 'fits'],
    'C12': ['write', 'infern'], 'C13': ['infer1', 'infer2', 'infern'], 'C22': ['wfault', 'rfault'],
}
CAP = {'quick': 2500, 'thorough': 60000}   # histories replayed per model
ALL = {'selections', 'calls', 'fits'}                       # models replayed completely


def cap(run, name):
    return 10 ** 9 if name in ALL else CAP['thorough' if run.thorough else 'quick']


def plan(prop):
    def go(run):
        def more():
            for name in MODELS.get(prop, []):
                yield models.model(run, name, cap(run, name))
        gather(run, random_tasks(run, prop), more)
    return go


PLANS = {'C%02d' % k: plan('C%02d' % k) for k in range(1, 27)}
