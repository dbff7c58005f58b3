#!/usr/bin/env python3
"""check.py ID [--replay FILE] : decides property ID on the code in /repo.

VERIF_TIER (quick, thorough) and VERIF_SEED are read from the environment."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import common, plans
from common import *


def evidence(run, violations):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    cov = {
        'states': run.states, 'transitions': run.transitions,
        'model_states': run.model_states, 'model_transitions': run.model_transitions,
        'traces_validated_against_impl': run.accepted, 'steps_executed_on_impl': run.steps,
        'traces_too_large_to_judge': run.undecided,
        'operations': dict(sorted(run.ops.items())), 'samples': run.samples,
    }
    cov.update(run.notes)
    e = {'property': run.prop, 'tier': run.tier, 'seed': run.seed, 'level': 'model_checking', 'coverage': cov,
         'assumptions': plans.ASSUMPTIONS, 'wall_s': round(time.time() - run.t0, 1), 'violations': violations}
    json.dump(e, open(os.path.join(VERIF, 'evidence', run.prop + '.json'), 'w'), indent=1)


def report(run, v):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (run.prop, v.trace['id'].replace('/', '_')))
    json.dump({'property': run.prop, 'origin': v.origin, 'step': v.step, 'why': v.why, 'trace': v.trace}, open(path, 'w'))
    st = v.trace['steps'][v.step - 1] if 0 < v.step <= len(v.trace['steps']) else {}
    print('trace %s, step %d of %d' % (v.trace['id'], v.step, len(v.trace['steps'])))
    print('step: %s' % json.dumps(brief(st))[:1500])
    for w in v.why[:6]:
        print('  not allowed by the specification: %s' % w)
    print('VIOLATION property=%s replay=%s' % (run.prop, path))


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    run = Run(prop, tier, seed)
    try:
        run.build()
        if len(sys.argv) > 3 and sys.argv[2] == '--replay':
            t = json.load(open(sys.argv[3]))['trace']
            replay_shard(run, [t], 'file', run.race is not None and not any('sched' in s for s in t['steps']))
        else:
            plans.PLANS[prop](run)
        for k in run.known:
            print('KNOWN-FINDING: property=%s %s' % (prop, k))
        evidence(run, 0)
        print('property %s held: %d traces (%d steps) of the code are behaviours of the specification; '
              'model: %d states; %.0f s' % (prop, run.accepted, run.steps, run.model_states, time.time() - run.t0))
        return 0
    except Violation as v:
        evidence(run, 1)
        report(run, v)
        return 1
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        run.close()


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    os._exit(code)
