#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decides one property on /repo's working tree.

exit 0: held on everything explored; exit 1 with a VIOLATION line: it did not;
exit 2: no verdict (a tool failed).  Tier and seed default to VERIF_TIER and VERIF_SEED.
"""
import concurrent.futures as cf
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import conf            # noqa: E402
import models          # noqa: E402
import extra           # noqa: E402

V = set
# property -> what is drawn from the specification, in which builds it is replayed, and which
# obligations count.  sims: (spec, main, step, init, quick (procs, traces, steps), thorough (...))
PLAN = {
    'C01': dict(sims=[('api.qnt', 'api', 'stepScalar', (8, 3, 600), (8, 20, 1000)),
                      ('chains.qnt', 'chains', 'stepFr', (6, 1, 30), (8, 10, 60))],
                builds=['dev', 'release'], want='value zero'),
    'C02': dict(sims=[('api.qnt', 'api', 'stepDecode', (8, 3, 600), (8, 20, 1000)),
                      ('chains.qnt', 'chains', 'stepDec', (4, 1, 30), (8, 10, 60))],
                builds=['dev', 'release'], want='value zero'),
    'C03': dict(sims=[('api.qnt', 'api', 'stepCanon', (8, 3, 450), (8, 20, 800)),
                      ('chains.qnt', 'chains', 'stepFr', (3, 1, 30), (8, 5, 60))],
                builds=['dev', 'release'], want='value zero eq enc canon'),
    'C04': dict(sims=[('api.qnt', 'api', 'stepG1', (8, 3, 350), (8, 20, 600)),
                      ('chains.qnt', 'chains', 'stepG1c', (6, 1, 40), (8, 10, 80))],
                builds=['dev', 'release'], want='value zero'),
    'C05': dict(sims=[('api.qnt', 'api', 'stepG2', (8, 2, 350), (8, 20, 500)),
                      ('chains.qnt', 'chains', 'stepG2c', (6, 1, 40), (8, 10, 80))],
                builds=['dev', 'release'], want='value zero'),
    'C06': dict(sims=[('api.qnt', 'api', 'stepMul', (8, 2, 300), (8, 20, 300)),
                      ('chains.qnt', 'chains', 'stepMulc', (6, 1, 40), (8, 10, 80))],
                builds=['dev', 'release'], want='value zero'),
    'C07': dict(sims=[('api.qnt', 'api', 'stepEq', (8, 2, 300), (8, 20, 400)),
                      ('chains.qnt', 'chains', 'stepRace', (4, 1, 40), (8, 10, 80))],
                builds=['dev', 'release'], want='value zero eq'),
    'C08': dict(sims=[('api.qnt', 'api', 'stepNorm', (8, 2, 300), (8, 20, 400)),
                      ('chains.qnt', 'chains', 'stepRace', (4, 1, 40), (8, 10, 80))],
                builds=['dev', 'release'], want='value zero canon'),
    'C09': dict(sims=[('api.qnt', 'api', 'stepBilinear', (8, 2, 250), (8, 20, 300)),
                      ('chains.qnt', 'chains', 'stepPairc', (4, 1, 30), (8, 10, 60))],
                builds=['dev', 'release'], want='value'),
    'C10': dict(sims=[('api.qnt', 'api', 'stepPair', (6, 2, 150), (8, 20, 300)),
                      ('api.qnt', 'api', 'stepPairRef', (2, 1, 6), (8, 4, 30)),
                      ('chains.qnt', 'chains', 'stepPairc', (3, 1, 30), (8, 10, 60))],
                builds=['dev', 'release'], want='value'),
    'C11': dict(sims=[('api.qnt', 'api', 'stepGt', (8, 2, 300), (8, 20, 400)),
                      ('chains.qnt', 'chains', 'stepGtc', (6, 1, 30), (8, 10, 60))],
                builds=['dev', 'release'], want='value eq canon'),
    'C12': dict(sims=[('api.qnt', 'api', 'stepSer', (8, 2, 200), (8, 20, 400)),
                      ('api.qnt', 'api', 'stepStream', (8, 2, 200), (8, 20, 400)),
                      ('chains.qnt', 'chains', 'stepSerc', (4, 1, 30), (8, 10, 60))],
                builds=['dev', 'release'], want='value zero eq same'),
    'C13': dict(sims=[('api.qnt', 'api', 'stepSer', (8, 2, 200), (8, 20, 400)),
                      ('api.qnt', 'api', 'stepStream', (8, 2, 200), (8, 20, 400)),
                      ('chains.qnt', 'chains', 'stepSerc', (4, 1, 30), (8, 10, 60))],
                builds=['borsh', 'borsh-release'], want='value zero eq same'),
    'C14': dict(sims=[('api.qnt', 'api', 'stepLoad', (8, 2, 100), (8, 20, 300)),
                      ('chains.qnt', 'chains', 'stepForge', (4, 1, 30), (8, 10, 60))],
                builds=['dev', 'release', 'borsh'], want='value zero'),
    'C15': dict(sims=[('api.qnt', 'api', 'stepSer', (4, 2, 150), (8, 10, 400)),
                      ('api.qnt', 'api', 'stepStream', (4, 2, 150), (8, 10, 400)),
                      ('api.qnt', 'api', 'stepAll', (4, 2, 150), (8, 10, 400))],
                builds=['dev', 'release', 'borsh'], want='value enc same', cross=True),
    'C16': dict(sims=[('arith.qnt', 'arith', 'step', (8, 10, 600), (8, 100, 2000)),
                      ('arith.qnt', 'arith', 'stepLaw', (4, 1, 50), (8, 10, 200))],
                builds=['dev', 'release'], want=''),
    'C17': dict(sims=[('arith.qnt', 'arith', 'stepWide', (8, 10, 600), (8, 100, 2000)),
                      ('arith.qnt', 'arith', 'stepWideLaw', (4, 1, 50), (8, 10, 200))],
                builds=['dev', 'release'], want=''),
    'C18': dict(sims=[], builds=['dev', 'release'], want=''),
    'C19': dict(sims=[('protocol.qnt', 'protocolReal', 'step', (8, 8, 500), (8, 60, 1000)),
                      ('chains.qnt', 'chains', 'stepProto', (3, 1, 20), (8, 5, 60))],
                builds=['dev', 'release', 'borsh'], want='zero eq same'),
    'C20': dict(sims=[('api.qnt', 'api', 'stepAll', (6, 3, 300), (8, 20, 400)),
                      ('arith.qnt', 'arith', 'step', (1, 4, 600), (4, 20, 2000)),
                      ('arith.qnt', 'arith', 'stepWide', (1, 4, 600), (4, 20, 2000)),
                      ('chains.qnt', 'chains', 'stepChains', (3, 1, 40), (8, 10, 60))],
                builds=['dev', 'release', 'borsh'], want='total'),
    'C21': dict(sims=[('api.qnt', 'api', 'stepAll', (4, 2, 200), (8, 10, 300)), ('api.qnt', 'api', 'stepTwin', (4, 2, 350), (8, 10, 800)),
                      ('arith.qnt', 'arith', 'step', (1, 2, 600), (4, 10, 2000)), ('arith.qnt', 'arith', 'stepWide', (1, 2, 600), (4, 10, 2000)),
                      ('chains.qnt', 'chains', 'stepChains', (4, 1, 30), (4, 4, 40))],
                builds=['dev', 'release', 'borsh'], want='value zero eq', cross=True, par=True),
}


def replay_file(pid, k, v):
    d = os.path.join(conf.VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.json' % (pid, k))
    with open(path, 'w') as f:
        json.dump(dict(v, property=pid), f, indent=1)
    return path


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    plan = PLAN[pid]
    t0 = time.time()
    pool = cf.ThreadPoolExecutor(1)
    bins = conf.build(plan['builds'])
    runner = conf.Runner(bins)
    t1 = time.time()
    violations = []
    design = pool.submit(models.run, pid, tier, seed)      # meanwhile
    jobs = []
    for spec, main_, step, q, th in plan['sims']:
        procs, traces, steps = q if tier == 'quick' else th
        jobs.append(dict(spec=spec, main=main_, step=step, procs=procs, traces=traces, steps=steps, inv='inv', seed=seed,
                         label=pid))
    behaviours = conf.simulate(jobs) if jobs else []
    t2 = time.time()
    stats, vio = conf.run_conformance(runner, behaviours, plan['builds'], V(plan['want'].split()))
    violations += vio
    if plan.get('cross') or plan.get('par'):
        n, vio = extra.cross(runner, behaviours, plan['builds'], plan.get('par', False))
        stats['cross'] = n
        violations += vio
    part, vio = extra.run(pid, tier, seed, runner, plan['builds'])
    violations += vio
    try:
        mod = design.result()
    except conf.ToolError:
        if not violations:
            raise
        mod = {'level': models.level(pid), 'states': 0, 'transitions': 0, 'runs': [], 'samples': []}
    cov = coverage(pid, plan, behaviours, stats, part, mod)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': mod['level'], 'coverage': cov,
          'assumptions': ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(conf.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(conf.VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    conf.log('%s %s: build %.1fs, simulate %.1fs, total %.1fs; %d behaviours, %d events, %d executed; model states %d' % (
        pid, tier, t1 - t0, t2 - t1, time.time() - t0, len(behaviours), stats['events'], stats['executed'], mod['states']))
    for k, v in enumerate(violations[:5]):
        p = replay_file(pid, k, v)
        print('%s' % '; '.join(v['complaints'])[:600])
        print('  at: %s (%s build)' % (v['line'][:300], v['build']))
        print('VIOLATION property=%s replay=%s' % (pid, p), flush=True)
    return 1 if violations else 0


ASSUMPTIONS = [
    'Quint simulator, TLC and the Rust compiler are correct',
    'values are observed through the public interface: serialization words, into_bytes, ==, is_zero, Display/Debug',
]


def coverage(pid, plan, behaviours, stats, part, mod):
    samples = []
    for t in behaviours[:3]:
        for e in t['events'][5:40:17]:
            samples.append({'behaviour': '%s/%s seed %d #%d' % (t['main'], t['step'], t['seed'], t['index']),
                            'call': conf.LINE[t['main']](e)[:400], 'obliged': {k: e[k] for k in ('rej', 'v', 'z', 'eq') if k in e}})
    samples = samples[:6] + part.get('samples', [])[:4] + mod.get('samples', [])[:4]
    cov = {
        'evaluations': stats['executed'] + part.get('evaluations', 0),
        'distinct_nontrivial': len(stats['distinct']) + part.get('distinct', 0),
        'rule': 'an evaluation is one call of the public API executed in one build and judged against the obligations the '
                'specification attached to it; distinct by (operation, payload, obliged value, obliged equalities), '
                'non-trivial when the result is not just a constant, zero, one or the identity. ' + part.get('rule', ''),
        'traces_validated_against_impl': stats['replayed'] + part.get('traces', 0),
        'spec_behaviours': len(behaviours),
        'spec_states_simulated': sum(t['states'] for t in behaviours),
        'calls_inside_chains_and_laws': stats['inner'],
        'operations': stats['ops'],
        'states': mod['states'],
        'transitions': mod['transitions'],
        'models': mod['runs'],
        'samples': samples,
        'exhaustive': False,
    }
    if 'cross' in stats:
        cov['cross_build_and_thread_comparisons'] = stats['cross']
    cov.update(part.get('coverage', {}))
    return cov


if __name__ == '__main__':
    try:
        rc = main()
    except conf.ToolError as e:
        print('NO VERDICT: %s' % e, flush=True)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
