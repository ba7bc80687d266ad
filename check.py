#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE] [--runs N] [--workers N] [--digest OUT]

Exit 0: the property held on every simulated run.  Exit 1 with "VIOLATION property=<id> replay=<path>": it is broken.
"""
import argparse
import atexit
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
HASH2 = '4242'


def reexec():
    """Fixed environment for the whole process tree; compiles the disk seam."""
    scratch = tempfile.mkdtemp(prefix='drecpy-dst-', dir='/tmp')
    shim = os.path.join(scratch, 'shim.so')
    subprocess.run(['gcc', '-O2', '-shared', '-fPIC', '-o', shim, os.path.join(VERIF, 'dst', 'shim.c'), '-ldl'],
                   check=True)
    env = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'LANG', 'LC_ALL', 'VERIF_SEED', 'VERIF_TIER', 'DST_REPO')}
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=os.environ.get('DST_HASHSEED', '0'), MPLBACKEND='Agg',
               CUDA_VISIBLE_DEVICES='', TF_CPP_MIN_LOG_LEVEL='3', MPLCONFIGDIR='/opt/venv/mplconfig',
               TF_ENABLE_ONEDNN_OPTS='0', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', TF_NUM_INTEROP_THREADS='1',
               TF_NUM_INTRAOP_THREADS='1', DST_SCRATCH=scratch, DST_SHIM=shim, LD_PRELOAD=shim, DST_CHILD='1',
               DATA_FOLDER=os.path.join(scratch, 'boot-data'))
    try:
        rc = subprocess.run([PY, '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], env=env).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--wall', type=float)
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--first', type=int, default=0)
    ap.add_argument('--digest', help='write run -> event log digest (determinism proof)')
    ap.add_argument('--results-out', help=argparse.SUPPRESS)   # internal: second interpreter with another hash seed
    ap.add_argument('--keep-going', action='store_true')
    ap.add_argument('--no-min', action='store_true')
    a = ap.parse_args()
    sys.path.insert(0, VERIF)
    from dst import harness as H
    t0 = time.monotonic()
    mono = time.monotonic
    base = os.environ['DST_SCRATCH']
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = importlib.import_module(f'dst.props.{a.property.lower()}').PROP
    H.load_known(prop.ID)
    boot = H.bootstrap()

    if a.results_out:
        if a.replay:
            plans = [(0, json.load(open(a.replay))['plan'])]
        else:
            plans = None
        out = {}
        if plans:
            out['0'] = H.run_once(prop, plans[0][1], None, scratch=os.path.join(base, 'twin0')).get('results')
        else:
            H.search(prop, seed, a.tier, a.runs, a.wall, base, workers=a.workers, first=a.first,
                     on_result=lambda r: out.__setitem__(str(r['run']), r.get('results')), stop_on_violation=False)
        json.dump(out, open(a.results_out, 'w'))
        return 0

    def twin(args):
        """Results of the same runs in an interpreter with another hash seed."""
        d = os.path.join(base, 'twin')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, 'results.json')
        env = dict(os.environ, PYTHONHASHSEED=HASH2, DST_SCRATCH=d, DATA_FOLDER=os.path.join(d, 'boot-data'))
        subprocess.run([PY, '-W', 'ignore', os.path.abspath(__file__), prop.ID, '--results-out', path] + args, env=env,
                       stdout=subprocess.DEVNULL, check=True)
        return json.load(open(path))

    if a.replay and json.load(open(a.replay)).get('twin'):
        plan = json.load(open(a.replay))['plan']
        one = H.run_once(prop, plan, None, scratch=os.path.join(base, 'replay0')).get('results')
        two = twin(['--replay', a.replay])['0']
        print(f'replay: results {one} with hash seed {os.environ["PYTHONHASHSEED"]}, {two} with hash seed {HASH2}')
        if one != two:
            print(f'VIOLATION property={prop.ID} replay={os.path.abspath(a.replay)}')
            return 1
        return 0

    if a.replay:
        rep = json.load(open(a.replay))
        outs = []
        for i in range(2):
            r = H.run_once(prop, rep['plan'], rep.get('schedule'), scratch=os.path.join(base, f'replay{i}'))
            outs.append(r)
        r = outs[0]
        print(f'replay: {r["status"]} {r.get("kind", "")}: {r.get("msg", "")}')
        print(f'replay digests: {[o.get("digest") for o in outs]}')
        if r['status'] == 'violation':
            print(f'VIOLATION property={prop.ID} replay={os.path.abspath(a.replay)}')
            return 1
        return 0

    tier = a.tier
    n_runs = a.runs or prop.RUNS[tier]
    wall = a.wall or prop.WALL[tier]
    agg = {'runs': 0, 'steps': 0, 'vtime': 0.0, 'switches': 0, 'faults': {}, 'probes': {}, 'stats': {}, 'known': {}}
    states, sigs, digests, rdigests = set(), set(), {}, {}
    multi = [0]

    def on_result(r):
        if r['status'] not in ('ok', 'violation'):
            return
        agg['runs'] += 1
        agg['steps'] += r.get('steps', 0)
        agg['vtime'] += r.get('vtime', 0)
        agg['switches'] += r.get('switches', 0)
        for key in ('faults', 'probes', 'stats'):
            for k, v in r.get(key, {}).items():
                agg[key][k] = agg[key].get(k, 0) + v
        agg['known'].update(r.get('known', {}))
        states.update(r.get('states', ()))
        if r.get('threads', 1) > 1 or r.get('switches', 0) > 0:
            multi[0] += 1
            sigs.add(r['sig'])
        digests[r['run']] = r.get('digest')
        rdigests[r['run']] = r.get('results')

    results, bad = H.search(prop, seed, tier, n_runs, wall, base, workers=a.workers, first=a.first,
                            on_result=on_result, stop_on_violation=not a.keep_going)
    search_s = mono() - t0
    if a.digest:
        json.dump({str(k): digests[k] for k in sorted(digests)}, open(a.digest, 'w'), indent=0)

    viols = [b for b in bad if b['status'] == 'violation']
    timeouts = [b for b in bad if b['status'] == 'timeout']
    infra = [b for b in bad if b['status'] not in ('violation', 'timeout')]
    violation = None
    if a.keep_going:
        kinds = {}
        for v in viols:
            kinds.setdefault((v['kind'], re.sub(r'\d+|\[[^]]*\]|\{[^}]*\}', '#', v['msg'])[:230]), []).append(v['run'])
        for (kd, ms), rs in sorted(kinds.items(), key=lambda x: -len(x[1]))[:25]:
            print(f'  [{len(rs)}x] {kd}: {ms}   runs {rs[:5]}')
    for cand in sorted(viols, key=lambda b: b['run']) + sorted(timeouts, key=lambda b: b['run']):
        plan = H.make_plan(prop, seed, cand['run'], tier)
        again = H.run_once(prop, plan, scratch=os.path.join(base, f'again-{cand["run"]}'))
        if cand['status'] == 'timeout':
            if again['status'] != 'timeout':
                infra.append({'status': 'slow', 'run': cand['run'], 'msg': 'timed out once, finished when repeated'})
                if again['status'] != 'violation':
                    continue
            else:
                again = {'status': 'violation', 'kind': 'no-termination',
                         'msg': again['msg'] + ' (twice)', 'decisions': []}
                violation = (plan, None, again, 0, cand['run'])
                break
        if again['status'] != 'violation':
            infra.append({'status': 'unreproduced', 'run': cand['run'], 'msg': f'{cand["kind"]}: {cand["msg"][:300]}'})
            continue
        if a.no_min:
            violation = (plan, again.get('decisions'), again, 0, cand['run'])
        else:
            p, s, r, tries = H.minimise(prop, plan, again, base, wall=prop.MIN_WALL)
            violation = (p, s, r, tries, cand['run'])
        break

    compared = 0
    if violation is None and getattr(prop, 'TWIN', None):
        n2 = min(prop.TWIN[tier], n_runs)
        other = twin(['--tier', tier, '--runs', str(n2), '--wall', str(wall), '--workers', str(a.workers),
                      '--first', str(a.first)])
        for i in sorted(int(x) for x in other):
            if rdigests.get(i) is None and other[str(i)] is None:
                continue
            compared += 1
            if rdigests.get(i) != other[str(i)]:
                plan = H.make_plan(prop, seed, i, tier)
                again = H.run_once(prop, plan, scratch=os.path.join(base, f'again-{i}'))
                if i in rdigests and again.get('results') == rdigests[i]:
                    violation = (plan, None, {'status': 'violation', 'kind': 'hash-dependent', 'digest': None,
                                              'msg': 'the results depend on the hash seed of the interpreter'}, 0, i)
                    break

    n_ok = agg['runs']
    wall_s = round(mono() - t0, 1)
    replay_path = None
    if violation:
        os.makedirs(os.path.join(VERIF, 'evidence', 'replays'), exist_ok=True)
        replay_path = os.path.join(VERIF, 'evidence', 'replays', f'{prop.ID}-{seed}-{violation[4]}.json')
        p, s, r, tries, run = violation
        json.dump({'property': prop.ID, 'verif_seed': seed, 'run': run, 'violation': {'kind': r['kind'],
                   'msg': r['msg']}, 'plan': p, 'schedule': s, 'minimiser_runs': tries, 'digest': r.get('digest'),
                   'twin': r['kind'] == 'hash-dependent',
                   'how': f'./check.py {prop.ID} --replay {replay_path}'}, open(replay_path, 'w'), indent=1)

    nontrivial = len(states | {f's{x}' for x in sigs})
    ev = {
        'property': prop.ID, 'tier': tier, 'seed': seed, 'level': prop.LEVEL,
        'coverage': {
            'evaluations': n_ok, 'distinct_nontrivial': nontrivial, 'rule': prop.RULE,
            'samples': [H.make_plan(prop, seed, a.first + i, tier) for i in range(2)],
            'runs_planned': n_runs, 'runs_finished': n_ok,
            'seeds_per_hour': int(n_ok / max(search_s, 1e-3) * 3600),
            'simulated_seconds': round(agg['vtime'], 1), 'scheduler_steps': agg['steps'],
            'context_switches': agg['switches'], 'multi_threaded_runs': multi[0],
            'distinct_interleavings': len(sigs), 'distinct_states': len(states),
            'faults_fired': agg['faults'], 'probes': agg['probes'], 'seam_counters': agg['stats'],
            'real_components': prop.REAL, 'stubbed_components': prop.STUB,
            'infrastructure_incidents': [f'{x["status"]} run {x.get("run")}: {x["msg"][-300:]}' for x in infra][:10],
            'runs_repeated_with_other_hash_seed': compared,
            'known_findings_hit': agg['known'], 'bootstrap': boot,
        },
        'assumptions': prop.ASSUMPTIONS, 'wall_s': wall_s, 'violations': 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop.ID}.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    for f in sorted(agg['known']):
        print(f'KNOWN-FINDING: property={prop.ID} {H.KNOWN[f]["what"]}')
    print(f'{prop.ID} {tier} seed={seed}: {n_ok}/{n_runs} runs, {agg["vtime"]:.0f} simulated s, {agg["steps"]} steps, '
          f'{len(sigs)} interleavings, {len(states)} states, faults {agg["faults"]}, {wall_s} s')
    for x in infra:
        print(f'  incident: {x["status"]} run {x.get("run")}: {x["msg"][-400:]}')
    if violation:
        print(f'{violation[2]["kind"]}: {violation[2]["msg"]}')
        print(f'VIOLATION property={prop.ID} replay={replay_path}')
        return 1
    if n_ok == 0 or len([x for x in infra if x['status'] != 'slow']) > max(2, n_ok // 20):
        print('harness error: too many runs without a result')
        return 2
    return 0


if __name__ == '__main__':
    if os.environ.get('DST_CHILD') != '1':
        reexec()
    sys.exit(main())
