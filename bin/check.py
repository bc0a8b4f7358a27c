#!/usr/bin/env python3
"""check.py PROP            run the check of one property (VERIF_TIER, VERIF_SEED)
check.py PROP --replay F  replay a recorded violation: exit 1 if it reproduces
"""
import json
import os
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'bin'))
import plan

JYTHON = '/opt/py2/bin/jython'
ENV = dict(os.environ, HOME='/root', PYTHONDONTWRITEBYTECODE='1',
           JYTHONPATH='/opt/py2/lib', LANG='C.UTF-8',
           PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
WORKER = os.path.join(VERIF, 'sim', 'worker.py')


def start(args, work, log):
    # the scratch directories of the simulated runs are made below work/
    return subprocess.Popen(
        [JYTHON, WORKER] + [str(a) for a in args],
        cwd=work, env=dict(ENV, TMPDIR=work), stdout=log,
        stderr=subprocess.STDOUT, start_new_session=True)


def stop(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def replay(prop, path, work):
    out = os.path.join(work, 'replay.json')
    with open(os.path.join(work, 'replay.log'), 'wb') as log:
        p = start(['replay', prop, os.path.abspath(path), out], work, log)
        try:
            p.wait(300)
        except subprocess.TimeoutExpired:
            stop(p)
            return None
    if not os.path.exists(out):
        with open(os.path.join(work, 'replay.log')) as f:
            sys.stderr.write(f.read()[-3000:])
        return None
    with open(out) as f:
        return json.load(f)


def known_findings(prop):
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        return [k for k in json.load(f)['findings']
                if k['property'] == prop and k['status'] == 'known']


def add(total, part):
    for k, v in part.items():
        total[k] = total.get(k, 0) + v


def check(prop, tier, seed, work):
    t0 = time.time()
    workers, count = plan.RUNS[prop][tier]
    cap = plan.CAP[tier]
    jobs = []
    for w in range(workers):
        out = os.path.join(work, 'out%d.json' % w)
        log = open(os.path.join(work, 'log%d' % w), 'wb')
        jobs.append((w, start(['run', prop, tier, seed, w, count, out], work,
                              log), out, log))
    results, failed, violation = {}, None, None
    left = list(jobs)
    while left and violation is None:
        time.sleep(0.1)
        for j in list(left):
            w, p, out, log = j
            if p.poll() is None:
                continue
            left.remove(j)
            if p.returncode != 0 or not os.path.exists(out):
                with open(os.path.join(work, 'log%d' % w)) as f:
                    failed = 'worker %d ended with %s\n%s' % (
                        w, p.returncode, f.read()[-4000:])
                continue
            with open(out) as f:
                results[w] = json.load(f)
            if results[w]['violation']:
                violation = results[w]['violation']
                break
        if time.time() - t0 > cap:
            failed = 'no result after %d s' % cap
            break
    for j in left:
        stop(j[1])
    for j in jobs:
        j[3].close()

    tot = {'runs': 0, 'steps': 0, 'switches': 0, 'sim_s': 0.0, 'replayed': 0,
           'unrepeatable': 0}
    faults, stats, scheds, nontrivial, samples, known = {}, {}, set(), set(), [], {}
    cross = [0, 0]
    digests = {}
    for r in results.values():
        digests.update(r['digests'])
    for r in results.values():
        for k in tot:
            tot[k] += r[k]
        add(faults, r['faults'])
        add(stats, r['stats'])
        scheds |= set(r['scheds'])
        nontrivial |= set(r['nontrivial'])
        samples += r['samples'][:1]
        known.update(r['known'])
        for run, crc in r['cross'].items():
            if run in digests:
                cross[0] += 1
                cross[1] += digests[run] != crc
    wall = time.time() - t0
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': plan.LEVEL.get(prop, 'exploration'),
        'coverage': {
            'evaluations': tot['runs'],
            'distinct_nontrivial': len(nontrivial),
            'rule': plan.RULE[prop],
            'samples': samples[:3],
            'simulated_steps': tot['steps'],
            'context_switches': tot['switches'],
            'simulated_seconds': round(tot['sim_s'], 1),
            'distinct_schedules': len(scheds),
            'distinct_schedules_measure': 'CRC of the sequence of (thread, '
            'step number) at context switches and (thread, operation) at '
            'seam calls',
            'runs_per_hour': int(tot['runs'] * 3600 / max(wall, 0.1)),
            'faults_injected': faults,
            'operations': stats,
            'repeatability': {
                'replayed_in_process': tot['replayed'],
                'differing': tot['unrepeatable'],
                'repeated_in_another_process': cross[0],
                'differing_across_processes': cross[1]},
            'components_real': plan.REAL[prop],
            'components_stubbed': plan.STUB[prop],
            'workers': workers,
        },
        'assumptions': plan.ASSUME.get(prop, plan.ASSUME_ALL),
        'wall_s': round(wall, 1),
        'violations': 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    code = 0
    if violation:
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s-%d-%d.json' % (prop, tier, seed,
                                                     violation['run']))
        with open(path, 'w') as f:
            json.dump(violation, f, indent=1)
        r = replay(prop, path, work)
        ok = r and r['violation'] and \
            r['violation']['kind'] == violation['kind']
        violation['confirmed_in_fresh_process'] = bool(ok)
        violation['same_digest'] = bool(ok and r['crc'] == violation['crc'])
        with open(path, 'w') as f:
            json.dump(violation, f, indent=1)
        evidence['coverage']['violation'] = {
            k: violation[k] for k in ('kind', 'detail', 'run',
                                      'confirmed_in_fresh_process',
                                      'same_digest')}
        print('%s: %s' % (violation['kind'], violation['detail']))
        for line in violation['trace'][-25:]:
            print('  ' + line)
        if ok:
            print('VIOLATION property=%s replay=%s' % (prop, path))
            code = 1
        else:
            failed = 'the violation did not reproduce from %s' % path
    for k in known_findings(prop):
        # every listed finding is looked for, and reported as such
        print('KNOWN-FINDING: property=%s %s%s' % (
            prop, k['what'],
            '' if k['id'] in known else ' (not met in this run)'))
    if failed and code == 0:
        sys.stderr.write('%s: check failed: %s\n' % (prop, failed))
        evidence['coverage']['error'] = failed[:500]
        code = 2
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
    print('%s %s: %d runs, %d steps, %d switches, %d schedules, faults %s, '
          '%s, %.0f s' % (prop, tier, tot['runs'], tot['steps'],
                          tot['switches'], len(scheds),
                          json.dumps(faults, sort_keys=True),
                          json.dumps(stats, sort_keys=True), wall))
    if tot['unrepeatable'] or cross[1]:
        sys.stderr.write('%s: %d + %d repeated runs differed\n' % (
            prop, tot['unrepeatable'], cross[1]))
    return code


def main():
    prop = sys.argv[1]
    with tempfile.TemporaryDirectory(prefix='dst-check-') as work:
        if len(sys.argv) > 3 and sys.argv[2] == '--replay':
            r = replay(prop, sys.argv[3], work)
            if r is None:
                return 2
            if r['violation']:
                print('\n'.join(r['events'][-40:]))
                print('%s: %s' % (r['violation']['kind'],
                                  r['violation']['detail']))
                print('VIOLATION property=%s replay=%s' % (prop, sys.argv[3]))
                return 1
            print('%s: the recorded run shows no violation' % prop)
            return 0
        tier = os.environ.get('VERIF_TIER') or 'quick'
        if tier not in ('quick', 'thorough'):
            tier = 'quick'
        seed = int(os.environ.get('VERIF_SEED') or 1)
        return check(prop, tier, seed, work)


sys.exit(main())
