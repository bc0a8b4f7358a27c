"""Runs simulated executions of one property (Jython).

worker.py run PROP TIER SEED WORKER COUNT OUT
worker.py replay PROP FILE OUT
"""
import json
import os
import sys
import time
import traceback
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(2 ** 20)

import core
import fs
import props


def execute(prop, tier, seed=None, replay=None):
    """One simulated run.  Returns a dict."""
    ch = core.Chooser(seed, replay)
    sim = core.Sim(ch)
    root = fs.scratch()
    home = os.getcwd()
    out = {'violation': None}
    try:
        fs.FS(sim, root)
        sim.fs.crash_ok = True
        core.activate(sim)
        os.chdir(root)
        ctx = props.Ctx(sim, ch, root, tier)
        try:
            props.SCENARIOS[prop](ctx)
        except core.Violation, v:
            out['violation'] = {'kind': v.kind, 'detail': v.detail}
            sim.note('violation', v.kind)
        out['stats'] = ctx.stats
        out['nontrivial'] = ctx.nontrivial
        out['summary'] = ctx.summary
        out['known'] = ctx.known
    finally:
        os.chdir(home)
        core.activate(None)
        fs.wipe(root)
    out['choices'] = ch.rec
    out['labels'] = ch.labels
    out['crc'] = sim.crc
    out['sched'] = sim.sched
    out['steps'] = sim.steps
    out['switches'] = sim.switches
    out['sim_s'] = sim.clock - sim.t0
    out['faults'] = sim.faults
    out['events'] = sim.events
    return out


def shrink(prop, tier, first, budget):
    """Smaller choice list with a violation of the same kind."""
    kind = first['violation']['kind']
    best = first
    end = time.time() + budget
    tried = [0]

    def attempt(cand):
        if time.time() > end:
            return None
        tried[0] += 1
        try:
            r = execute(prop, tier, replay=cand)
        except Exception:
            return None
        if r['violation'] and r['violation']['kind'] == kind:
            return r
        return None

    def strip(rec):
        rec = list(rec)
        while rec and rec[-1] == 0:
            rec.pop()
        return rec

    cur = strip(best['choices'])
    progress = True
    while progress and time.time() < end:
        progress = False
        for mode in ('cut', 'drop', 'zero', 'less'):
            size = max(1, len(cur) // 2)
            while size >= 1 and time.time() < end:
                i = 0
                while i < len(cur) and time.time() < end:
                    if mode == 'cut':
                        cand = cur[:len(cur) - size]
                        i = len(cur)
                    elif mode == 'drop':
                        cand = cur[:i] + cur[i + size:]
                    elif mode == 'zero':
                        if not any(cur[i:i + size]):
                            i += size
                            continue
                        cand = cur[:i] + [0] * len(cur[i:i + size]) + \
                            cur[i + size:]
                    else:
                        if size > 1 or cur[i] < 2:
                            i += size
                            continue
                        cand = cur[:i] + [cur[i] // 2] + cur[i + 1:]
                    cand = strip(cand)
                    if cand == cur:
                        i += size
                        continue
                    r = attempt(cand)
                    if r is not None:
                        best = r
                        cur = strip(cand)
                        progress = True
                    else:
                        i += size
                size //= 2
    best['choices'] = cur
    return best, tried[0]


def merge(total, part):
    for k, v in part.items():
        total[k] = total.get(k, 0) + v


def main():
    fs.install()
    mode, prop = sys.argv[1:3]
    if mode == 'replay':
        with fs.R['open'](sys.argv[3]) as f:
            rep = json.load(f)
        out = sys.argv[4]
        props.prepare(prop)
        r = execute(prop, rep.get('tier', 'quick'), replay=rep['choices'])
        with fs.R['open'](out, 'w') as f:
            json.dump({'violation': r['violation'], 'crc': r['crc'],
                       'events': r['events']}, f)
        return
    tier, seed, worker, count, out = sys.argv[3], int(sys.argv[4]), \
        int(sys.argv[5]), int(sys.argv[6]), sys.argv[7]
    t_boot = time.time()
    props.prepare(prop)
    t0 = time.time()
    res = {'runs': 0, 'steps': 0, 'switches': 0, 'sim_s': 0.0, 'faults': {},
           'stats': {}, 'scheds': {}, 'nontrivial': {}, 'samples': [],
           'violation': None, 'known': {}, 'replayed': 0, 'unrepeatable': 0,
           'cross': {}, 'digests': {},
           'boot_s': t0 - t_boot}
    def seed_of(run_id):
        s = zlib.crc32('%s/%d/%d' % (prop, seed, run_id)) & 0xffffffff
        return s * 4294967296 + seed * 1000003 + run_id

    for i in range(count):
        # a slow machine does fewer runs, never other ones
        if time.time() - t0 > (420 if tier == 'quick' else 3 * 3600):
            break
        run_id = worker * 1000000 + i
        if i % 100 == 11:
            # a run of another worker, to compare the two processes
            other = (worker ^ 1) * 1000000 + i
            res['cross'][str(other)] = execute(prop, tier,
                                               seed=seed_of(other))['crc']
        r = execute(prop, tier, seed=seed_of(run_id))
        res['runs'] += 1
        res['steps'] += r['steps']
        res['switches'] += r['switches']
        res['sim_s'] += r['sim_s']
        merge(res['faults'], r['faults'])
        merge(res['stats'], r['stats'])
        res['scheds'][str(r['sched'])] = 1
        res['digests'][str(run_id)] = r['crc']
        for k in r['known']:
            res['known'][k] = r['known'][k]
        if r['nontrivial']:
            res['nontrivial'][str(zlib.crc32(repr(r['choices']))
                                  & 0xffffffff)] = 1
        if len(res['samples']) < 2 and r['nontrivial'] and r['summary']:
            res['samples'].append({'run': run_id, 'case': r['summary'],
                                   'faults': r['faults'],
                                   'steps': r['steps'],
                                   'switches': r['switches'],
                                   'choices': r['choices'][:60]})
        if r['violation'] is None and i % 25 == 3:
            # one seed is one execution: do it again from its record
            q = execute(prop, tier, replay=r['choices'])
            res['replayed'] += 1
            if q['crc'] != r['crc']:
                res['unrepeatable'] += 1
                for a, b in zip(r['events'], q['events']):
                    if a != b:
                        sys.stderr.write('run %d is not repeatable: %r / %r'
                                         % (run_id, a, b))
                        break
        if r['violation'] is not None:
            best, tried = shrink(prop, tier, r, 60 if tier == 'quick' else 180)
            res['violation'] = {
                'property': prop, 'tier': tier, 'seed': seed, 'run': run_id,
                'kind': best['violation']['kind'],
                'detail': best['violation']['detail'],
                'choices': best['choices'], 'crc': best['crc'],
                'choice_labels': best['labels'][:len(best['choices'])],
                'trace': best['events'][-200:],
                'original_choices': len(r['choices']),
                'shrink_runs': tried, 'summary': best['summary']}
            break
    res['wall_s'] = time.time() - t0
    with fs.R['open'](out, 'w') as f:
        json.dump(res, f)


try:
    main()
    code = 0
except BaseException:
    traceback.print_exc()
    code = 3
sys.stderr.flush()
from java.lang import Runtime
Runtime.getRuntime().halt(code)
