"""Driver: explores all groups of one property and reports."""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
if VERIF not in sys.path:
    sys.path.insert(0, VERIF)


def worker(argv):
    prop, tier, spec = argv
    from mc import common
    with open(spec) as f:
        job = json.load(f)
    mod = importlib.import_module('mc.' + prop.lower())
    rec = common.Recorder(job['out'], job['group'], tier, only=job.get('only'),
                          case_timeout=getattr(mod, 'CASE_TIMEOUT', 300))
    os.makedirs(job['cwd'], exist_ok=True)
    os.chdir(job['cwd'])
    try:
        mod.run_group(job['group'], rec)
    except (Exception, SystemExit) as e:
        import traceback
        rec.violation({'setup': job['group']},
                      'set-up of the exploration fails: {:}: {:}\n{:}'.format(
                          type(e).__name__, e, traceback.format_exc(limit=-8)))
    rec.finish()
    sys.stdout.flush()
    os._exit(0)


def read_results(path):
    viol, done = [], None
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if 'violation' in d:
                    viol.append(d['violation'])
                if 'done' in d:
                    done = d['done']
    return viol, done


def known_findings(prop):
    known = {}
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                w = line.strip().split(None, 3)
                if len(w) == 4 and w[0] == 'known:' and w[1] == 'property=' + prop \
                        and w[2].startswith('key='):
                    known[w[2][4:]] = w[3]
    return known


def main():
    if len(sys.argv) > 1 and sys.argv[1] == '--worker':
        return worker(sys.argv[2:])
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                    choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--group', type=int, action='append')
    ap.add_argument('-j', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop = a.property.upper()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    mod = importlib.import_module('mc.' + prop.lower())
    only = None
    replaying = None
    if a.replay:
        with open(a.replay) as f:
            replaying = json.load(f)
        groups = [replaying['group']]
        a.tier = replaying['tier']
        only = replaying['case']
        if isinstance(only, dict) and 'setup' in only:
            only = None
    else:
        groups = mod.groups(a.tier)
        if a.group:
            groups = [groups[i] for i in a.group]
    tmp = tempfile.mkdtemp(prefix='vp-%s-' % prop)
    limit = getattr(mod, 'GROUP_TIMEOUT', 780) if a.tier == 'quick' else 6*3600
    todo = list(range(len(groups)))
    tries = {i: 0 for i in todo}
    running = {}
    results = {}

    def start(i):
        tries[i] += 1
        out = os.path.join(tmp, 'out-%d-%d' % (i, tries[i]))
        spec = os.path.join(tmp, 'spec-%d' % i)
        with open(spec, 'w') as f:
            json.dump({'group': groups[i], 'out': out, 'only': only,
                       'cwd': os.path.join(tmp, 'cwd-%d-%d' % (i, tries[i]))}, f)
        log = open(os.path.join(tmp, 'log-%d' % i), 'w')
        p = subprocess.Popen([sys.executable, '-u', os.path.join(HERE, 'run.py'), '--worker',
                              prop, a.tier, spec], stdout=log, stderr=subprocess.STDOUT,
                             cwd=tmp, start_new_session=True)
        running[i] = (p, time.time(), out, log)

    try:
        while todo or running:
            while todo and len(running) < a.j:
                start(todo.pop(0))
            time.sleep(0.05)
            for i in list(running):
                p, ts, out, log = running[i]
                rc = p.poll()
                timed_out = rc is None and time.time() - ts > limit
                if rc is None and not timed_out:
                    continue
                if timed_out:
                    try:
                        os.killpg(p.pid, 9)
                    except OSError:
                        pass
                    p.wait()
                log.close()
                del running[i]
                viol, done = read_results(out)
                if done is None and not viol and not timed_out and tries[i] < 2:
                    todo.append(i)   # died (out of memory?): once more
                    continue
                if done is None:
                    with open(os.path.join(tmp, 'log-%d' % i), errors='replace') as f:
                        tail = f.read()[-2500:]
                    if not viol:
                        viol = viol + [{'case': {'setup': groups[i]}, 'group': groups[i], 'key': None,
                                        'message': ('exploration does not terminate' if timed_out else
                                                    'process under test died, status %r' % rc)
                                        + '\n' + tail}]
                    done = {'states': [], 'transitions': 0, 'traces': 0, 'evaluations': 0,
                            'distinct': 0, 'samples': [], 'notes': {}}
                results[i] = (viol, done)
                if a.v:
                    print('group %d %s: %.1f s, %d cases, %d violations' % (
                        i, json.dumps(groups[i])[:100], time.time() - ts,
                        done['evaluations'], len(viol)), flush=True)
    finally:
        for p, _, _, log in running.values():
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            log.close()
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(tmp, ignore_errors=True)
        else:
            print('kept', tmp)

    # aggregate
    states = set()
    tot = {'transitions': 0, 'traces': 0, 'evaluations': 0, 'distinct': 0}
    samples, notes, violations = [], {}, []
    for i in sorted(results):
        viol, done = results[i]
        states.update(done['states'])
        for k in tot:
            tot[k] += done[k]
        for k, v in done['notes'].items():
            notes[k] = notes.get(k, 0) + v
        if done['samples'] and len(samples) < 6:
            samples.append({'group': groups[i], 'case': done['samples'][-1]})
        violations += viol
    known = known_findings(prop)
    unlisted, hit = [], {}
    for v in violations:
        if v.get('key') and v['key'] in known:
            hit[v['key']] = hit.get(v['key'], 0) + 1
        else:
            unlisted.append(v)
    for k in sorted(hit):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
    rdir = os.path.join(VERIF, 'replays', prop)
    if not replaying:
        shutil.rmtree(rdir, ignore_errors=True)
    for n, v in enumerate(unlisted):
        if replaying:
            path = a.replay
        else:
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, 'violation-%03d.json' % n)
            with open(path, 'w') as f:
                json.dump({'property': prop, 'tier': a.tier, 'group': v['group'],
                           'case': v['case'], 'message': v['message'], 'key': v.get('key')}, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        if n < 3:
            print('  case: %s' % json.dumps(v['case'])[:700])
            print('  ' + v['message'].replace('\n', '\n  ')[:2500], flush=True)
    wall = time.time() - t0
    level = getattr(mod, 'LEVEL', 'model_checking')
    cov = {'exhaustive': True, 'evaluations': tot['evaluations'],
           'distinct_nontrivial': tot['distinct'],
           'rule': mod.RULE, 'states': len(states), 'transitions': tot['transitions'],
           'traces_validated_against_impl': tot['traces'],
           'samples': samples, 'groups': len(groups), 'counters': notes,
           'known_findings_hit': sorted(hit)}
    ev = {'property': prop, 'tier': a.tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2),
          'violations': len(unlisted)}
    if not replaying and not a.group:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s: %d cases, %d states, %d transitions, %d traces, %d violations, %d known, %.1f s'
          % (prop, a.tier, tot['evaluations'], len(states), tot['transitions'], tot['traces'],
             len(unlisted), sum(hit.values()), wall))
    if not unlisted and not replaying and not a.group and tot['evaluations'] == 0:
        # an exploration that explored nothing decides nothing
        print('VIOLATION property=%s replay=-' % prop)
        return 1
    return 1 if unlisted else 0


if __name__ == '__main__':
    sys.exit(main())
