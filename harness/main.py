"""main.py PROP [--replay FILE]: runs the check of one property.

The parent starts worker processes, each running its share of the cases; every
case is determined by (seed, property, index), so a replay file only names those.
"""
import importlib
import json
import os
import random
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

REAL_TIME = time.time


def load(prop):
    mod = importlib.import_module('checks.%s' % prop.lower())
    return mod.Check()


def rng_for(seed, prop, idx):
    return random.Random('%s:%s:%s' % (seed, prop, idx))


def known_findings():
    path = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding:'):
                head, _, text = line[len('finding:'):].strip().partition(' | ')
                parts = dict(p.split('=', 1) for p in head.split())
                out.append((parts['property'], parts['mechanism'], text))
    return out


def through_library(e):
    """Was the exception raised in, or through, the code under test?"""
    import env
    from monbackend import FAULTS
    if not isinstance(e, Exception) or isinstance(e, FAULTS + (MemoryError,)):
        return False
    root = os.path.realpath(env.REPO) + os.sep
    tb = e.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def worker(prop, tier, seed, w, workers, out_path, limit):
    from core import Violation, Inconclusive, StopCase, Stats
    check = load(prop)
    stats = Stats()
    result = dict(violations=[], inconclusive=[], errors=[])
    known = set(m for p, m, _ in known_findings() if p == prop)
    result['known'] = {}
    start = REAL_TIME()
    total = check.cases(tier)
    done = 0
    try:
        check.begin(tier, seed, w, workers)
    except Exception as e:
        if not isinstance(e, Violation) and not through_library(e):
            raise
        result['violations'].append(dict(
            idx=-1, mechanism=getattr(e, 'mechanism', 'exception'), detail=str(e), trace=traceback.format_exc().splitlines()))
        total = 0
    for idx in range(w, total, workers):
        if REAL_TIME() - start > limit:
            result['capped'] = True
            break
        try:
            for left in (2, 1, 0):
                try:
                    check.run_case(rng_for(seed, prop, idx), idx, tier, stats)
                    break
                except Inconclusive:        # a thread was given up under load: once more
                    if not left:
                        raise
                    stats.obs['cases tried again'] += 1
                    time.sleep(1)
        except Violation as v:
            if v.mechanism in known:
                result['known'][v.mechanism] = v.detail
            else:
                result['violations'].append(dict(
                    idx=idx, mechanism=v.mechanism, detail=v.detail, trace=v.trace))
                if len(result['violations']) >= 3:
                    break
        except StopCase as e:
            stats.obs['stopped:' + str(e)] += 1
        except Inconclusive as e:
            result['inconclusive'].append('case %d: %s' % (idx, e))
            if len(result['inconclusive']) > 5:
                break
        except BaseException as e:
            if through_library(e):
                result['violations'].append(dict(
                    idx=idx, mechanism='exception', detail='the library raised %s: %s' % (type(e).__name__, e),
                    trace=(getattr(e, '_tb', None) or traceback.format_exc()).splitlines()))
                if len(result['violations']) >= 3:
                    break
                continue
            result['errors'].append('case %d: %s\n%s' % (
                idx, e, getattr(e, '_tb', None) or traceback.format_exc()))
            if len(result['errors']) >= 3:
                break
        done += 1
    try:
        check.end(stats)
    except Violation as v:
        result['violations'].append(dict(idx=-1, mechanism=v.mechanism, detail=v.detail, trace=v.trace))
    result.update(done=done, evaluations=stats.evaluations, obs=dict(stats.obs),
                  sigs=sorted(stats.sigs), samples=stats.samples)
    with open(out_path, 'w') as f:
        json.dump(result, f, default=repr)


def replay(path):
    from core import Violation, Stats
    data = json.load(open(path))
    check = load(data['property'])
    check.begin(data['tier'], data['seed'], 0, 1)
    stats = Stats()
    for k in ('detail', 'mechanism'):
        print(k, ':', data[k])
    try:
        try:
            check.run_case(rng_for(data['seed'], data['property'], data['idx']), data['idx'], data['tier'], stats)
        except Exception as e:
            if not through_library(e):
                raise
            raise Violation('exception', repr(e), traceback.format_exc().splitlines())
    except Violation as v:
        print('VIOLATION property=%s replay=%s' % (data['property'], path))
        print(v.mechanism, v.detail)
        for line in v.trace or ():
            print('   ', line)
        return 1
    print('not reproduced')
    return 0


def parent(prop):
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    for a in ('quick', 'thorough'):
        if '--' + a in sys.argv:
            tier = a
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = REAL_TIME()
    check = load(prop)
    workers = min(check.workers, os.cpu_count() or 4)
    limit = 120 if tier == 'quick' else 700
    scratch = os.path.join(VERIF, 'replays', '.run-%s-%d' % (prop, os.getpid()))
    os.makedirs(scratch)
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    env.pop('DJANGO_SETTINGS_MODULE', None)
    procs = []
    for w in range(workers):
        out = os.path.join(scratch, '%d.json' % w)
        err = open(os.path.join(scratch, '%d.err' % w), 'w')
        p = subprocess.Popen(
            [sys.executable, os.path.abspath(__file__), prop, '--worker', str(w), str(workers),
             out, tier, str(seed), str(limit)],
            stdin=subprocess.DEVNULL, stdout=err, stderr=err, env=env, start_new_session=True)
        err.close()
        procs.append((p, out, err.name))
    merged = dict(evaluations=0, done=0, obs={}, sigs=set(), samples=[])
    violations, problems, known = [], [], {}
    capped = False
    deadline = t0 + limit + 90
    for p, out, err in procs:
        try:
            p.wait(max(1, deadline - REAL_TIME()))
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
            problems.append('worker watchdog fired')
        else:
            try:
                os.killpg(p.pid, 9)         # forked children it may have left
            except OSError:
                pass
        if os.path.exists(out):
            r = json.load(open(out))
            merged['evaluations'] += r['evaluations']
            merged['done'] += r['done']
            for k, v in r['obs'].items():
                merged['obs'][k] = merged['obs'].get(k, 0) + v
            merged['sigs'].update(r['sigs'])
            merged['samples'].extend(r['samples'])
            violations.extend(r['violations'])
            known.update(r['known'])
            problems.extend(r['inconclusive'])
            problems.extend(r['errors'])
            capped = capped or r.get('capped', False)
        else:
            problems.append('worker died: ' + open(err).read()[-3000:])
    for name in os.listdir(scratch):
        os.remove(os.path.join(scratch, name))
    os.rmdir(scratch)

    for need, minimum in check.required(tier).items():
        if merged['obs'].get(need, 0) < minimum and not violations:
            problems.append('too few observations of %r: %d < %d' % (need, merged['obs'].get(need, 0), minimum))

    coverage = dict(
        evaluations=merged['evaluations'], distinct_nontrivial=len(merged['sigs']),
        rule=check.rule, samples=merged['samples'][:3] or ['(none)'],
        cases=merged['done'], observed=dict(sorted(merged['obs'].items())),
        time_capped=capped)
    coverage.update(check.extra_coverage(merged))
    evidence = dict(property=prop, tier=tier, seed=seed, level=check.level, coverage=coverage,
                    assumptions=check.assumptions, wall_s=round(REAL_TIME() - t0, 2),
                    violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', '%s.json' % prop), 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True, default=repr)
        f.write('\n')

    texts = {(p, m): t for p, m, t in known_findings()}
    for m in sorted(known):
        print('KNOWN-FINDING: property=%s %s' % (prop, texts[(prop, m)]))
    if violations:
        seen = set()
        for v in sorted(violations, key=lambda v: v['idx']):
            if v['mechanism'] in seen:
                continue
            seen.add(v['mechanism'])
            name = '%s-%s-%s.json' % (prop, seed, v['idx'])
            path = os.path.join(VERIF, 'replays', name)
            with open(path, 'w') as f:
                json.dump(dict(property=prop, seed=seed, tier=tier, **v), f, indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  %s: %s' % (v['mechanism'], v['detail']))
            for line in (v['trace'] or [])[-60:]:
                print('    ' + str(line))
        return 1
    print('%s %s seed=%d: %d cases, %d evaluations, %d distinct non-trivial, %.1fs%s' % (
        prop, tier, seed, merged['done'], merged['evaluations'], len(merged['sigs']),
        REAL_TIME() - t0, ' (time cap)' if capped else ''))
    if problems:
        print('INCONCLUSIVE property=%s' % prop)
        for p in problems[:5]:
            print('  ' + p)
        return 2
    return 0


def main():
    prop = sys.argv[1]
    import env
    try:
        env.setup()
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    if '--worker' in sys.argv:
        i = sys.argv.index('--worker')
        w, workers, out, tier, seed, limit = sys.argv[i + 1:i + 7]
        worker(prop, tier, int(seed), int(w), int(workers), out, float(limit))
        sys.stdout.flush()
        os._exit(0)
    if '--replay' in sys.argv:
        rc = replay(sys.argv[sys.argv.index('--replay') + 1])
        sys.stdout.flush()
        os._exit(rc)
    sys.exit(parent(prop))


if __name__ == '__main__':
    main()
