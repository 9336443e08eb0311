"""Entry point of the checks:  run.py <property> <quick|thorough>
                              run.py --replay <file>

The parent starts one worker per core.  A worker drives the real chumpy of
/repo through scenario histories, and hands the recorded histories to TLC,
which replays them as behaviours of the specification and reports every
disagreement.  Nothing here decides right or wrong: TLC does.
"""
import json
import os
import random
import signal
import subprocess
import sys
import tempfile
import shutil
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
ENV = {'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1', 'PYTHONDONTWRITEBYTECODE': '1',
       'PYTHONWARNINGS': 'ignore', 'MPLBACKEND': 'Agg', 'PYTHONHASHSEED': '0'}
WORKERS = int(os.environ.get('VP_WORKERS', '8'))


def load():
    import warnings
    warnings.simplefilter('ignore')
    sys.setrecursionlimit(6000)
    import chumpy as ch
    assert os.path.abspath(ch.__file__).startswith(os.path.abspath(REPO) + os.sep), ch.__file__
    from harness import ops
    ops.register(ch)
    return ch


def make_case(ch, r, prop, seedstr):
    """run one scenario; returns the name of the scenario"""
    from harness import checks
    from harness.rec import Dead
    rng = random.Random(seedstr)
    np_seed(seedstr)
    name, fn, hooks = checks.choose(prop, rng)
    r.rng = rng
    r.case(hooks=hooks, tag=name)
    try:
        fn(r, rng)
    except Dead:
        pass
    finally:
        r.restore()
    return name


def np_seed(s):
    import numpy as np
    import zlib
    np.random.seed(zlib.crc32(s.encode()) & 0x7fffffff)


CASE_CPU = 90


class Hang(BaseException):
    pass


def on_prof(sig, frame):
    raise Hang()


UNABLE = ('timed out', 'ArithmeticException', 'verflow', 'divided by zero', 'by zero', 'OutOfMemory')


def validate(cases, lines, limit=300, deadline=None):
    """TLC's verdict; a history the specification cannot step through is isolated and reported.
    A history TLC cannot finish (time, memory, machine integers) is left undecided."""
    from harness import tlc
    deadline = deadline or time.time() + 560
    try:
        return tlc.validate_chunk(lines, limit, heap='2600m')
    except tlc.TLCError as e:
        unable = any(u in str(e) for u in UNABLE)
        if not unable and 'unexpected exception' not in str(e) and 'Evaluating' not in str(e) and 'Attempted' not in str(e):
            raise
        if len(cases) == 1 or (unable and time.time() > deadline):
            if unable:
                return {'bad': [], 'cnt': {'undecided_histories': len(cases)}, 'states': 0}
            return {'bad': [{'case': json.loads(cases[0][0])['id'], 'clause': 'no-step', 'node': 0, 'line': 0, 'info': str(e)[:600]}],
                    'cnt': {}, 'states': 0}
        h = len(cases) // 2
        tot = {'bad': [], 'cnt': {}, 'states': 0}
        for part in (cases[:h], cases[h:]):
            v = validate(part, [ln for c in part for ln in c], max(15, min(60, limit / 2)), deadline)
            tot['bad'] += v['bad']
            tot['states'] += v['states']
            for a, b in v['cnt'].items():
                tot['cnt'][a] = tot['cnt'].get(a, 0) + b
            if tot['bad']:
                break
        return tot


def worker(args):
    signal.signal(signal.SIGPROF, on_prof)
    prop, tier, seed, k, rounds, n, out, stop = args[0], args[1], args[2], int(args[3]), int(args[4]), int(args[5]), args[6], float(args[7])
    ch = load()
    from harness.rec import Rec
    from harness import tlc, checks
    res = {'cases': 0, 'events': 0, 'states': 0, 'cnt': {}, 'bad': [], 'tags': {}, 'errors': [], 'samples': [], 'rounds': 0,
           'distinct': 0, 'raised': 0}
    kinds = set()
    rd = 0
    try:
        while rd < rounds and (rd == 0 or time.time() < stop):
            r = Rec(ch, random.Random(0))
            seeds = []
            for i in range(n):
                if rd > 0 and time.time() > stop:
                    break
                s = '%s-%s-%s-%d-%d-%d' % (seed, prop, 'c', k, rd, i)
                nb = len(r.cases)
                with open(out + '.at', 'w') as f:
                    f.write(s)
                signal.setitimer(signal.ITIMER_PROF, CASE_CPU)
                try:
                    tag = make_case(ch, r, prop, s)
                except Exception as e:
                    tb = traceback.format_exc()
                    if (os.path.abspath(REPO) + os.sep) in tb:
                        # the code under test raised where the specification has no failing step
                        res['bad'].append({'case': 0, 'clause': 'raised', 'node': 0, 'info': tb[-600:], 'seed': s, 'tag': 'unguarded',
                                           'lines': list(r.lines)})
                    else:
                        res['errors'].append({'seed': s, 'tb': tb[-3000:]})
                        r.end()          # what was recorded up to then is a history as well
                    r.lines = []
                    tag = 'harness-error'
                except Hang:
                    res['bad'].append({'case': 0, 'clause': 'no-answer', 'node': 0, 'info': 'no answer after %d s of cpu time' % CASE_CPU,
                                       'seed': s, 'tag': 'hang', 'lines': list(r.lines)})
                    r.lines = []
                    tag = 'hang'
                signal.setitimer(signal.ITIMER_PROF, 0)
                r.end()
                while len(seeds) < len(r.cases):
                    seeds.append(s)
                res['tags'][tag] = res['tags'].get(tag, 0) + 1
                if tag == 'hang':
                    break
            cases = [c for c in r.cases]
            # renumber
            for i, c in enumerate(cases):
                d = json.loads(c[0])
                d['id'] = i + 1
                c[0] = json.dumps(d, separators=(',', ':'))
            lines = [ln for c in cases for ln in c]
            if cases:
                v = validate(cases, lines)
                res['states'] += v['states']
                for a, b in v['cnt'].items():
                    res['cnt'][a] = res['cnt'].get(a, 0) + b
                for b in v['bad']:
                    b['seed'] = seeds[b['case'] - 1]
                    b['tag'] = json.loads(cases[b['case'] - 1][0]).get('tag', '')
                    if len(res['bad']) < 10:
                        b['lines'] = cases[b['case'] - 1]
                        res['bad'].append(b)
            for c in cases:
                key = json.dumps([(json.loads(x).get('ev'), json.loads(x).get('op')) for x in c])
                kinds.add(key)
            res['cases'] += len(cases)
            res['events'] += len(lines)
            if cases and len(res['samples']) < 2:
                c = cases[len(cases) // 2]
                res['samples'].append({'tag': json.loads(c[0]).get('tag', ''), 'events': len(c),
                                       'history': [x[:200] for x in c[:6]]})
            rd += 1
            res['rounds'] = rd
            if res['bad']:
                break
    except tlc.TLCError as e:
        res['errors'].append({'seed': 'tlc', 'tb': str(e)[-4000:]})
    res['distinct'] = len(kinds)
    with open(out, 'w') as f:
        json.dump(res, f)


def known_findings():
    """lines 'known: property=<id> key=<key> <what>' of known-findings.txt"""
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith('known: '):
                d = {}
                rest = []
                for w in ln[7:].split():
                    if '=' in w and w.split('=')[0] in ('property', 'key') and not rest:
                        a, b = w.split('=', 1)
                        d[a] = b
                    else:
                        rest.append(w)
                d['what'] = ' '.join(rest)
                out.append(d)
    return out


def crashes(prop, seed, env):
    """does the history kill a fresh interpreter as well?"""
    f = tempfile.NamedTemporaryFile('w', suffix='.json', delete=False)
    json.dump({'property': prop, 'seed': seed}, f)
    f.close()
    try:
        pr = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(HERE, 'run.py'), '--only', f.name], env=env,
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
        return pr.returncode < 0
    except subprocess.TimeoutExpired:
        return False
    finally:
        os.unlink(f.name)


def main(prop, tier):
    t0 = time.time()
    seed = os.environ.get('VERIF_SEED', '1')
    from harness import plan
    cfg = plan.PLAN[prop]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='vp_run_')
    env = dict(os.environ)
    env.update(ENV)
    budget = float(os.environ.get('VERIF_BUDGET', '600'))
    rounds = 1 if tier == 'quick' else 100000
    n = cfg['quick'] if tier == 'quick' else cfg.get('round', cfg['quick'])
    if os.environ.get('VP_N'):
        n = int(os.environ['VP_N'])
    if os.environ.get('VP_MODELS_ONLY'):
        n = 0
    stop = t0 + (budget if tier != 'quick' else 400)
    bad, errors = [], []
    tot = {'cases': 0, 'events': 0, 'states': 0, 'distinct': 0, 'rounds': 0, 'cnt': {}, 'tags': {}, 'samples': []}
    models = []
    try:
        procs = []
        if n:
            for k in range(WORKERS):
                out = os.path.join(tmp, 'w%d.json' % k)
                share = n // WORKERS + (1 if k < n % WORKERS else 0)
                if share == 0:
                    continue
                procs.append((out, subprocess.Popen(
                    [sys.executable, '-W', 'ignore', os.path.join(HERE, 'run.py'), '--worker', prop, tier, seed, str(k), str(rounds),
                     str(share), out, str(stop)], env=env, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                    universal_newlines=True)))
        # specification-level checks (exhaustive TLC runs and replays) of this property
        for m in (() if os.environ.get('VP_N') else cfg.get('models', ())):
            from harness import models as M
            res = M.run(m, prop, tier, seed, tmp, stop)
            models.append(res)
            bad += res.get('bad', [])
            errors += res.get('errors', [])
        for out, p in procs:
            try:
                txt = p.communicate(timeout=max(30, (t0 + 840 if tier == 'quick' else stop + 900) - time.time()))[0]
            except subprocess.TimeoutExpired:
                p.kill()
                txt = p.communicate()[0]
                errors.append({'seed': 'worker', 'tb': 'worker timed out\n' + (txt or '')[-3000:]})
                continue
            if p.returncode != 0 or not os.path.exists(out):
                at = open(out + '.at').read() if os.path.exists(out + '.at') else ''
                if p.returncode < 0 and at and crashes(prop, at, env):
                    bad.append({'clause': 'crash', 'seed': at, 'tag': 'the interpreter died (signal %d)' % -p.returncode, 'node': 0, 'info': ''})
                else:
                    errors.append({'seed': 'worker ' + at, 'tb': (txt or '')[-3000:]})
                continue
            res = json.load(open(out))
            for k in ('cases', 'events', 'states', 'distinct', 'rounds'):
                tot[k] += res[k]
            for k in ('cnt', 'tags'):
                for a, b in res[k].items():
                    tot[k][a] = tot[k].get(a, 0) + b
            tot['samples'] += res['samples']
            bad += res['bad']
            errors += res['errors']
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    # listed findings: reported, not raised
    kf = [k for k in known_findings() if k.get('property') == prop]
    for k in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    keys = set(k.get('key') for k in kf)
    bad = [b for b in bad if b.get('key') not in keys or b.get('key') is None]

    replay = None
    if bad:
        b = bad[0]
        replay = os.path.join(VERIF, 'evidence', '%s.replay.json' % prop)
        with open(replay, 'w') as f:
            json.dump({'property': prop, 'seed': b.get('seed'), 'clause': b.get('clause'), 'tag': b.get('tag'), 'node': b.get('node'),
                       'info': b.get('info'), 'line': b.get('line'), 'history': b.get('lines', []), 'others': [
                           {x: y for x, y in q.items() if x != 'lines'} for q in bad[1:20]]}, f, indent=1)
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': int(seed) if seed.isdigit() else 0, 'level': cfg['level'],
        'coverage': {
            'states': tot['states'] + sum(m.get('states', 0) for m in models),
            'transitions': tot['events'] + sum(m.get('transitions', 0) for m in models),
            'traces_validated_against_impl': tot['cases'] + sum(m.get('traces', 0) for m in models),
            'evaluations': tot['cnt'].get('obs', 0), 'distinct_nontrivial': tot['distinct'],
            'rule': 'histories with different sequences of (event, operation)',
            'numbers_compared': tot['cnt'].get('agree', 0), 'numbers_undecided': tot['cnt'].get('incon', 0),
            'undecided_histories': tot['cnt'].get('undecided_histories', 0), 'scenarios': tot['tags'], 'rounds': tot['rounds'], 'models': [
                {x: y for x, y in m.items() if x not in ('bad', 'errors')} for m in models],
            'samples': (tot['samples'][:4] or []) + [s for m in models for s in m.get('samples', [])][:3],
        },
        'wall_s': round(wall, 2),
        'violations': [{'clause': b.get('clause'), 'tag': b.get('tag'), 'seed': b.get('seed'), 'replay': replay} for b in bad[:10]],
    }
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d histories, %d events, %d numbers compared (%d undecided), %d disagreements, %d errors, %.1fs' % (
        prop, tier, ev['coverage']['traces_validated_against_impl'], tot['events'], tot['cnt'].get('agree', 0), tot['cnt'].get('incon', 0), len(bad), len(errors), wall))
    if bad:
        for b in bad[:5]:
            print('  %s: scenario %s node %s info %s seed %s' % (b.get('clause'), b.get('tag'), b.get('node'), str(b.get('info'))[:200], b.get('seed')))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    if tot['cnt'].get('undecided_histories', 0) * 2 > tot['cases'] > 0:
        errors.append({'seed': 'tlc', 'tb': 'most histories undecided'})
    if errors:
        for e in errors[:3]:
            print('MACHINERY ERROR %s\n%s' % (e['seed'], e['tb']))
        return 2
    return 0


def replay(path, only=False):
    """run the history of a replay file again, on the current tree"""
    d = json.load(open(path))
    from harness.rec import Rec
    from harness import tlc
    if not d.get('seed') or d['seed'].count('-') < 5 or d['seed'].startswith('['):
        # the history of a model replay: the recorded lines are judged again
        for ln in d.get('history', []):
            print(ln[:400])
        return 0
    ch = load()
    r = Rec(ch, random.Random(0))
    make_case(ch, r, d['property'], d['seed'])
    r.end()
    if only:
        return 0
    v = tlc.validate_chunk(r.cases[-1], 600)
    for ln in r.cases[-1]:
        print(ln[:400])
    print(json.dumps(v)[:2000])
    return 1 if v['bad'] else 0


if __name__ == '__main__':
    os.environ.update(ENV)
    if sys.argv[1] == '--worker':
        worker(sys.argv[2:])
    elif sys.argv[1] == '--mworker':
        from harness import models as M
        M.mworker(load(), sys.argv[2], validate)
    elif sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    elif sys.argv[1] == '--only':
        sys.exit(replay(sys.argv[2], True))
    else:
        sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
