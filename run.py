#!/opt/venv/bin/python
"""
Entry point of every check.

    run.py C01 [--tier quick|thorough]     run the check of property C01
    run.py --replay replays/C01-xxx.json   re-run one recorded failing case
    run.py --list                          list the registered checks

Exit codes: 0 held, 1 violation (VIOLATION line printed), 2 error of the check.
"""
import argparse
import importlib
import json
import mmap
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
NWORKERS = 8
MAX_WALL = {'quick': 840, 'thorough': 6 * 3600}


def load(pid):
    from lib import engine
    names = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, 'checks')) if f.startswith(pid.lower() + '_') and f.endswith('.py'))
    if len(names) != 1:
        raise SystemExit('no single check file for %s' % pid)
    path = os.path.join(HERE, 'checks', names[0] + '.py')
    # SOURCES is needed before the module under test is imported
    import ast
    sources = []
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', None) == 'SOURCES':
            sources = ast.literal_eval(node.value)
    engine.harvest(sources)
    return importlib.import_module('checks.' + names[0])


# ------------------------------------------------------------------ worker

def worker(args):
    from lib import engine
    sys.path.insert(0, REPO)
    if os.environ.get('VERIF_CFOG'):
        sys.path.insert(0, os.environ['VERIF_CFOG'])
    out = {'tests': {}, 'failure': None, 'error': None}

    def save():
        with open(args.out + '.tmp', 'w') as f:
            json.dump(out, f)
        os.replace(args.out + '.tmp', args.out)

    try:
        cov = engine.Coverage([os.path.join(REPO, 'fog') + '/'])
        mod = load(args.pid)
        hard = getattr(mod, 'HARD', False)
        if not hard:
            signal.signal(signal.SIGVTALRM, engine._on_timer)
            signal.signal(signal.SIGALRM, engine._on_timer)
        journal = None
        if hard:
            with open(args.out + '.journal', 'wb') as f:
                f.write(b'\0' * (1 << 20))
            jf = open(args.out + '.journal', 'r+b')
            journal = mmap.mmap(jf.fileno(), 1 << 20)
        if not hard:
            cov.start()
        save()
        for test in mod.TESTS:
            total = getattr(test, args.tier)
            n = total // args.nworkers + (1 if args.index < total % args.nworkers else 0)
            rng = random.Random(engine.stable_hash(args.seed, args.pid, test.name, args.index))
            corpus = []
            digests = set()
            labels = {}
            samples = []
            cases = 0
            cov.take()
            failure = None
            t0 = time.process_time()
            for i in range(n):
                if corpus and rng.random() < test.mutate:
                    prefix = engine.mutate(rng, corpus[rng.randrange(len(corpus))], corpus)
                else:
                    prefix = ()
                d = engine.Draw(rng=rng, prefix=prefix)
                if journal is not None:
                    d.journal = (journal, test.name, i)
                msg = engine.run_case(test, d, hard)
                cases += 1
                if d.nt_key is not None:
                    digests.add(engine.nt_digest(d.nt_key))
                    if len(samples) < 3 and (i % 7 == 0 or i > n // 2):
                        samples.append(engine.short(d.case, 400))
                for lab in d.labels:
                    labels[lab] = labels.get(lab, 0) + 1
                if cov.take() and len(d.rec) < 3000:
                    corpus.append(d.rec)
                if msg is not None:
                    seq = d.rec
                    failure = {'test': test.name, 'message': msg, 'case': engine.short(d.case, 4000),
                               'choices': seq, 'seed': args.seed, 'tier': args.tier, 'worker': args.index,
                               'nworkers': args.nworkers, 'hashseed': os.environ.get('PYTHONHASHSEED', '0'),
                               'case_index': i, 'reproduces_alone': False}
                    s = engine.shrink(test, seq, msg, engine.LITS)
                    if s is not None:
                        failure.update({'choices': s['choices'], 'message': s['message'],
                                        'case': engine.short(s['case'], 4000), 'reproduces_alone': True,
                                        'original_case': engine.short(d.case, 4000),
                                        'shrink_executions': s['executions']})
                    break
            out['tests'][test.name] = {'cases': cases, 'digests': sorted(digests), 'labels': labels,
                                       'samples': samples, 'corpus': len(corpus),
                                       'cpu_s': round(time.process_time() - t0, 2)}
            if failure:
                out['failure'] = failure
                break
        out['coverage'] = cov.summary()
        out['done'] = True
    except BaseException:
        out['error'] = traceback.format_exc()
    save()


# ------------------------------------------------------------------ parent

def env_for(index, scratch, cfog):
    env = dict(os.environ)
    env['PYTHONHASHSEED'] = str(index)
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONPYCACHEPREFIX'] = os.path.join(scratch, 'pyc')
    env['VERIF_REPO'] = REPO
    env['VERIF_SCRATCH'] = scratch
    env['OPENBLAS_NUM_THREADS'] = '1'
    env['OMP_NUM_THREADS'] = '1'
    if cfog:
        env['VERIF_CFOG'] = cfog
    return env


def needs_cfog(pid):
    path = [f for f in os.listdir(os.path.join(HERE, 'checks')) if f.startswith(pid.lower() + '_') and f.endswith('.py')]
    if len(path) != 1:
        print('no single check file for %s' % pid)
        sys.exit(2)
    return '\nNEEDS_CFOG = True' in open(os.path.join(HERE, 'checks', path[0])).read()


def read_journal(path):
    try:
        with open(path, 'rb') as f:
            size = int.from_bytes(f.read(4), 'little')
            return json.loads(f.read(size).decode()) if size else None
    except (OSError, ValueError):
        return None


def run_check(pid, tier, seed):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    procs = []
    try:
        cfog = None
        if needs_cfog(pid):
            from lib import cbuild
            cfog = cbuild.build(REPO, os.path.join(scratch, 'cfog-build'))
            cfog_asan = cbuild.build(REPO, os.path.join(scratch, 'cfog-asan'), asan=True)
        outs = []
        for i in range(NWORKERS):
            out = os.path.join(scratch, 'w%d.json' % i)
            outs.append(out)
            log = open(out + '.log', 'w')
            env = env_for(i, scratch, cfog)
            if cfog and i % 4 == 0:
                # These workers run the extension under AddressSanitizer
                env.update(cbuild.asan_env())
                env['VERIF_CFOG'] = cfog_asan
            procs.append(subprocess.Popen(
                [PY, os.path.join(HERE, 'run.py'), pid, '--tier', tier, '--worker', '--index', str(i),
                 '--nworkers', str(NWORKERS), '--seed', str(seed), '--out', out],
                env=env, stdout=log, stderr=subprocess.STDOUT, cwd=HERE,
                start_new_session=True))
        pending = set(range(NWORKERS))
        failures = []
        errors = []
        while pending:
            for i in sorted(pending):
                rc = procs[i].poll()
                if rc is None:
                    continue
                pending.discard(i)
                res = None
                try:
                    res = json.load(open(outs[i]))
                except (OSError, ValueError):
                    pass
                if res and res.get('error'):
                    errors.append(res['error'])
                elif res and res.get('failure'):
                    failures.append(res['failure'])
                elif not res or not res.get('done'):
                    j = read_journal(outs[i] + '.journal')
                    if rc < 0 and j is not None:
                        failures.append({'test': j['test'], 'message': 'the process was killed by signal %d (%s) while running this case' % (-rc, signal.Signals(-rc).name),
                                         'case': j['case'], 'choices': j['choices'], 'seed': seed, 'tier': tier,
                                         'worker': i, 'nworkers': NWORKERS, 'hashseed': str(i),
                                         'log': open(outs[i] + '.log').read()[:3000],
                                         'asan': bool(cfog and i % 4 == 0), 'case_index': j['index'], 'reproduces_alone': True})
                    else:
                        errors.append('worker %d died (exit %s): %s' % (i, rc, open(outs[i] + '.log').read()[-3000:]))
            if failures:
                break
            if time.time() - t0 > MAX_WALL[tier]:
                errors.append('inconclusive: wall budget exceeded')
                break
            time.sleep(0.02)
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
        # Aggregation
        tests = {}
        digests = set()
        lines = branches = 0
        for o in outs:
            try:
                res = json.load(open(o))
            except (OSError, ValueError):
                continue
            lines = max(lines, res.get('coverage', {}).get('lines', 0))
            branches = max(branches, res.get('coverage', {}).get('branch_sides', 0))
            for name, t in res['tests'].items():
                agg = tests.setdefault(name, {'cases': 0, 'nontrivial': set(), 'labels': {}, 'samples': [], 'corpus': 0, 'cpu_s': 0})
                agg['cases'] += t['cases']
                agg['cpu_s'] = round(agg['cpu_s'] + t['cpu_s'], 2)
                agg['corpus'] += t['corpus']
                agg['nontrivial'].update(t['digests'])
                for k, v in t['labels'].items():
                    agg['labels'][k] = agg['labels'].get(k, 0) + v
                if len(agg['samples']) < 3:
                    agg['samples'].extend(t['samples'][:3 - len(agg['samples'])])
        evaluations = sum(t['cases'] for t in tests.values())
        distinct = sum(len(t['nontrivial']) for t in tests.values())
        samples = [{'test': n, 'case': s} for n, t in tests.items() for s in t['samples']]
        meta = check_meta(pid)
        evidence = {
            'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
            'coverage': {
                'evaluations': evaluations,
                'distinct_nontrivial': distinct,
                'rule': meta['rule'],
                'samples': samples,
                'per_test': {n: {'cases': t['cases'], 'distinct_nontrivial': len(t['nontrivial']),
                                 'classes': dict(sorted(t['labels'].items())),
                                 'coverage_corpus': t['corpus'], 'cpu_s': t['cpu_s']} for n, t in tests.items()},
                'code_lines_reached_max_worker': lines,
                'code_branch_sides_reached_max_worker': branches,
                'workers': NWORKERS,
            },
            'assumptions': meta['assumptions'],
            'wall_s': round(time.time() - t0, 2),
            'violations': len(failures),
        }
        # VERIF_OUT: another place for what a run writes (development only)
        dest = os.environ.get('VERIF_OUT') or HERE
        os.makedirs(os.path.join(dest, 'evidence'), exist_ok=True)
        with open(os.path.join(dest, 'evidence', '%s.json' % pid), 'w') as f:
            json.dump(evidence, f, indent=1)
        if failures:
            failures.sort(key=lambda f: (not f['reproduces_alone'], len(f['choices']), f['worker']))
            f = failures[0]
            f['property'] = pid
            os.makedirs(os.path.join(dest, 'replays'), exist_ok=True)
            path = os.path.join(dest, 'replays', '%s-%s.json' % (pid, f['test']))
            with open(path, 'w') as h:
                json.dump(f, h, indent=1)
            print('test: %s' % f['test'])
            print('case: %s' % f['case'])
            print('problem: %s' % f['message'])
            print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
        if errors:
            print('ERROR of the check %s' % pid)
            print('\n'.join(errors)[:6000])
            return 2
        for line in known_lines(pid, scratch, cfog):
            print(line)
        print('%s held: %d cases, %d distinct non-trivial, %.1f s' % (pid, evaluations, distinct, time.time() - t0))
        return 0
    finally:
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        shutil.rmtree(scratch, ignore_errors=True)


def check_meta(pid):
    """RULE and ASSUMPTIONS of the check file, without importing it."""
    import ast
    name = [f for f in os.listdir(os.path.join(HERE, 'checks')) if f.startswith(pid.lower() + '_') and f.endswith('.py')][0]
    meta = {'rule': '', 'assumptions': []}
    for node in ast.parse(open(os.path.join(HERE, 'checks', name)).read()).body:
        if isinstance(node, ast.Assign):
            n = getattr(node.targets[0], 'id', None)
            if n == 'RULE':
                meta['rule'] = ast.literal_eval(node.value)
            elif n == 'ASSUMPTIONS':
                meta['assumptions'] = ast.literal_eval(node.value)
    return meta


def known_lines(pid, scratch, cfog):
    """Re-executes the listed findings of this property; one line per finding that still fails."""
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        known = [k for k in json.load(f)['findings'] if k['property'] == pid]
    lines = []
    for k in known:
        p = subprocess.run([PY, '-c', k['reproduce']], env=dict(env_for(0, scratch, cfog), PYTHONPATH=REPO),
                           capture_output=True, text=True, cwd=scratch, timeout=120)
        if p.returncode != 0:
            lines.append('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    return lines


# ------------------------------------------------------------------ replay

def replay(path):
    f = json.load(open(path))
    pid = f['property']
    if os.environ.get('PYTHONHASHSEED') != f['hashseed'] or 'VERIF_SCRATCH' not in os.environ:
        scratch = tempfile.mkdtemp(prefix='verif-replay-')
        try:
            cfog = None
            if needs_cfog(pid):
                from lib import cbuild
                cfog = cbuild.build(REPO, os.path.join(scratch, 'cfog-build'), asan=bool(f.get('asan')))
            env = env_for(int(f['hashseed']), scratch, cfog)
            if f.get('asan'):
                env.update(cbuild.asan_env())
            p = subprocess.run([PY, os.path.join(HERE, 'run.py'), '--replay', path], env=env)
            if p.returncode < 0:
                print('killed by signal %d' % -p.returncode)
                print('VIOLATION property=%s replay=%s' % (pid, path))
                return 1
            return p.returncode
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    from lib import engine
    sys.path.insert(0, REPO)
    if os.environ.get('VERIF_CFOG'):
        sys.path.insert(0, os.environ['VERIF_CFOG'])
    mod = load(pid)
    if not getattr(mod, 'HARD', False):
        signal.signal(signal.SIGVTALRM, engine._on_timer)
        signal.signal(signal.SIGALRM, engine._on_timer)
    test = [t for t in mod.TESTS if t.name == f['test']][0]
    d = engine.Draw(prefix=f['choices'], zero_tail=True)
    if not f.get('reproduces_alone', True):
        print('this case only fails after the cases before it: re-run the check with VERIF_SEED=%s' % f['seed'])
    msg = engine.run_case(test, d)
    print('case: %s' % engine.short(d.case, 4000))
    if msg is None:
        print('the case passes')
        return 0
    print('problem: %s' % msg)
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--worker', action='store_true')
    ap.add_argument('--index', type=int, default=0)
    ap.add_argument('--nworkers', type=int, default=NWORKERS)
    ap.add_argument('--seed', type=int)
    ap.add_argument('--out')
    args = ap.parse_args()
    if args.list:
        for f in sorted(os.listdir(os.path.join(HERE, 'checks'))):
            if f.endswith('.py') and f[0] == 'c':
                print(f)
        return 0
    if args.replay:
        return replay(args.replay)
    if args.worker:
        worker(args)
        return 0
    seed = args.seed
    if seed is None:
        try:
            seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            seed = 1
    return run_check(args.pid, args.tier, seed)


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.exit(code)
