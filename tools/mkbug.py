#!/opt/venv/bin/python
"""
Makes the planted bugs of /verif/seeded out of specs (development tool: no check reads it).

    mkbug.py SPECS.py [ID ...]

SPECS.py defines BUGS, a list of dicts {id, property, edits: [(file, old, new)], needs, what_it_breaks, demo}. Each bug is
applied to a scratch copy of /repo and kept only if it builds, passes the stable tests, and its demo tells it apart.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
DEMO_SH = '''#!/bin/bash
# Exits 0 when the property holds on this input, and nonzero when it does not. Runs in the root of the repository.
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def run(cmd, cwd, env=None, timeout=600):
    try:
        return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, '', 'timeout')


def build(copy):
    p = run(['bash', '-c', 'find cfog -name "*.c" -delete; find cfog -name "*.so" -delete; ' + PY + ' -m cython cfog/metrics/levenshtein.pyx && ' + PY + ' setup.py -q build_ext --inplace && ls cfog/metrics/*.so'], copy)
    assert p.returncode == 0, p.stdout[-2000:] + p.stderr[-2000:]


def tests(copy):
    p = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-rA', '--ignore=test/clustering/minhash_test.py', '--ignore=test/clustering/nn_descent_test.py',
             '--ignore=test/clustering/ppjoin_test.py', '--ignore=test/clustering/quickjoin_test.py', 'test'], copy,
            dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=copy))
    failed = [l for l in p.stdout.split('\n') if l.startswith(('FAILED', 'ERROR'))]
    return failed


def demo(copy, d):
    return run(['bash', os.path.join(d, 'demo.sh')], copy, timeout=120)


def main():
    specs = runpy.run_path(sys.argv[1])['BUGS']
    only = sys.argv[2:]
    base = tempfile.mkdtemp(prefix='mkbug-')
    clean = os.path.join(base, 'clean')
    shutil.copytree('/repo', clean, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    base_failed = set(tests(clean))
    for b in specs:
        if only and b['id'] not in only:
            continue
        copy = os.path.join(base, 'bug')
        subprocess.run(['git', 'clone', '-q', '/repo', copy], check=True)
        for f in os.listdir(os.path.join(clean, 'cfog/metrics')):
            if f.endswith(('.so', '.c')):
                shutil.copy2(os.path.join(clean, 'cfog/metrics', f), os.path.join(copy, 'cfog/metrics', f))
        ok = True
        for rel, old, new in b['edits']:
            p = os.path.join(copy, rel)
            s = open(p, encoding='utf-8').read()
            if s.count(old) != 1:
                print(b['id'], 'BAD EDIT: %d matches of %r' % (s.count(old), old))
                ok = False
                break
            open(p, 'w', encoding='utf-8').write(s.replace(old, new))
        if ok:
            if any(e[0].endswith('.pyx') for e in b['edits']):
                build(copy)
            new_failed = [f for f in tests(copy) if f not in base_failed]
            d = os.path.join(base, 'demo')
            os.makedirs(d)
            open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
            open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
            c, p = demo(clean, d), demo(copy, d)
            if new_failed:
                print(b['id'], 'TESTS FAIL', new_failed[:3])
            elif c.returncode != 0:
                print(b['id'], 'DEMO FAILS ON CLEAN', c.stdout[-500:], c.stderr[-500:])
            elif p.returncode == 0:
                print(b['id'], 'DEMO PASSES ON BUG')
            else:
                out = os.path.join(HERE, 'seeded', b['id'])
                os.makedirs(out, exist_ok=True)
                diff = subprocess.run(['git', 'diff', '--no-color'], cwd=copy, capture_output=True, text=True).stdout
                open(os.path.join(out, 'patch.diff'), 'w').write(diff)
                shutil.copy(os.path.join(d, 'demo.sh'), out)
                shutil.copy(os.path.join(d, 'demo.py'), out)
                json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what_it_breaks']},
                          open(os.path.join(out, 'meta.json'), 'w'), indent=2, ensure_ascii=False)
                print(b['id'], 'OK', (p.stderr.strip().split('\n') or [''])[-1][:150])
            shutil.rmtree(d)
        shutil.rmtree(copy)
    shutil.rmtree(base)


if __name__ == '__main__':
    main()
