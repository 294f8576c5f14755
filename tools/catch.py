#!/opt/venv/bin/python
"""
Runs the checks against the planted bugs, each in a scratch copy of /repo (development tool: no check reads it).

    catch.py [--all-checks] [--seed N] [ID ...]

Prints, for each bug, which checks report a violation.
"""
import argparse
import glob
import json
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--all-checks', action='store_true')
    ap.add_argument('--seed', default='1')
    ap.add_argument('--out')
    ap.add_argument('ids', nargs='*')
    args = ap.parse_args()
    base = tempfile.mkdtemp(prefix='catch-')
    ids = args.ids or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    checks = sorted(os.path.basename(p)[:3].upper() for p in glob.glob(os.path.join(HERE, 'checks', 'c[0-9]*.py')))
    missed = []
    for i in ids:
        d = os.path.join(HERE, 'seeded', i)
        prop = json.load(open(os.path.join(d, 'meta.json')))['property']
        copy = os.path.join(base, 'repo')
        subprocess.run(['git', 'clone', '-q', '/repo', copy], check=True)
        subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=copy, check=True)
        caught = []
        for c in checks if args.all_checks else [prop]:
            p = subprocess.run([PY, os.path.join(HERE, 'run.py'), c, '--seed', args.seed], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=copy, VERIF_OUT=base))
            if p.returncode == 1:
                caught.append(c)
            elif p.returncode != 0:
                caught.append('ERROR ' + c + (p.stdout + p.stderr)[-300:])
        print(i, prop, 'caught by', ' '.join(caught) or 'NONE', flush=True)
        if prop not in caught:
            missed.append(i)
        if args.out:
            with open(args.out, 'a') as f:
                f.write(json.dumps({'id': i, 'property': prop, 'caught': caught}) + '\n')
        shutil.rmtree(copy)
    shutil.rmtree(base)
    print('missed:', ' '.join(missed) or 'none')


if __name__ == '__main__':
    main()
