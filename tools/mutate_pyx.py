#!/opt/venv/bin/python
"""
Textual mutation analysis of cfog/metrics/levenshtein.pyx (development tool: no check reads it).

    mutate_pyx.py OUT.jsonl [--max N] [--seed N]
"""
import argparse
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import mkbug  # noqa: E402

REL = 'cfog/metrics/levenshtein.pyx'
RULES = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' \+ 1\b', ''), (r' - 1\b', ''),
         (r' \+ ', ' - '), (r' - ', ' + '), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r' and ', ' or '), (r' or ', ' and '), (r' \+= ', ' -= '),
         (r' -= ', ' += '), (r'\bcontinue\b', 'break'), (r'\bbreak\b', 'pass'), (r' << ', ' >> '), (r' & ', ' | '), (r' \| ', ' & '), (r'~', ''),
         (r'\b64\b', '63'), (r'\b63\b', '64'), (r'\bmin\b', 'max'), (r'\bmax\b', 'min'), (r'\bTrue\b', 'False'), (r'\bFalse\b', 'True')]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--max', type=int, default=10 ** 9)
    ap.add_argument('--seed', type=int, default=0)
    args = ap.parse_args()
    src = open(os.path.join('/repo', REL)).read()
    lines = src.split('\n')
    muts = []
    doc = False
    for i, line in enumerate(lines):
        if line.count('"""') == 1:
            doc = not doc
        code = line.split('#')[0]
        if doc or not code.strip() or code.strip().startswith(('cdef int', 'import', 'cimport', 'from', '"""', 'def ', 'cpdef ')):
            continue
        for a, b in RULES:
            for m in re.finditer(a, code):
                muts.append((i, line[:m.start()] + b + line[m.end():]))
        if re.match(r'\s+\w+(\[[^=]*\])? [+-]?= ', code):
            muts.append((i, re.match(r'\s*', line).group() + 'pass'))
    random.Random(args.seed).shuffle(muts)
    tmp = tempfile.mkdtemp(prefix='mut-pyx-', dir='/tmp')
    copy = os.path.join(tmp, 'repo')
    shutil.copytree('/repo', copy, symlinks=True)
    out = open(args.out, 'a')
    for i, new in muts[:args.max]:
        text = lines[:i] + [new] + lines[i + 1:]
        with open(os.path.join(copy, REL), 'w') as f:
            f.write('\n'.join(text))
        try:
            mkbug.build(copy)
        except AssertionError:
            continue
        try:
            ok = subprocess.run([mkbug.PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'test/metrics'], cwd=copy, capture_output=True, timeout=120).returncode == 0
        except subprocess.TimeoutExpired:
            ok = False
        if not ok:
            continue
        by = None
        for pid in ('C01', 'C02'):
            r = subprocess.run([mkbug.PY, os.path.join(HERE, 'run.py'), pid], env=dict(os.environ, VERIF_REPO=copy, VERIF_OUT=os.path.join(tmp, 'out')),
                               capture_output=True, text=True)
            if 'VIOLATION' in r.stdout:
                by = pid
                break
        out.write(json.dumps({'line': i + 1, 'old': lines[i].strip(), 'new': new.strip(), 'by': by}) + '\n')
        out.flush()
    shutil.rmtree(tmp)


if __name__ == '__main__':
    main()
