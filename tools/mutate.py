#!/opt/venv/bin/python
"""
Mutation analysis of the checks (development tool: no check reads it).

    mutate.py OUT.jsonl fog/clustering/passjoin.py ... [--max N] [--only-checks C08,C09]

For each mutant of the files (made in a scratch copy of /repo) that compiles and passes the test suite, runs the
checks listing the file in their SOURCES until one reports a violation. Survivors are either equivalent or gaps.
"""
import argparse
import ast
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
SYM = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in', ast.NotIn: 'not in', ast.Is: 'is', ast.IsNot: 'is not'}
BIN = {ast.Add: ('+', ['-']), ast.Sub: ('-', ['+']), ast.Mult: ('*', ['/', '+']), ast.Div: ('/', ['*']), ast.FloorDiv: ('//', ['/', '*']),
       ast.Mod: ('%', ['//']), ast.Pow: ('**', ['*']), ast.BitAnd: ('&', ['|']), ast.BitOr: ('|', ['&']), ast.RShift: ('>>', ['<<']), ast.LShift: ('<<', ['>>']), ast.BitXor: ('^', ['|'])}
NAMES = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'sorted': 'list', 'set': 'list', 'append': 'extend', 'ceil': 'floor', 'floor': 'ceil',
         'startswith': 'endswith', 'islower': 'isupper', 'isupper': 'islower', 'isalpha': 'isalnum', 'isdigit': 'isalnum', 'isalnum': 'isalpha',
         'lower': 'upper', 'upper': 'lower', 'round': 'int', 'imap_unordered': 'imap'}


def mutants(path):
    src = open(path).read()
    lines = src.split('\n')
    starts = [0]
    for l in src.encode().split(b'\n'):
        starts.append(starts[-1] + len(l) + 1)
    raw = src.encode()

    def pos(line, col):
        return starts[line - 1] + col

    def seg(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
    tree = ast.parse(src)
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            docs.add(n.body[0])
    out = []

    def rep(a, b, text, what, line):
        out.append((raw[:a] + text.encode() + raw[b:], what, line))
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = seg(n.left)[1], seg(n.comparators[0])[0]
            for new in CMP[type(n.ops[0])]:
                mid = raw[a:b].decode()
                old = SYM[type(n.ops[0])]
                rep(a, b, mid.replace(old, new, 1), '%s -> %s' % (old, new), n.lineno)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            old, news = BIN[type(n.op)]
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            a, b = seg(n.left)[1], seg(n.right)[0]
            for new in news:
                rep(a, b, raw[a:b].decode().replace(old, new, 1), '%s -> %s' % (old, new), n.lineno)
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            old, news = BIN[type(n.op)]
            a, b = seg(n.target)[1], seg(n.value)[0]
            rep(a, b, raw[a:b].decode().replace(old + '=', news[0] + '='), '%s= -> %s=' % (old, news[0]), n.lineno)
        elif isinstance(n, ast.BoolOp):
            old, new = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
            for x, y in zip(n.values, n.values[1:]):
                a, b = seg(x)[1], seg(y)[0]
                rep(a, b, raw[a:b].decode().replace(old, new, 1), '%s -> %s' % (old, new), x.lineno)
            for i, x in enumerate(n.values):
                a, b = seg(x)
                rep(a, b, 'True' if old == 'and' else 'False', 'operand %d dropped' % i, x.lineno)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            a, b = seg(n)
            c, e = seg(n.operand)
            rep(a, b, raw[c:e].decode(), 'unary dropped', n.lineno)
        elif isinstance(n, ast.Constant):
            a, b = seg(n)
            if isinstance(n.value, bool):
                rep(a, b, str(not n.value), 'bool flipped', n.lineno)
            elif isinstance(n.value, int):
                rep(a, b, str(n.value + 1), 'int +1', n.lineno)
                if n.value != 0:
                    rep(a, b, str(n.value - 1), 'int -1', n.lineno)
            elif isinstance(n.value, float):
                rep(a, b, repr(n.value * 1.25 + 0.01), 'float changed', n.lineno)
            elif n.value is None:
                pass
        elif isinstance(n, (ast.If, ast.While)):
            a, b = seg(n.test)
            if isinstance(n, ast.If):
                rep(a, b, 'True', 'if True', n.lineno)
            rep(a, b, 'False', 'cond False', n.lineno)
        elif isinstance(n, ast.IfExp):
            for x, y in ((n.body, 'body'), (n.orelse, 'orelse')):
                a, b = seg(n)
                c, e = seg(x)
                rep(a, b, '(' + raw[c:e].decode() + ')', 'ifexp -> ' + y, n.lineno)
        elif isinstance(n, ast.Name) and n.id in NAMES and isinstance(n.ctx, ast.Load):
            a, b = seg(n)
            rep(a, b, NAMES[n.id], '%s -> %s' % (n.id, NAMES[n.id]), n.lineno)
        elif isinstance(n, ast.Attribute) and n.attr in NAMES:
            b = seg(n)[1]
            rep(b - len(n.attr.encode()), b, NAMES[n.attr], '.%s -> .%s' % (n.attr, NAMES[n.attr]), n.lineno)
        elif isinstance(n, ast.Slice):
            for x, y in ((n.lower, 'lower'), (n.upper, 'upper')):
                if x is not None:
                    a, b = seg(x)
                    rep(a, b, '', 'slice %s dropped' % y, n.lineno)
        elif isinstance(n, (ast.List, ast.Tuple, ast.Set)) and isinstance(getattr(n, 'ctx', ast.Load()), ast.Load) and len(n.elts) > 1:
            es = n.elts if len(n.elts) <= 8 else random.Random(n.lineno).sample(n.elts, 8)
            for e in es:
                i = n.elts.index(e)
                a = seg(e)[0]
                b = seg(n.elts[i + 1])[0] if i + 1 < len(n.elts) else seg(e)[1]
                rep(a, b, '', 'element dropped: %s' % raw[a:b].decode()[:20], e.lineno)
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg is not None:
                    a = pos(k.lineno, k.col_offset)
                    b = seg(k.value)[1]
                    m = re.match(rb'\s*,', raw[b:])
                    rep(a, b + (len(m.group(0)) if m else 0), '', 'keyword %s dropped' % k.arg, k.lineno)
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Raise)) and n not in docs:
            if n.col_offset == 0 and not isinstance(n, ast.AugAssign):
                continue
            a, b = seg(n)
            rep(a, b, 'pass', 'deleted: %s' % raw[a:b].decode().split('\n')[0][:40], n.lineno)
    res = []
    seen = set([raw])
    for text, what, line in out:
        if text in seen:
            continue
        seen.add(text)
        try:
            compile(text, path, 'exec')
        except (SyntaxError, ValueError):
            continue
        res.append((text, what, line, lines[line - 1].strip()))
    res.sort(key=lambda r: r[2])
    return res


def checks_for(rel):
    found = []
    for p in sorted(glob.glob(os.path.join(HERE, 'checks', 'c[0-9]*.py'))):
        for node in ast.parse(open(p).read()).body:
            if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') == 'SOURCES':
                s = ast.literal_eval(node.value)
                if rel in s:
                    found.append((s.index(rel), os.path.basename(p)[:3].upper()))
    return [c for _, c in sorted(found)]


def tests(copy):
    try:
        p = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60',
                            '--ignore=test/clustering/minhash_test.py', '--ignore=test/clustering/nn_descent_test.py',
                            '--ignore=test/clustering/ppjoin_test.py', '--ignore=test/clustering/quickjoin_test.py', 'test'] + DESELECT,
                           cwd=copy, capture_output=True, text=True, timeout=120,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=copy))
    except subprocess.TimeoutExpired:
        return False
    return p.returncode == 0


DESELECT = []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('files', nargs='+')
    ap.add_argument('--max', type=int, default=10 ** 9)
    ap.add_argument('--from-line', type=int, default=0)
    ap.add_argument('--only-checks')
    ap.add_argument('--all-checks', action='store_true')
    args = ap.parse_args()
    copy = '/tmp/mut-%d/repo' % os.getpid()
    os.makedirs(os.path.dirname(copy))
    shutil.copytree('/repo', copy, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    assert tests(copy), 'tests fail on the unchanged copy'
    done = set()
    if os.path.exists(args.out):
        for l in open(args.out):
            r = json.loads(l)
            done.add((r['file'], r['line'], r['what'], r['n']))
    with open(args.out, 'a') as f:
        for rel in args.files:
            path = os.path.join(copy, rel)
            orig = open(path, 'rb').read()
            ms = [m for m in mutants(path) if m[2] >= args.from_line]
            if len(ms) > args.max:
                ms = sorted(random.Random(1).sample(ms, args.max), key=lambda r: r[2])
            cs = args.only_checks.split(',') if args.only_checks else checks_for(rel)
            print(rel, len(ms), 'mutants', cs, flush=True)
            count = {}
            for text, what, line, src in ms:
                n = count[(line, what)] = count.get((line, what), 0) + 1
                if (rel, line, what, n) in done:
                    continue
                with open(path, 'wb') as g:
                    g.write(text)
                t = time.time()
                r = {'file': rel, 'line': line, 'what': what, 'n': n, 'src': src}
                if not tests(copy):
                    r['by'] = 'tests'
                else:
                    r['by'] = None
                    for c in cs:
                        p = subprocess.run([PY, os.path.join(HERE, 'run.py'), c], capture_output=True, text=True,
                                           env=dict(os.environ, VERIF_REPO=copy, VERIF_OUT='/tmp/mut-%d' % os.getpid()))
                        if p.returncode == 1:
                            r['by'] = c
                            break
                        if p.returncode != 0:
                            r['by'] = 'ERROR ' + c
                            r['err'] = (p.stdout + p.stderr)[-600:]
                            break
                r['s'] = round(time.time() - t, 1)
                f.write(json.dumps(r) + '\n')
                f.flush()
                if r['by'] is None or r['by'].startswith('ERROR'):
                    print('SURVIVED' if r['by'] is None else r['by'], rel, line, what, '|', src, flush=True)
            with open(path, 'wb') as g:
                g.write(orig)
    shutil.rmtree(os.path.dirname(copy))


if __name__ == '__main__':
    main()
