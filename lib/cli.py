"""
Runs the fog command line on generated files, inside of a scratch directory.
"""
import contextlib
import csv
import io
import os
import subprocess
import sys
import tempfile

from lib.engine import Violation, call


def to_csv(rows, newline='\r\n'):
    # Cells holding a carriage return must be quoted, whatever the end of lines
    lines = []
    for row in rows:
        out = io.StringIO(newline='')
        csv.writer(out, lineterminator='\r\n').writerow(row)
        lines.append(out.getvalue()[:-2])
    return ''.join(line + newline for line in lines)


def parse_csv(text):
    return list(csv.reader(io.StringIO(text, newline='')))


def run(d, argv, at, content, process=False):
    """
    argv: arguments, the input file being inserted at index `at`. Returns the output text.
    Goes through files, standard streams, or another process.
    """
    from fog.cli.__main__ import main
    way = 'process' if process else d.choice(('files', 'streams'))
    d.label(way)
    with tempfile.TemporaryDirectory(prefix='cli-', dir=os.environ.get('VERIF_SCRATCH')) as tmp:
        src, dst = os.path.join(tmp, 'in.csv'), os.path.join(tmp, 'out.txt')
        if way != 'streams':
            with open(src, 'w', newline='', encoding='utf-8') as f:
                f.write(content)
            argv = argv[:at] + [src] + argv[at:] + [d.choice(('-o', '--output')), dst]
        if way == 'process':
            p = subprocess.run([sys.executable, '-m', 'fog.cli'] + argv, capture_output=True, text=True, timeout=300,
                               cwd=tmp, stdin=subprocess.DEVNULL)
            if p.returncode != 0:
                raise Violation('fog %s exited with %d: %s' % (argv[0], p.returncode, p.stderr[-300:]))
        else:
            # Universal newlines by default, as for any text file
            stdin, stdout = io.TextIOWrapper(io.BytesIO(content.encode('utf-8')), encoding='utf-8'), io.StringIO(newline='')
            saved = sys.argv, sys.stdin, sys.stdout
            sys.argv = ['fog'] + argv
            sys.stdin, sys.stdout = stdin, stdout

            def fog_main():
                try:
                    with contextlib.redirect_stderr(io.StringIO()):
                        main()
                except SystemExit as e:
                    if e.code:
                        raise RuntimeError('exited with %r' % (e.code,))
            try:
                call(fog_main)
            finally:
                sys.argv, sys.stdin, sys.stdout = saved
            if way == 'streams':
                return stdout.getvalue()
        with open(dst, newline='', encoding='utf-8') as f:
            return f.read()
