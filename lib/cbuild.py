"""
Builds the Cython extension from the current sources of the repository, in a
scratch folder (never in the repository itself).
"""
import glob
import os
import shutil
import subprocess

PY = '/opt/venv/bin/python'


def build(repo, dest, asan=False):
    pkg = os.path.join(dest, 'cfog')
    shutil.copytree(os.path.join(repo, 'cfog'), pkg,
                    ignore=shutil.ignore_patterns('*.so', '*.c', '__pycache__'))
    suffix = subprocess.check_output(
        [PY, '-c', 'import sysconfig;print(sysconfig.get_config_var("EXT_SUFFIX"));print(sysconfig.get_paths()["include"])'],
        text=True).split()
    ext, inc = suffix
    procs = []
    for pyx in glob.glob(os.path.join(pkg, '**', '*.pyx'), recursive=True):
        rel = os.path.relpath(pyx, dest)
        c = pyx[:-4] + '.c'
        # Cython is run from the package root so that the module gets its dotted name
        subprocess.run([PY, '-m', 'cython', rel, '-o', c], cwd=dest, check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        procs.append(subprocess.Popen(
            ['gcc', '-shared', '-fPIC', '-O1' if asan else '-O2', '-fwrapv', '-I' + inc] +
            (['-fsanitize=address', '-g'] if asan else []) + [c, '-o', pyx[:-4] + ext],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
    for p in procs:
        out = p.communicate()[0]
        if p.returncode != 0:
            raise RuntimeError('the extension does not build: %s' % out[-2000:])
    return dest


def asan_env():
    lib = subprocess.check_output(['gcc', '-print-file-name=libasan.so'], text=True).strip()
    return {'LD_PRELOAD': lib, 'PYTHONMALLOC': 'malloc', 'VERIF_ASAN': '1',
            'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:handle_segv=1:allocator_may_return_null=1'}
