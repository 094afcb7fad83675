"""Scratch build of klang's C extensions from /repo's working tree."""
import glob
import os
import subprocess
import sys

PYPY = '/opt/pypyvenv/bin/pypy3'
SUFFIX = '.pypy39-pp73-x86_64-linux-gnu.so'
EXTS = ('_envelope', '_filters')


class BuildError(Exception):
    pass


def includes():
    """Header directories of the interpreter and of its numpy."""
    inc = []
    for pat in ('/opt/pypyvenv/lib/pypy3*/site-packages/numpy/core/include',
                '/usr/include/pypy3*'):
        inc += ['-I' + p for p in sorted(glob.glob(pat))]
    return inc


def build(mode, dest):
    """Compile both extensions of /repo for mode into dest."""
    os.makedirs(dest, exist_ok=True)
    if mode == 'fallback':
        return
    flags = ['-O2', '-DNDEBUG']
    if mode == 'asan':
        flags = ['-O1', '-g', '-fsanitize=address,undefined',
                 '-fno-sanitize-recover=undefined',
                 '-fno-omit-frame-pointer']
    procs = []
    for ext in EXTS:
        out = os.path.join(dest, ext + SUFFIX)
        cmd = (['gcc', '-w', '-shared', '-fPIC'] + flags + includes()
               + [f'/repo/klang/audio/{ext}.c', '-o', out, '-lm'])
        procs.append((ext, subprocess.Popen(
            cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for ext, proc in procs:
        out, _ = proc.communicate(timeout=200)
        if proc.returncode:
            raise BuildError(f'{ext}.c does not compile:\n'
                             + out.decode(errors='replace')[-3000:])


def worker_env(mode):
    env = {
        'PATH': '/opt/pypyvenv/bin:/usr/bin:/bin',
        'PYTHONPATH': '/repo', 'PYTHONDONTWRITEBYTECODE': '1',
        'PYTHONHASHSEED': '0', 'PYTHONNOUSERSITE': '1',
        'PYNPUT_BACKEND': 'dummy', 'MPLBACKEND': 'Agg',
        'MPLCONFIGDIR': os.environ.get('VERIF_SCRATCH', '/tmp'),
        'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1',
        'LC_ALL': 'C.UTF-8', 'HOME': os.environ.get('HOME', '/root'),
        'TMPDIR': os.environ.get('VERIF_SCRATCH', '/tmp'),
        'VERIF_SCRATCH': os.environ.get('VERIF_SCRATCH', '/tmp'),
    }
    if mode == 'asan':
        libs = [subprocess.check_output(
            ['gcc', '-print-file-name=' + n], text=True).strip()
            for n in ('libasan.so', 'libubsan.so')]
        env['LD_PRELOAD'] = ':'.join(libs)
        env['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=1:'
                               'allocator_may_return_null=1:'
                               'handle_segv=1:log_path='
                               + env['VERIF_SCRATCH'] + '/asan')
        env['UBSAN_OPTIONS'] = ('halt_on_error=1:abort_on_error=1:'
                                'print_stacktrace=1:log_path='
                                + env['VERIF_SCRATCH'] + '/asan')
    return env


if __name__ == '__main__':
    build(sys.argv[1], sys.argv[2])
