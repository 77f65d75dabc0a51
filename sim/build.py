"""Builds private copies of /repo's current working tree for the simulator:
   ship  the package with the C backend compiled as setup.py compiles it
   inst  the package with the same C sources compiled with a yield point at every edge,
         load and store, and with the tracing block size as a run-time knob
   fast  the same C sources by clang -O3 (another optimiser's view, and quicker)
   zer, pat  the same C sources with every uninitialised local variable set to zero, or to
         a pattern (not-a-number, wild pointer)."""
import hashlib
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
NATIVE = os.path.join(HERE, 'native')
REPO = os.environ.get('SIM_REPO', '/repo')
CLANG = shutil.which('clang') or 'clang'
CC = shutil.which('gcc') or CLANG


class BuildError(Exception):
    pass


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def tree_hash():
    h = hashlib.sha256()
    base = os.path.join(REPO, 'traceon')
    for d, dn, fs in sorted(os.walk(base)):
        dn.sort()
        for f in sorted(fs):
            if f.endswith(('.py', '.c', '.h')):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, base).encode())
                h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]


def _copy(dst):
    shutil.copytree(os.path.join(REPO, 'traceon'), os.path.join(dst, 'traceon'),
                    ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.pyd'))


def build(scratch):
    """Returns a dict describing what was built."""
    info = {'tree': tree_hash()}
    for name, extra in (('simsched', ['-ldl', '-lpthread']), ('heapfill', ['-fno-builtin'])):
        rc, out = _run([CLANG, '-O2', '-shared', '-fPIC', '-o', f'{scratch}/{name}.so', f'{NATIVE}/{name}.c'] + extra)
        if rc:
            raise BuildError(f'{name}: {out}')
    src = os.path.join(REPO, 'traceon', 'backend', 'traceon-backend.c')
    flags = [ '-shared', '-fPIC', '-mavx', '-ffast-math', '-DNDEBUG', '-w']
    os.makedirs(f'{scratch}/ship')
    _copy(f'{scratch}/ship')
    so = 'traceon/backend/traceon_backend.so'
    rc, out = _run([CC] + flags + ['-O3', '-o', f'{scratch}/ship/{so}', src, '-lm'])
    if rc:
        raise BuildError(f'backend does not compile: {out[-2000:]}')
    os.makedirs(f'{scratch}/fast')
    _copy(f'{scratch}/fast')
    rc, out = _run([CLANG] + flags + ['-O3', '-o', f'{scratch}/fast/{so}', src, '-lm'])
    if rc:
        raise BuildError(f'backend does not compile: {out[-2000:]}')
    for name, how in (('zer', 'zero'), ('pat', 'pattern')):
        os.makedirs(f'{scratch}/{name}')
        _copy(f'{scratch}/{name}')
        rc, out = _run([CLANG] + flags + ['-O1', f'-ftrivial-auto-var-init={how}', '-o', f'{scratch}/{name}/{so}', src, '-lm'])
        if rc:
            raise BuildError(f'backend does not compile with initialised locals: {out[-2000:]}')
    os.makedirs(f'{scratch}/inst')
    _copy(f'{scratch}/inst')
    cov = ['-O1', '-fno-inline', '-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores']
    info['knob'] = True
    rc, out = _run([CLANG] + flags + cov + ['-include', f'{NATIVE}/prelude.h', '-o', f'{scratch}/inst/{so}', src, '-lm'])
    if rc:
        info['knob'] = False
        rc, out = _run([CLANG] + flags + cov + ['-o', f'{scratch}/inst/{so}', src, '-lm'])
        if rc:
            raise BuildError(f'instrumented backend does not compile: {out[-2000:]}')
    return info


if __name__ == '__main__':
    import tempfile
    d = tempfile.mkdtemp()
    try:
        print(build(d))
    finally:
        shutil.rmtree(d)
