"""Zygote: keeps the third-party libraries loaded, forks an executor per batch of runs; the
executor loads the requested build of traceon and forks again for every single execution, so
that each execution starts from the same process image and a crash or hang stays contained."""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.dirname(HERE))
SCRATCH = os.environ['SIM_SCRATCH']
import simrt
simrt.install(os.path.join(SCRATCH, 'simsched.so'))

import base64
import ctypes
import gc
import importlib
import json
import pickle
import resource
import select
import signal
import struct
import time
import traceback

import numpy as np
import scipy.integrate
import scipy.interpolate
import scipy.special
import scipy.constants
import concurrent.futures.thread
import queue
import meshio
try:
    import vedo
except Exception:
    pass

real_time = simrt._real['monotonic']


def read_all(fd, deadline):
    buf = []
    while True:
        left = deadline - real_time()
        if left <= 0:
            return None
        r, _, _ = select.select([fd], [], [], left)
        if not r:
            return None
        b = os.read(fd, 1 << 16)
        if not b:
            return b''.join(buf)
        buf.append(b)


def fork_call(fn, *args, timeout=60, mem=6 << 30, rlimits=()):
    """Run fn(*args) in a forked child. Returns (status, value): status is 'ok', 'exc' (the
    harness itself raised), 'deadlock', 'nocap', 'signal:N', 'exit:N' or 'timeout'."""
    return fork_join(fork_start(fn, *args, mem=mem), timeout)


class Turns:
    """A forked process and its parent take turns: the child stops where it calls pause()."""
    def __init__(self):
        self.stopped, self.stop_w = os.pipe()
        self.go_r, self.go = os.pipe()

    def pause(self):                                     # in the child
        os.write(self.stop_w, b'p')
        os.read(self.go_r, 1)

    def child(self):
        os.close(self.stopped)
        os.close(self.go)

    def parent(self):
        os.close(self.stop_w)
        os.close(self.go_r)

    def wait(self, timeout):
        """Until the child pauses or ends."""
        r, _, _ = select.select([self.stopped], [], [], timeout)
        if r:
            os.read(self.stopped, 1)

    def resume(self):
        try:
            os.write(self.go, b'g')
        except BrokenPipeError:
            pass
        os.close(self.go)
        os.close(self.stopped)


def fork_start(fn, *args, mem=6 << 30, turns=None):
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            if turns:
                turns.child()
            gc.disable()
            os.setpgid(0, 0)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 0)
            os.dup2(dn, 1)
            if not os.environ.get('SIM_DEBUG'):
                os.dup2(dn, 2)
            try:
                out = ('ok', fn(*args))
            except BaseException as e:
                out = ('exc', f'{type(e).__name__}: {e}\n' + traceback.format_exc())
            data = pickle.dumps(out, protocol=4)
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
        except BaseException:
            code = 70
        finally:
            os._exit(code)
    os.close(w)
    if turns:
        turns.parent()
    return pid, r


def fork_join(handle, timeout):
    pid, r = handle
    data = read_all(r, real_time() + timeout)
    os.close(r)
    if data is None:
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return 'timeout', None
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return f'signal:{os.WTERMSIG(st)}', None
    rc = os.WEXITSTATUS(st)
    if rc == 77:
        return 'deadlock', None
    if rc == 78:
        return 'nocap', None
    if rc != 0 or not data:
        return f'exit:{rc}', None
    try:
        return pickle.loads(data)
    except Exception as e:
        return 'exc', f'unpickle: {e}'


def load_variant(variant, block):
    root = os.path.join(SCRATCH, variant)
    so = os.path.join(root, 'traceon', 'backend', 'traceon_backend.so')
    b = ctypes.CDLL(so)
    if block:
        v = ctypes.c_size_t.in_dll(b, 'TRACING_BLOCK_SIZE')
        if variant == 'inst' and os.environ.get('SIM_KNOB') == '1':
            v.value = int(block)
    sys.path.insert(0, root)
    import traceon
    assert traceon.__file__.startswith(root), traceon.__file__
    for m in ('backend', 'excitation', 'focus', 'geometry', 'interpolation', 'logging', 'mesher', 'plotting',
              'solver', 'tracing', 'util'):
        importlib.import_module('traceon.' + m)
    return root


class Ctx:
    def __init__(self, root, variant):
        self.root = root
        self.variant = variant
        self.prefixes = [os.path.join(root, 'traceon') + '/']
        self.fork_call = fork_call
        self.fork_start, self.fork_join, self.Turns = fork_start, fork_join, Turns
        self.scratch = SCRATCH

    def sim(self, spec):
        return simrt.Sim(spec, self.prefixes)


class Twin:
    """A sibling process with another build of the package loaded; runs functions on request, each
    in a fork of its own."""

    def __init__(self, variant):
        qr, self.w = os.pipe()
        self.r, aw = os.pipe()
        self.n = 0
        if os.fork() == 0:
            try:
                os.close(self.w)
                os.close(self.r)
                load_variant(variant, None)
                gc.collect()
                gc.freeze()
                inp = os.fdopen(qr, 'rb')
                while True:
                    try:
                        n, module, fn, args, timeout = pickle.load(inp)
                    except EOFError:
                        break
                    f = getattr(importlib.import_module(module), fn)
                    data = pickle.dumps((n, fork_call(f, *args, timeout=timeout)), protocol=4)
                    data = struct.pack('<Q', len(data)) + data
                    while data:
                        data = data[os.write(aw, data[:65536]):]
            finally:
                os._exit(0)
        os.close(qr)
        os.close(aw)

    def call(self, module, fn, args, timeout=60):
        self.n = (os.getpid() << 16) + (self.n & 0xffff) + 1       # told apart from requests of processes that died waiting
        data = pickle.dumps((self.n, module, fn, args, timeout), protocol=4)
        while data:
            data = data[os.write(self.w, data[:65536]):]
        while True:
            head = self._read(8)
            n, out = pickle.loads(self._read(struct.unpack('<Q', head)[0]))
            if n == self.n:
                return out

    def _read(self, k):
        out = b''
        while len(out) < k:
            b = os.read(self.r, k - len(out))
            if not b:
                raise EOFError('the twin died')
            out += b
        return out


def executor(job, out_fd):
    twin = Twin(job['twin']) if job.get('twin') else None
    root = load_variant(job.get('variant', 'inst'), job.get('block'))
    mod = importlib.import_module('props.' + job['module'])
    ctx = Ctx(root, job.get('variant', 'inst'))
    ctx.twin = twin
    gc.collect()
    gc.freeze()
    for idx, spec in job['specs']:
        t = real_time()
        try:
            v = mod.execute(ctx, spec)
        except BaseException as e:
            v = {'status': 'harness', 'detail': f'{type(e).__name__}: {e}\n{traceback.format_exc()}'}
        v['wall'] = real_time() - t
        line = base64.b64encode(pickle.dumps((idx, v), protocol=4)) + b'\n'
        off = 0
        while off < len(line):
            off += os.write(out_fd, line[off:off + 65536])


def main():
    out = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    sys.stdout = open(os.devnull, 'w')
    inp = os.fdopen(os.dup(0), 'rb')
    os.dup2(os.open(os.devnull, os.O_RDONLY), 0)
    os.write(out, b'READY\n')
    while True:
        line = inp.readline()
        if not line:
            return
        job = pickle.loads(base64.b64decode(line))
        pid = os.fork()
        if pid == 0:
            try:
                executor(job, out)
                code = 0
            except BaseException:
                msg = base64.b64encode(pickle.dumps((-1, {'status': 'harness', 'detail': traceback.format_exc()}))) + b'\n'
                os.write(out, msg)
                code = 1
            os._exit(code)
        _, st = os.waitpid(pid, 0)
        os.write(out, b'DONE %d\n' % st)


if __name__ == '__main__':
    main()
