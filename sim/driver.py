"""Campaign driver: seeded specs -> simulated runs on a pool of zygotes -> verdicts ->
confirmation, minimisation, replay file, evidence."""
import base64
import collections
import importlib
import json
import os
import pickle
import queue
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.path.insert(0, HERE)
import build as B

PY = '/opt/venv/bin/python'
HASHSEEDS = ['0', '1', '77']


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Zygote:
    def __init__(self, scratch, knob, hashseed):
        env = {k: v for k, v in os.environ.items() if not k.startswith(('TRACEON', 'OPENBLAS', 'OMP', 'MALLOC'))}
        env.update(SIM_SCRATCH=scratch, SIM_KNOB='1' if knob else '0', PYTHONHASHSEED=hashseed, TRACEON_LOG_LEVEL='silent',
                   OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', MPLBACKEND='Agg',
                   LD_PRELOAD=os.path.join(scratch, 'heapfill.so'), PYTHONNOUSERSITE='1', PYTHONPATH='',
                   PYTHONPYCACHEPREFIX=os.path.join(scratch, 'pyc'), LC_ALL='C.UTF-8', HOME=scratch)
        self.p = subprocess.Popen([PY, os.path.join(HERE, 'server.py')], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=None if os.environ.get('SIM_DEBUG') else subprocess.DEVNULL, env=env, start_new_session=True)
        line = self.p.stdout.readline()
        if line != b'READY\n':
            raise RuntimeError('simulator process did not start')

    def run(self, job):
        """Yields (idx, verdict)."""
        self.p.stdin.write(base64.b64encode(pickle.dumps(job, protocol=4)) + b'\n')
        self.p.stdin.flush()
        while True:
            line = self.p.stdout.readline()
            if not line:
                raise RuntimeError('zygote died')
            if line.startswith(b'DONE'):
                return
            yield pickle.loads(base64.b64decode(line))

    def close(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except Exception:
            pass
        self.p.wait()


class Pool:
    def __init__(self, scratch, info, n):
        self.scratch, self.info, self.n = scratch, info, n
        self.q = queue.Queue(maxsize=n * 2)
        self.out = queue.Queue()
        self.stop = False
        self.threads = [threading.Thread(target=self._loop, daemon=True) for _ in range(n)]
        self.zs = []
        for t in self.threads:
            t.start()

    def _loop(self):
        mine = {}
        while True:
            item = self.q.get()
            if item is None:
                return
            key, job = item
            hs = job.get('hashseed', '0')
            left = dict(job['specs'])
            try:
                if hs not in mine:
                    mine[hs] = Zygote(self.scratch, self.info['knob'], hs)
                    self.zs.append(mine[hs])
                for idx, v in mine[hs].run(job):
                    left.pop(idx, None)
                    self.out.put((idx, v))
            except Exception as e:
                if hs in mine:
                    mine.pop(hs).close()
                if self.stop:
                    return
                for idx in left:
                    self.out.put((idx, {'status': 'harness', 'detail': f'pool: {type(e).__name__}: {e}'}))
                left = {}
            for idx in left:
                self.out.put((idx, {'status': 'harness', 'detail': 'no result from the executor'}))
            self.out.put(('batch', None))

    def close(self):
        self.stop = True
        for z in self.zs:
            z.close()
        for _ in self.threads:
            try:
                self.q.put_nowait(None)
            except queue.Full:
                break


def job_key(spec):
    return (spec.get('variant', 'inst'), spec.get('block'), spec.get('hashseed', '0'), spec.get('twin'))


def make_job(module, key, specs):
    return {'module': module, 'variant': key[0], 'block': key[1], 'hashseed': key[2], 'twin': key[3], 'specs': specs}


class Single:
    """Runs one spec at a time (confirmation, minimisation, replay)."""

    def __init__(self, scratch, info, module):
        self.scratch, self.info, self.module = scratch, info, module
        self.zs = {}

    def run(self, spec):
        key = job_key(spec)
        for attempt in range(2):
            try:
                if key[2] not in self.zs:
                    self.zs[key[2]] = Zygote(self.scratch, self.info['knob'], key[2])
                for _, v in self.zs[key[2]].run(make_job(self.module, key, [(0, spec)])):
                    last = v
                return last
            except Exception as e:
                z = self.zs.pop(key[2], None)
                if z:
                    z.close()
                last = {'status': 'harness', 'detail': str(e)}
        return last

    def close(self):
        for z in self.zs.values():
            z.close()


def same_violation(v, cls):
    return v.get('status') == 'violation' and v.get('class') == cls


def minimise(single, mod, spec, verdict, budget_s):
    """Shrinks the workload, the fault plan and the schedule while the same violation class persists."""
    t0 = time.monotonic()
    cls = verdict['class']
    best, bestv = spec, verdict
    tried = 0

    def attempt(cand):
        nonlocal best, bestv, tried
        if time.monotonic() - t0 > budget_s:
            return False
        tried += 1
        v = single.run(cand)
        if same_violation(v, cls):
            best, bestv = cand, v
            return True
        return False
    if 'sim' in best and bestv.get('aimed') and 'targets' not in best['sim']:
        attempt(dict(best, sim=dict(best['sim'], targets=bestv['aimed'])))
    if bestv.get('pin'):
        attempt(dict(best, **bestv['pin']))
    # 1. structural shrinking offered by the property
    progress = True
    while progress and time.monotonic() - t0 < budget_s * 0.6:
        progress = False
        for cand in mod.shrink(best):
            if attempt(cand):
                progress = True
                break
            if time.monotonic() - t0 > budget_s * 0.6:
                break
    # 2. schedule: fix it as an explicit list, then drop preemptions
    if 'sim' in best and bestv.get('decisions') is not None and len(bestv['decisions']) < 20000:
        cand = json.loads(json.dumps(best))
        cand['sim'].update(mode='list', decisions=bestv['decisions'])
        if attempt(cand):
            pre = [d for d in best['sim']['decisions'] if d[2] == 0]
            forced = [d for d in best['sim']['decisions'] if d[2] != 0]
            if forced:
                cand = json.loads(json.dumps(best))
                cand['sim']['decisions'] = pre
                if attempt(cand):
                    forced = []
            n = 2
            while pre and time.monotonic() - t0 < budget_s:
                size = max(1, len(pre) // n)
                removed = False
                for i in range(0, len(pre), size):
                    sub = pre[:i] + pre[i + size:]
                    cand = json.loads(json.dumps(best))
                    cand['sim']['decisions'] = sorted(sub + forced)
                    if attempt(cand):
                        pre, removed = sub, True
                        break
                if not removed:
                    if size == 1:
                        break
                    n = min(len(pre), n * 2)
                else:
                    n = max(2, n - 1)
    return best, bestv, tried


def load_known():
    p = os.path.join(ROOT, 'known_findings.json')
    if os.path.exists(p):
        return json.load(open(p))
    return {'findings': [], 'fixed': []}


def known_match(known, prop, v):
    for f in known.get('findings', []):
        if f['property'] == prop and f['key'] == v.get('key'):
            return f
    return None


def scratch_dir():
    base = os.environ.get('SIM_TMP') or ('/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK)
                                         and shutil.disk_usage('/dev/shm').free > 1 << 30 else None)
    d = tempfile.mkdtemp(prefix='verif-sim-', dir=base)
    return d


def campaign(module, tier, seed, replay=None, budget=None, max_runs=None):
    mod = importlib.import_module('props.' + module)
    prop = mod.PROPERTY
    t0 = time.monotonic()
    scratch = scratch_dir()
    pool = single = None
    try:
        try:
            info = B.build(scratch)
        except B.BuildError as e:
            log(f'cannot build the code under test: {e}')
            return 2
        single = Single(scratch, info, module)
        if replay is not None:
            return do_replay(mod, prop, single, replay)
        plan = mod.plan(tier)
        budget = budget or plan['budget_s']
        max_runs = max_runs or plan['max_runs']
        batch = plan.get('batch', 6)
        n = int(os.environ.get('SIM_JOBS') or min(8, len(os.sched_getaffinity(0))))
        pool = Pool(scratch, info, n)
        known = load_known()
        agg = Agg(mod)
        pending = collections.defaultdict(list)
        specs = {}
        i = 0
        inflight = 0
        harness = []
        viol = None
        deadline = t0 + budget
        log(f'{prop}: seed={seed} tier={tier} budget={budget}s workers={n} tree={info["tree"]} block knob={info["knob"]}')
        done_gen = False
        forced = list(mod.corpus(tier)) if hasattr(mod, 'corpus') else []
        while True:
            now = time.monotonic()
            while not done_gen and inflight < n + 4 and now < deadline:
                key = None
                while key is None:
                    if i < len(forced):
                        spec = json.loads(json.dumps(forced[i]))
                    else:
                        spec = mod.gen(random.Random(f'{prop}/{seed}/{i}'), tier, i)
                    spec['run'] = i
                    specs[i] = spec
                    k = job_key(spec)
                    pending[k].append((i, spec))
                    i += 1
                    if len(pending[k]) >= batch or spec.get('heavy') or i >= max_runs:
                        key = k
                    if i >= max_runs:
                        done_gen = True
                        break
                if key is not None:
                    pool.q.put((key, make_job(module, key, pending.pop(key))))
                    inflight += 1
            if done_gen or now >= deadline:
                done_gen = True
                for k in list(pending):
                    lst = pending.pop(k)
                    if now < deadline:
                        pool.q.put((k, make_job(module, k, lst)))
                        inflight += 1
                if inflight == 0 and pool.out.empty():
                    break
                if now > deadline + plan.get('grace_s', 60):
                    log('grace period over; remaining runs abandoned:', sorted(specs)[:40])
                    break
            try:
                idx, v = pool.out.get(timeout=0.5)
            except queue.Empty:
                continue
            if idx == 'batch':
                inflight -= 1
                continue
            st = v['status']
            spec = specs.pop(idx, None) if idx != -1 else None
            if st == 'ok':
                agg.add(spec, v)
            elif st == 'violation':
                agg.add(spec, v)
                f = known_match(known, prop, v)
                if f:
                    agg.known[f['id']] = f
                    continue
                viol = (idx, spec, v)
                c = confirm(single, spec, v)
                if c is None:
                    log(f'run {idx}: violation {v["class"]} did not reproduce; ignored as a harness artefact: {v["detail"][:500]}')
                    agg.unreproduced.append([idx, v['class']])
                    viol = None
                    continue
                viol = (idx, spec, c)
                break
            else:
                harness.append((idx, v.get('detail', '')[:1500]))
                if len(harness) <= 3:
                    log('harness failure in run', idx, v.get('detail', '')[:600])
                if len(harness) > 25 and len(harness) > agg.runs:
                    break
        wall = time.monotonic() - t0
        if viol is None and len(harness) > max(3, 0.02 * (agg.runs + len(harness))):
            # the harness cannot judge this tree
            for h in harness[:3]:
                log('HARNESS', h[0], h[1])
            write_evidence(mod, prop, tier, seed, agg, wall, harness, None)
            log(f'{prop}: {len(harness)} runs failed inside the harness')
            return 2
        if viol is None and agg.runs == 0:
            log(f'{prop}: nothing was run')
            return 2
        path = None
        if viol is not None:
            idx, spec, v = viol
            log(f'run {idx}: {v["class"]}: {v["detail"]}')
            if pool:
                pool.close()
            best, bestv, tried = minimise(single, mod, spec, v, plan.get('minimise_s', 60))
            os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
            path = os.path.join(ROOT, 'replays', f'{prop}-{seed}-{idx}.json')
            json.dump({'property': prop, 'module': module, 'seed': seed, 'run': idx, 'class': bestv['class'], 'detail': bestv['detail'],
                       'spec': best, 'original_spec': spec, 'minimise_attempts': tried, 'schedule_hash': bestv.get('hash')},
                      open(path, 'w'), indent=1)
            agg.violation = {'run': idx, 'class': bestv['class'], 'detail': bestv['detail'], 'replay': path}
        write_evidence(mod, prop, tier, seed, agg, time.monotonic() - t0, harness, path)
        for f in agg.known.values():
            print(f'KNOWN-FINDING: property={prop} {f["what"]}')
        if path:
            print(f'violation class: {agg.violation["class"]}')
            print(f'detail: {agg.violation["detail"]}')
            print(f'VIOLATION property={prop} replay={path}')
            return 1
        print(f'{prop}: held on {agg.runs} simulated runs ({agg.nontrivial()} distinct and non-trivial) in {wall:.1f} s')
        return 0
    finally:
        if pool:
            pool.close()
        if single:
            single.close()
        shutil.rmtree(scratch, ignore_errors=True)


def confirm(single, spec, v):
    for _ in range(3):
        c = single.run(spec)
        if same_violation(c, v['class']):
            return c
    return None


def do_replay(mod, prop, single, path):
    r = json.load(open(path))
    v = single.run(r['spec'])
    print(json.dumps({k: v.get(k) for k in ('status', 'class', 'detail', 'hash')}, indent=1))
    if v['status'] == 'violation':
        same = v['class'] == r['class'] and (r.get('schedule_hash') is None or v.get('hash') == r['schedule_hash'])
        print('reproduced exactly' if same else 'violated, but not in the recorded way')
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    return 0 if v['status'] == 'ok' else 2


class Agg:
    def __init__(self, mod):
        self.mod = mod
        self.runs = 0
        self.execs = 0
        self.events = 0
        self.sim_time = 0.0
        self.preempts = 0
        self.c_preempts = 0
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.scheds = set()
        self.sigs = set()
        self.samples = []
        self.known = {}
        self.unreproduced = []
        self.violation = None
        self.max_tasks = 0
        self.slow = []

    def nontrivial(self):
        return len(self.sigs)

    def add(self, spec, v):
        self.runs += 1
        self.slow = sorted(self.slow + [[round(v.get('wall', 0), 2), (spec or {}).get('run')]], reverse=True)[:5]
        self.execs += v.get('execs', 1)
        for st in v.get('sims', []):
            self.events += st['events']
            self.sim_time += st['sim_time']
            self.preempts += st['preempts']
            self.c_preempts += st['c_preempts']
            self.max_tasks = max(self.max_tasks, st['tasks'])
            for k, n in st['faults'].items():
                self.faults[k] += n
            self.scheds.add(st['hash'])
        for k, n in v.get('faults', {}).items():
            self.faults[k] += n
        for k, n in v.get('probes', {}).items():
            self.probes[k] += n
        if v.get('sig') is not None:
            self.sigs.update(v['sig'] if isinstance(v['sig'], list) else [v['sig']])
        if len(self.samples) < 4 and v.get('sig') is not None:
            s = json.loads(json.dumps(spec))
            if 'sim' in s:
                s['sim'].pop('decisions', None)
            self.samples.append({'spec': s, 'outcome': v['status'], 'probes': v.get('probes', {})})


def write_evidence(mod, prop, tier, seed, agg, wall, harness, path):
    h = max(wall, 1e-9) / 3600
    cov = {
        'evaluations': agg.runs,
        'distinct_nontrivial': agg.nontrivial(),
        'rule': mod.RULE,
        'samples': agg.samples,
        'process_executions': agg.execs,
        'runs_per_hour': round(agg.runs / h),
        'seeds_per_hour': round(agg.runs / h),
        'simulated_seconds': round(agg.sim_time, 3),
        'yield_points_passed': agg.events,
        'preemptions': agg.preempts,
        'preemptions_inside_c_code': agg.c_preempts,
        'distinct_interleavings': len(agg.scheds),
        'interleaving_measure': 'hash of the full sequence of scheduling decisions (yield-point number, task chosen, kind) of a run',
        'max_tasks_in_a_run': agg.max_tasks,
        'faults_injected': dict(agg.faults),
        'probes': dict(agg.probes),
        'real_components': mod.REAL,
        'stubbed_components': mod.STUB,
        'slowest_runs_s': agg.slow,
        'harness_failures': len(harness),
        'unreproduced': agg.unreproduced,
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': mod.ASSUMPTIONS, 'wall_s': round(wall, 2), 'violations': 1 if path else 0}
    if agg.violation:
        ev['violation'] = agg.violation
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    tmp = os.path.join(ROOT, 'evidence', f'.{prop}.tmp')
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(ROOT, 'evidence', f'{prop}.json'))
