"""P13: mesh files: what was written is what is read, and a write that could not be completed says so."""
import os
import resource
import shutil
import signal
import numpy as np
from props import ops as O, common as C, p06

PROPERTY = 'P13'
RULE = 'distinct (meshes, file operations with their faults, schedule hash) triples in which a completed write was read back or a fault fired'
REAL = C.REAL_LIB + ['meshio and the file system of the scratch directory']
STUB = C.STUB_SCHED + ['disk space: a per-process file size limit chosen by the simulator']
ASSUMPTIONS = ['file formats judged are those meshio stores exactly for the element types concerned; the binary Medit format is left out because numpy loses its last buffer on a full disk',
               'a crash is the death of the process: what reached the operating system survives']

LIN = ['ply', 'mesh', 'dat', 'dato', 'post', 'avs', 'vol', 'inp']
TRI = ['obj', 'off', 'xml']


def formats(kind):
    if kind == 'line4' or kind == 'mixed4':
        return ['vtk', 'vtu']
    if kind == 'mixed':
        return ['vtk', 'vtu'] + [x for x in LIN if x != 'dat']
    if kind == 'tri':
        return ['vtk', 'vtu'] + LIN + TRI
    return ['vtk', 'vtu'] + LIN


def plan(tier):
    return {'budget_s': 60 if tier == 'quick' else 480, 'max_runs': 4000 if tier == 'quick' else 60000, 'batch': 8, 'minimise_s': 60}


def gen_mesh(rng, j):
    kind = rng.choice(['line', 'line', 'line4', 'tri', 'tri', 'mixed', 'mixed4'])
    parts = []
    if kind != 'tri':
        parts += [O.gen_part2d(rng, s, 'l%d%d' % (j, s)) for s in range(rng.choice([1, 1, 2]))]
    if kind in ('tri', 'mixed', 'mixed4'):
        parts += [dict(p06.surf_part(rng, s, 't%d%d' % (j, s)), ms=rng.choice([2., 1.])) for s in range(rng.choice([1, 1, 2]))]
    d = {'type': 'mesh', 'parts': parts, 'ho': kind in ('line4', 'mixed4'), 'ms': rng.choice([.4, 1., 3.])}
    if rng.random() < .1:                            # files larger than the buffers between here and the disk
        d['ms'] = .005
        for p in parts:
            if 'ms' in p:
                p['ms'] = .2
    return d, kind


def gen(rng, tier, i):
    meshes = [gen_mesh(rng, j) for j in range(rng.choice([1, 2, 3]))]
    if rng.random() < .5:                            # the same mesh elsewhere
        d, kind = rng.choice(meshes)
        meshes.append((dict(d, moved=rng.choice([[0., 0., .5], [.25, 0., 0.], [0., 0., -1.]])), kind))
    n = rng.choice([1, 1, 2, 3])
    stems = ['a', 'mesh file', 'b.c', 'x-1', 'ü']

    def name(j):
        d = rng.choice(['', '', '', 'sub/', 'sub/deep er/'])
        return d + rng.choice(stems) + '.' + rng.choice(formats(meshes[j][1]))
    shared = []
    for _ in range(rng.choice([0, 1, 2])):
        j = rng.randrange(len(meshes))
        shared.append(['shared-' + str(len(shared)) + '.' + rng.choice(formats(meshes[j][1])), j])
    if rng.random() < .35:
        # a file made by another program, with groups
        shared.append(['shared-g.msh', rng.randrange(len(meshes)), rng.choice([1, 2, 5, 1000])])
    cls = []
    both = [x for x in formats(meshes[0][1]) if all(x in formats(k) for _, k in meshes)]
    if n > 1 and rng.random() < .35:
        # everybody writes files of one kind into one directory, and reads them back
        ext = rng.choice(both)
        for c in range(n):
            steps = []
            for q in range(rng.choice([1, 2, 3])):
                fn = f'all/{rng.choice(stems)}{c}{q}.{ext}'
                steps.append({'do': 'w', 'fn': fn, 'm': rng.randrange(len(meshes)), 'path': rng.choice(['rel', 'abs', 'pathlib']), 'api': rng.choice(['write_file', 'write'])})
                if rng.random() < .5:
                    steps.append({'do': 'r', 'fn': fn, 'path': 'rel', 'api': 'read_file'})
            cls.append(steps)
    for c in range(n if not cls else 0):
        steps, mine = [], []
        if rng.random() < .4:                        # one file, written over and over, read in between
            fn = f'c{c}/' + name(rng.randrange(len(meshes)))
            ok = [k for k in range(len(meshes)) if fn.rsplit('.', 1)[1] in formats(meshes[k][1])]
            for _ in range(rng.choice([2, 3, 4])):
                steps.append({'do': 'w', 'fn': fn, 'm': rng.choice(ok), 'path': rng.choice(['rel', 'abs', 'pathlib']), 'api': rng.choice(['write_file', 'write'])})
                if rng.random() < .8:
                    steps.append({'do': 'r', 'fn': fn, 'path': rng.choice(['rel', 'abs', 'pathlib']), 'api': rng.choice(['read_file', 'read'])})
            mine.append(fn)
        for _ in range(rng.choice([2, 3, 5, 8])):
            x = rng.random()
            if x < .5 or not (mine or shared):
                j = rng.randrange(len(meshes))
                if mine and rng.random() < .45:
                    fn = rng.choice(mine)
                    ok = [k for k in range(len(meshes)) if fn.rsplit('.', 1)[1] in formats(meshes[k][1])]
                    if not ok:
                        continue
                    j = rng.choice(ok)
                else:
                    fn = f'c{c}/' + name(j)
                st = {'do': 'w', 'fn': fn, 'm': j, 'path': rng.choice(['rel', 'abs', 'pathlib']), 'api': rng.choice(['write_file', 'write'])}
                y = rng.random()
                if y < .2 and n == 1:
                    st['fault'] = rng.choice(['limit', 'limit', 'crash'])
                    st['frac'] = rng.choice([0., .999, rng.random(), rng.random()])
                elif y < .27:
                    st['fault'] = rng.choice(['nodir', 'isdir'])
                steps.append(st)
                if st.get('fault') not in ('nodir', 'isdir') and fn not in mine:
                    mine.append(fn)
            else:
                fn = rng.choice(mine + [x[0] for x in shared])
                st = {'do': 'r', 'fn': fn, 'path': rng.choice(['rel', 'abs', 'pathlib']), 'api': rng.choice(['read_file', 'read'])}
                if rng.random() < .3:
                    st.update(api='read_file', name=rng.choice(['g', 'other', 'g11', 'g21']))
                if rng.random() < .08:
                    st['fn'] = f'c{c}/missing.' + rng.choice(['vtk', 'vtu', 'obj'])
                steps.append(st)
        cls.append(steps)
    s = O.gen_sched(rng, threads_c=False)
    s['granularity'] = rng.choice(['line', 'line', 'instr'])
    s['gap'] = rng.choice([3, 30, 300])
    if rng.random() < .6:
        s['extra'] = ['meshio']
    return {'variant': 'ship', 'meshes': [m for m, _ in meshes], 'shared': shared, 'clients': cls, 'sim': s}


def path_of(base, fn, kind):
    import pathlib
    p = os.path.join(base, fn)
    if kind == 'rel':
        return fn
    return p if kind == 'abs' else pathlib.Path(p)


def gmsh(fn, m, k):
    """A gmsh file (version 4.1) with the elements of the mesh in groups of k."""
    ents, els, names = {1: [], 2: []}, [], []
    n = 0
    for dim, el in ((1, m.lines), (2, m.triangles)):
        t = {2: 1, 4: 26, 3: 2, 6: 9}[el.shape[1]] if len(el) else 0
        for j in range(0, len(el), k):
            tag = j//k + 1
            ents[dim].append(f'{tag} 0 0 0 1 1 1 1 {tag} 0')
            names.append(f'{dim} {tag} "g{dim}{tag}"')
            els.append(f'{dim} {tag} {t} {len(el[j:j+k])}')
            for e in el[j:j+k]:
                n += 1
                els.append(' '.join(str(int(x)) for x in [n, *(e+np.uint64(1))]))
    nb = sum(map(len, ents.values()))
    N = len(m.points)
    d = 1 if ents[1] else 2
    out = ['$MeshFormat', '4.1 0 8', '$EndMeshFormat', '$PhysicalNames', str(len(names)), *names, '$EndPhysicalNames', '$Entities', f'0 {len(ents[1])} {len(ents[2])} 0',
           *ents[1], *ents[2], '$EndEntities', '$Nodes', f'1 {N} 1 {N}', f'{d} 1 0 {N}', *[str(i+1) for i in range(N)],
           *[' '.join(repr(float(x)) for x in p) for p in m.points], '$EndNodes', '$Elements', f'{nb} {n} 1 {n}', *els, '$EndElements', '']
    open(fn, 'w').write('\n'.join(out))


def observe(m):
    """What is stored of a mesh: its points and elements."""
    return [O.canon(m.points), O.canon(m.lines), O.canon(m.triangles)]


def rows(c):
    """Elements, whichever way they are oriented (those in groups are turned on reading)."""
    return (*c[:2], np.sort(c[2], axis=1)) if np.ndim(c[2]) == 2 else c


def same(got, want, name, k=None):
    if k is not None:
        got, want = [got[0], rows(got[1]), rows(got[2]), *got[3:]], [want[0], rows(want[1]), rows(want[2])]
        for dim, g, el in ((1, got[4][0], want[1][2]), (2, got[4][1], want[2][2])):
            for j in range(0, len(el), k):
                if name != f'g{dim}{j//k + 1}' and g.get(f'g{dim}{j//k + 1}') != list(range(j, min(j+k, len(el)))):
                    return f'group g{dim}{j//k + 1} of the file does not hold its elements'
    for a, b, w in zip(got[:3], want, ('points', 'lines', 'triangles')):
        d = O.diff(a, b, 1e-13)
        if d and not (len(a[2]) == 0 and len(b[2]) == 0):
            return f'{w}: {d}'
    if name is not None:
        for g, w in zip(got[3], ('lines', 'triangles')):
            if g != name:
                return f'the requested group does not hold all {w}'
    return None


def do_read(M, p, st):
    m = getattr(M.Mesh, st['api'])(p, **({'name': st['name']} if st.get('name') else {}))
    out = observe(m)
    out.append(None)
    if st.get('name'):
        g = []
        for groups, el in ((m.physical_to_lines, m.lines), (m.physical_to_triangles, m.triangles)):
            ix = sorted(int(x) for x in groups.get(st['name'], []))
            g.append(st['name'] if ix == list(range(len(el))) else ix[:5])
        out[-1] = g
    out.append([{n: sorted(int(x) for x in ix) for n, ix in d.items()} for d in (m.physical_to_lines, m.physical_to_triangles)])
    for a in (m.points, m.lines, m.triangles):       # the caller owns what it got
        a[...] = 0
    m.physical_to_lines.clear()
    return out


def do_write(ctx, mesh, p, base, st, size):
    """Returns 'ok', 'raised' or 'died'."""
    f = st.get('fault')
    if f == 'nodir':
        p = os.path.join(base, 'nowhere', 'deep', os.path.basename(st['fn']))
    elif f == 'isdir':
        p = os.path.join(base, 'dir.' + st['fn'].rsplit('.', 1)[1])
        os.makedirs(p, exist_ok=True)
    k = int(st.get('frac', 0)*(size or 0))
    if f == 'crash':
        def die():
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
            getattr(mesh, st['api'])(p)
        s, v = ctx.fork_call(die, timeout=60)
        return ('ok', 0) if s == 'ok' else ('raised', 1) if s == 'exc' else ('died', 1)
    if f == 'limit':
        old = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (k, old[1]))
    try:
        getattr(mesh, st['api'])(p)
    except (Exception, SystemExit) as e:          # meshio exits when it cannot make sense of a file
        return ('raised', 1, f'{type(e).__name__}: {e}'[:200])
    finally:
        if f == 'limit':
            resource.setrlimit(resource.RLIMIT_FSIZE, old)
    return ('ok', 0)


def execute(ctx, spec):
    import tempfile
    base = tempfile.mkdtemp(prefix='files-', dir=ctx.scratch)
    try:
        return C.guarded(ctx, 'mesh files', lambda: judge(ctx, spec, base))
    finally:
        shutil.rmtree(base, ignore_errors=True)


def judge(ctx, spec, base):
    M = O.T()[1]
    os.chdir(base)
    meshes = [O.mkmesh(m).move(*m.get('moved', (0., 0., 0.))) for m in spec['meshes']]
    want = [observe(m) for m in meshes]
    before = [O.canon(m) for m in meshes]
    for cl in spec['clients']:
        for st in cl:
            os.makedirs(os.path.dirname(os.path.join(base, st['fn'])), exist_ok=True)
    # how large each file becomes (for the place of the fault)
    sizes = {}
    for cl in spec['clients']:
        for st in cl:
            if st.get('frac') is not None:
                def probe(st=st):
                    q = os.path.join(base, 'probe.' + st['fn'].rsplit('.', 1)[1])
                    meshes[st['m']].write_file(q)
                    n = os.path.getsize(q)
                    os.unlink(q)
                    return n
                sizes[st['m'], st['fn']] = C.call(ctx, probe)

    # elements per group (five groups at most)
    foreign = {x[0]: max(x[2], 1 + max(len(meshes[x[1]].lines), len(meshes[x[1]].triangles))//5) for x in spec['shared'] if len(x) > 2}

    def setup():
        for fn, j, *k in spec['shared']:
            if k:
                gmsh(os.path.join(base, fn), meshes[j], foreign[fn])
            else:
                meshes[j].write_file(os.path.join(base, fn))
    C.call(ctx, setup)          # by a process that is gone afterwards

    def client(cl):
        out, torn = [], set()
        for st in cl:
            p = path_of(base, st['fn'], st['path'])
            if st['do'] == 'w':
                out.append(do_write(ctx, meshes[st['m']], p, base, st, sizes.get((st['m'], st['fn']))))
                if st.get('fault') not in ('nodir', 'isdir'):
                    (torn.discard if out[-1][0] == 'ok' else torn.add)(st['fn'])
            elif st['fn'] in torn:              # half a file is meshio's business (some readers loop on one)
                out.append(('skipped',))
            else:
                try:
                    out.append(('ok', do_read(M, p, st)))
                except (Exception, SystemExit) as e:
                    out.append(('raised', f'{type(e).__name__}: {e}'[:200]))
        return out

    def work():
        run = C.run_sim(ctx, sim, together)
        return run, [O.canon(m) for m in meshes]

    def together():
        return C.clients([(lambda cl=cl: client(cl)) for cl in spec['clients']]) if len(spec['clients']) > 1 else [('ok', client(spec['clients'][0]))]
    try:
        sim = spec['sim']
        if len(spec['clients']) > 1:
            os.rename(base, base + '.real')
            shutil.copytree(base + '.real', base)       # the rehearsal works on a copy of the files
            os.chdir(base)
            try:
                sim = C.aim(ctx, sim, together)
            finally:
                shutil.rmtree(base)
                os.rename(base + '.real', base)
                os.chdir(base)
        run, after = C.call(ctx, work)       # ends without any clean-up
    except C.Child as e:
        return C.child_verdict(e, 'mesh files')
    pr = {'clients_%d' % len(spec['clients']): 1}
    faults = {}
    kw = dict(probes=pr, faults=faults, execs=3)
    if run['res'][0] != 'ok':
        return C.viol('raises', f'{run["res"][1:3]}', [run], **kw)
    model = {x[0]: x[1] for x in spec['shared']}
    seen = 0
    for ci, (cl, res) in enumerate(zip(spec['clients'], run['res'][1])):
        if res[0] != 'ok':
            return C.viol('client-dies', f'client {ci}: {res[1:]}', [run], **kw)
        for k, (st, o) in enumerate(zip(cl, res[1])):
            w = f'client {ci}, step {k} ({st["api"]} of {st["fn"]}): '
            if st['do'] == 'w':
                fl = st.get('fault')
                pr['write_' + (fl or 'plain')] = pr.get('write_' + (fl or 'plain'), 0) + 1
                if fl and o[0] != 'ok':
                    faults['disk_' + fl] = faults.get('disk_' + fl, 0) + 1
                    seen += 1
                if fl in ('nodir', 'isdir'):
                    if o[0] == 'ok':
                        return C.viol('lost-write', w + 'the file cannot exist, yet the write returned normally', [run], **kw)
                    continue
                if o[0] != 'ok' and not fl:
                    return C.viol('write-raises', w + str(o[2:]), [run], **kw)
                model[st['fn']] = st['m'] if o[0] == 'ok' else 'torn'
                continue
            s = model.get(st['fn'])
            pr['read'] = pr.get('read', 0) + 1
            if s == 'torn' or o[0] == 'skipped':
                continue
            if s is None:
                if o[0] == 'ok' and st['fn'] not in model:
                    return C.viol('invented', w + 'nothing was ever written there, yet a mesh is returned', [run], **kw)
                continue
            if o[0] != 'ok':
                return C.viol('read-raises', w + f'the completed write cannot be read: {o[1]}', [run], **kw)
            d = same(o[1], want[s], st.get('name'), foreign.get(st['fn']))
            if d:
                return C.viol('wrong-content', w + d, [run], **kw)
            seen += 1
    # a later process reads every file whose write was reported complete
    def later():
        out = {}
        for fn, s in model.items():
            if s != 'torn':
                try:
                    out[fn] = ('ok', do_read(M, os.path.join(base, fn), {'api': 'read_file'}))
                except (Exception, SystemExit) as e:
                    out[fn] = ('raised', f'{type(e).__name__}: {e}'[:200])
        return out
    got = C.call(ctx, later)
    for fn, s in model.items():
        if s == 'torn':
            continue
        if got[fn][0] != 'ok':
            return C.viol('read-raises', f'{fn}: a later process cannot read the completed write: {got[fn][1]}', [run], **kw)
        d = same(got[fn][1], want[s], None, foreign.get(fn))
        if d:
            return C.viol('wrong-content', f'{fn}, read by a later process: {d}', [run], **kw)
        seen += 1
    for a, b in zip(after, before):
        d = O.diff(a, b, 0.0)
        if d:
            return C.viol('mesh-changed', f'a mesh in memory changed while files were written and read: {d}', [run], **kw)
    if seen:
        kw['sig'] = C.hsh([spec['meshes'], spec['clients'], run['stats']['hash']])
    return C.ok([run], **kw)


def shrink(spec):
    for cl in O.shrink_list(spec['clients'], 1):
        yield dict(spec, clients=cl)
    for i, p in enumerate(spec['clients']):
        for q in O.shrink_list(p, 1):
            yield dict(spec, clients=spec['clients'][:i] + [q] + spec['clients'][i+1:])
        for j, st in enumerate(p):
            if st.get('fault'):
                yield dict(spec, clients=spec['clients'][:i] + [p[:j] + [{k: v for k, v in st.items() if k not in ('fault', 'frac')}] + p[j+1:]] + spec['clients'][i+1:])
    for sh in O.shrink_list(spec['shared'], 0):
        names = {x[0] for x in sh}
        if all(st['fn'] in names or not st['fn'].startswith('shared-') for cl in spec['clients'] for st in cl):
            yield dict(spec, shared=sh)
    for j, m in enumerate(spec['meshes']):
        for q in O.shrink_list(m['parts'], 1):
            yield dict(spec, meshes=spec['meshes'][:j] + [dict(m, parts=q)] + spec['meshes'][j+1:])
    yield from C.sched_shrinks(spec)
