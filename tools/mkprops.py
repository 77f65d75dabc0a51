"""Writes properties.jsonl and MANIFEST.json (keeps the two in step)."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = 'deterministic simulation with fault injection: '
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), tech=None, note=None, na=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = list(observe)
    d['anchors']['hook_needed'] = None
    assert len(title) <= 80, title
    P.append((d, tech, note, na))


SPLIT = ('splitting of an array over worker threads and collection of their results', 'traceon/util.py split_collect, get_number_of_threads')
FILL = ('matrix rows filled per thread', 'traceon/solver.py SolverRadial/Solver3D get_matrix; traceon/backend/__init__.py fill_matrix_*')

prop('P01', 'Solving in parallel gives the serial answer',
     'Solving for the field of an excitation gives the same charges, element data and field, up to rounding, for every number of worker threads '
     '(set by the user or derived from the CPU count) and every interleaving of those threads, including when there are more threads than elements. '
     'This holds for radial and 3D geometries, straight and curved elements, all kinds of excitation, and for the superposition solve.',
     ['schedules', 'configurations', 'inputs'], 'all interleavings of the worker threads, thread counts 1..70 and CPU counts, geometries with 1..~200 elements and every excitation type',
     'The tests solve with the machine’s own CPU count and whatever interleaving the OS happens to give; thread counts above, equal to or not dividing the number of elements never occur.',
     ['traceon/util.py', 'traceon/solver.py', 'traceon/backend/__init__.py', 'traceon/backend/radial.c', 'traceon/backend/three_d.c'],
     [SPLIT, FILL, ('Gauss point positions and Jacobians in C', 'traceon/backend/radial.c fill_jacobian_buffer_radial, three_d.c fill_jacobian_buffer_3d')],
     [('matrix', 'collocation matrix, each thread fills its own rows', 'traceon/solver.py')],
     tech='seeded schedules of the real worker threads, preempted inside the C kernels',
     note='Every run compares a simulated parallel solve with a one-thread solve in a fresh process. Samples schedules; assumes sequential consistency.')

prop('P02', 'Axial interpolation in parallel gives the serial answer',
     'Interpolating a solved field along the optical axis gives the same coefficients and field, up to rounding, for every number of samples (including few or '
     'prime ones), every number of worker threads and every interleaving. The axial derivatives the interpolation uses are those the field itself reports when asked for all samples in one call.',
     ['schedules', 'configurations', 'inputs'], 'all interleavings, thread counts 1..64 and CPU counts, sample counts 2..200, ranges, electrostatic, magnetic and mixed fields',
     'The tests interpolate with one sample count and the machine’s thread count.',
     ['traceon/util.py', 'traceon/solver.py', 'traceon/interpolation.py', 'traceon/backend/radial.c'],
     [SPLIT, ('axial derivatives computed per chunk of samples', 'traceon/solver.py get_*_axial_potential_derivatives; traceon/interpolation.py')],
     tech='seeded schedules of the real worker threads against the serial and one-call references',
     note='Sampled schedules and thread counts; references computed by the same code serially in a fresh process.')

prop('P03', 'A failing worker thread fails the operation, never the result',
     'When something goes wrong inside one or more worker threads of a solve or an interpolation (an exception, a failing allocation, an interrupt, or the thread cannot be started), '
     'the operation raises an exception to its caller instead of returning. It never returns a field computed from partly missing or default data, never hangs, leaves its inputs as they were, and the same call succeeds once the fault is gone.',
     ['fault_sequences', 'schedules', 'crash_points'], 'every place inside the backend wrappers a worker can fail at, every failing thread start, any worker or several of them, combined with any interleaving',
     'No test makes a worker fail; in the original code such a failure was printed and the solve went on with the missing part.',
     ['traceon/util.py', 'traceon/solver.py', 'traceon/backend/__init__.py'], [SPLIT, ('exceptions of workers re-raised after the join', 'traceon/util.py split_collect')],
     tech='faults raised inside workers and at thread start, under seeded schedules',
     note='A faulted operation must raise or return the fault-free result; afterwards the same operation is repeated and compared with a fresh process.')

prop('P04', 'Fields can be used by many threads at once',
     'Threads that evaluate potentials and fields, compute axial derivatives, build tracers and trace electrons through the same field objects at the same time each get exactly the answers they would get alone. '
     'Using a field for evaluation or tracing never changes it.',
     ['schedules', 'programs'], 'all interleavings of 2..4 client programs over shared radial, 3D and axially interpolated fields and shared tracers, preempted anywhere in Python and C',
     'The tests are single threaded.',
     ['traceon/solver.py', 'traceon/interpolation.py', 'traceon/tracing.py', 'traceon/backend/__init__.py', 'traceon/backend/tracing.c', 'traceon/backend/radial.c', 'traceon/backend/three_d.c'],
     [('per-call argument structures and buffers', 'traceon/backend/__init__.py EffectivePointCharges2D/3D, FieldEvaluationArgs*, trace_particle*'), ('tracing kernel without global state', 'traceon/backend/tracing.c trace_particle')],
     tech='concurrent client programs under seeded schedules; histories compared with lone runs',
     note='Results of every operation are compared with the lone caller’s; shared objects compared bit for bit before and after.')

prop('P05', 'Solves and interpolations can run at the same time',
     'Solves and axial interpolations started from several threads at once, on the same or on different excitations, meshes and fields, each give exactly what they give when run alone. '
     'The excitations, meshes and fields they share stay as they were.',
     ['schedules', 'programs'], 'all interleavings of 2..4 clients that solve, superpose, interpolate and evaluate, with any number of worker threads each',
     'The tests are single threaded.',
     ['traceon/solver.py', 'traceon/excitation.py', 'traceon/interpolation.py', 'traceon/util.py'],
     [('solver objects private to a solve', 'traceon/solver.py'), SPLIT],
     tech='concurrent client programs under seeded schedules; histories compared with lone runs',
     note='As for P04, with solver worker threads of several clients running at the same time.')

prop('P06', 'Geometry and meshing work from many threads and inside callbacks',
     'Building, transforming, sampling and meshing paths and surfaces, and combining meshes, gives every caller the result it gets when alone, whether other threads do the same to shared objects at that moment or a mesh-size function itself builds and meshes geometry, also the very geometry that is being meshed. '
     'Shared geometry and meshes are never changed by it.',
     ['schedules', 'programs'], 'all interleavings of 2..4 clients on shared paths, surfaces and meshes, with mesh-size functions that re-enter the mesher',
     'The tests mesh one object at a time, from one thread, with mesh-size functions that do not use the library.',
     ['traceon/geometry.py', 'traceon/mesher.py'],
     [('meshing with per-call point and element stacks', 'traceon/mesher.py _mesh, PointStack, PointsWithQuads'), ('paths and surfaces as immutable function objects', 'traceon/geometry.py Path, Surface')],
     tech='concurrent and re-entrant client programs under seeded schedules',
     note='As for P04.')

prop('P08', 'Trajectories have no seams',
     'A traced trajectory does not depend on how the internal storage for its points is divided: every recorded point follows from the previous one by one accepted step of the documented integrator at the requested tolerance and step limit, '
     'also where one internal buffer ends and the next begins, and the trajectory ends exactly where the particle leaves the tracing bounds or no more steps can be made. Times increase strictly and no point is lost or repeated.',
     ['inputs', 'configurations', 'schedules'], 'buffer sizes from 2 points to the shipped size, radial, 3D, axial and user-given fields, trajectories longer than several buffers, one or more traces at once',
     'No trajectory of the tests is longer than one internal buffer except by accident, and none is checked step by step.',
     ['traceon/backend/tracing.c', 'traceon/backend/__init__.py', 'traceon/tracing.py'],
     [('tracing in blocks that continue from the last point', 'traceon/backend/tracing.c trace_particle; traceon/backend/__init__.py trace_particle_wrapper')],
     [('times and positions buffers', 'one block of the trajectory', 'traceon/backend/__init__.py trace_particle_wrapper')],
     tech='buffer size as a simulator knob; every step refined against an executable integrator model',
     note='The reference model is the Fehlberg 4(5) pair with step control as documented, driven by the field object’s own field; comparison step by step.')

prop('P09', 'An interrupted operation leaves everything intact',
     'When an operation stops part way because of an interrupt, a failing allocation or an input/output error at any point, the exception reaches the caller and every object the operation is not meant to change is unchanged (the one it is meant to change is changed or not). '
     'The same call afterwards gives the answer it would have given if nothing had happened.',
     ['crash_points', 'fault_sequences', 'programs'], 'every line and bytecode instruction of the package reached during solves, interpolations, meshing, mesh operations, evaluations and traces, and every message it prints',
     'No test interrupts anything.',
     ['traceon/solver.py', 'traceon/excitation.py', 'traceon/mesher.py', 'traceon/geometry.py', 'traceon/interpolation.py', 'traceon/backend/__init__.py', 'traceon/logging.py'],
     [('operations build new objects instead of changing their arguments', 'throughout'), ('tracing stops when the field function failed', 'traceon/backend/__init__.py trace_particle')],
     tech='failure injected at a seeded point of the real operation; state comparison and retry against a fresh process',
     note='Failures strike Python code of the package on the calling thread (not inside C, numpy or scipy).')

prop('P10', 'Exceptions of user functions reach the caller, and only that caller',
     'An exception raised by a function the user supplied (a field for tracing, a voltage as a function of position, a mesh size, a point mapping, a path function) at any of its calls makes the operation that called it raise that exception. '
     'No other operation, in this or another thread, now or later, is affected by it.',
     ['fault_sequences', 'schedules', 'programs'], 'any call index of the function, any exception type, several clients with failing and healthy functions at the same time, nested tracing from inside a field function',
     'No test supplies a function that raises; in the original code a raising field function was ignored and the trace went on with stale values.',
     ['traceon/backend/__init__.py', 'traceon/tracing.py', 'traceon/solver.py', 'traceon/geometry.py', 'traceon/mesher.py'],
     [('exceptions in C callbacks are kept and raised after the C call', 'traceon/backend/__init__.py trace_particle')],
     tech='callbacks that fail at a seeded call under seeded schedules of several clients',
     note='The exception must be the raised object or have it as cause or context.')

prop('P11', 'Answers do not depend on what the process did before',
     'Every operation gives the answer it gives in a fresh process, whatever operations (successful, failed or interrupted, on the same or other objects) ran before it, and in whatever order.',
     ['histories', 'programs', 'fault_sequences'], 'histories of 1..10 operations from every part of the library, with failing and interrupted ones among them, followed by probe programs that may repeat the history',
     'Each test runs its own few operations once; a cache or a shared default that leaks from one object to another shows only in particular sequences.',
     ['traceon/solver.py', 'traceon/excitation.py', 'traceon/mesher.py', 'traceon/geometry.py', 'traceon/interpolation.py', 'traceon/backend/__init__.py'],
     [('no module-level caches or mutable defaults', 'throughout'), ('containers copied by constructors', 'traceon/mesher.py Mesh.__init__, traceon/excitation.py Excitation.__init__')],
     tech='random histories with faults; the probe is compared with the same probe in a process forked before the history',
     note='Sampled histories over a small language of operations that covers the public interface.')

prop('P12', 'Results depend on the inputs only',
     'The same program gives the same results whatever happens to be in unused memory, whatever the clocks say or however they jump, whichever CPU and thread counts and hash seed are in effect, and in a fresh interpreter. '
     'In particular no value is computed from memory that was never written or that lies outside an array.',
     ['configurations', 'programs', 'inputs'], 'random programs over the whole library times: heap and stack contents, clock jumps, CPU counts, thread counts and schedules, hash seeds, environment',
     'Tests see whatever the allocator returns, usually zeros; an out-of-bounds read of one coefficient passed all of them.',
     ['traceon/backend/radial.c', 'traceon/backend/three_d.c', 'traceon/backend/tracing.c', 'traceon/backend/__init__.py', 'traceon/solver.py', 'traceon/interpolation.py', 'traceon/util.py'],
     [('buffers written before they are read', 'traceon/backend'), ('index clamping in axial interpolation', 'traceon/backend/radial.c, three_d.c')],
     tech='memory contents, clocks, CPU count and scheduling chosen by the simulator; differential comparison',
     note='Uninitialised reads are seen when memory contents reach a result; out-of-bounds reads up to 512 bytes past a heap block.')

prop('P13', 'Mesh files hold what was written, or the write fails',
     'A mesh written to a file is read back with the same points and elements by any later reader, also in another process and while other threads write and read other files, whatever was in the file or was read from it before; a name given when reading is applied to all elements, otherwise the groups of elements the file names are those of the mesh. '
     'A write that cannot be completed (full disk, missing directory) raises an exception, does not touch the mesh in memory or other files, and can be repeated; a crash loses no write that had returned.',
     ['histories', 'crash_points', 'fault_sequences', 'schedules'], 'sequences of writes, overwrites and reads of several files in the formats that store the element types exactly, disk filling up or process dying at every byte, clients interleaved',
     'The tests write at most one file, never overwrite, never fail.',
     ['traceon/mesher.py', 'traceon/util.py'],
     [('conversion to and from meshio', 'traceon/mesher.py Mesh.to_meshio, Mesh.from_meshio'), ('write/read', 'traceon/mesher.py Mesh.write_file, read_file, write, read')],
     tech='file histories with seeded disk faults and process crashes against a file-to-mesh model',
     note='Formats limited to those meshio stores exactly; file contents after a failed write are not judged.')

prop('P14', 'A traced electron feels exactly the field the field object reports',
     'At every step of a trace the force on the electron is the one that follows from the electric and magnetic field the field object itself reports at that place, and is zero outside the bounds set on the field. '
     'This holds for radial, 3D and axially interpolated fields with any mix of excitations, whatever was done with the field before, and while other threads set bounds, build tracers and trace.',
     ['inputs', 'histories', 'schedules'], 'all kinds of fields and starting conditions, field bounds in any array layout, tracers built before or after bounds changes, concurrent bounds changes',
     'The tests trace through a few simple fields and compare end points; tracing and field evaluation are separate implementations (C and Python) that can drift apart.',
     ['traceon/backend/radial.c', 'traceon/backend/three_d.c', 'traceon/backend/tracing.c', 'traceon/backend/__init__.py', 'traceon/tracing.py', 'traceon/solver.py', 'traceon/interpolation.py'],
     [('field callbacks of the tracing kernels', 'traceon/backend/radial.c field_radial_traceable etc., three_d.c'), ('tracers', 'traceon/tracing.py Tracer*')],
     [('field_bounds', 'box outside which the field is zero when tracing', 'traceon/solver.py Field.set_bounds')],
     tech='recorded trajectories refined step by step against an integrator model driven by the field’s own reports',
     note='Steps with a stage within 1e-8 of a bounds face are not judged.')

prop('P15', 'The library works across processes',
     'A process forked at any moment, also while other threads are inside the library, can use the library and all objects it inherited and gets the answers the parent would get; neither disturbs the other, also while both are at work. '
     'Meshes, excitations and fields sent from process to process behave like the originals.',
     ['schedules', 'programs', 'crash_points'], 'forks at any point of other threads’ operations, any program in the child, parent and child at work in turns, objects pickled into and out of it',
     'No test forks or pickles.',
     ['traceon/util.py', 'traceon/solver.py', 'traceon/excitation.py', 'traceon/mesher.py', 'traceon/interpolation.py', 'traceon/backend/__init__.py'],
     [('worker threads live only as long as one call', 'traceon/util.py split_collect'), ('no locks, handles or pools kept in modules or objects', 'throughout')],
     tech='forks at seeded points of a scheduled execution, the child simulated in turn and interleaved with its parent',
     note='The child runs under its own simulation, so that a wait for a vanished thread is reported as a deadlock.')

prop('P16', 'Calls can be repeated without end',
     'Every call gives back what it used: once its results are dropped and the threads it started have ended, no memory, thread, open file, temporary file, process or registration remains of it, '
     'whether it returned, failed, was interrupted or could not finish (full disk, missing file, threads that do not start, failing user functions). '
     'Any program can be repeated any number of times in one process, and nothing the process uses grows with the number of repetitions.',
     ['schedules', 'programs', 'crash_points', 'histories'], 'any program of calls, repeated, with the same fault at any point of every repetition',
     'Tests call everything once or twice in a process that then ends.',
     ['traceon/util.py', 'traceon/solver.py', 'traceon/tracing.py', 'traceon/mesher.py', 'traceon/geometry.py', 'traceon/interpolation.py', 'traceon/backend/__init__.py', 'traceon/backend/tracing.c'],
     [('worker threads end with the call', 'traceon/util.py split_collect'), ('callbacks and buffers belong to one call', 'traceon/backend/__init__.py'), ('files are closed on every path', 'traceon/util.py, traceon/mesher.py')],
     tech='repetition of seeded programs under seeded schedules and faults, with all resources counted after each one',
     note='Growth counts when it goes on for 70 repetitions; worker threads that are still running when a call has failed may end later.')

PURE = 'a pure function of its input: no schedule, clock, fault, memory or history takes part, so there is nothing for a simulator to decide'
prop('N01', 'Computed fields are accurate',
     'The field of a solved geometry converges to the physical solution (boundary conditions, dielectrics, magnetisable materials, coils) as the mesh is refined.',
     ['inputs'], 'all geometries and excitations', 'Tests compare a handful of geometries with analytic values.',
     ['traceon/solver.py', 'traceon/backend/radial.c', 'traceon/backend/radial_ring.c', 'traceon/backend/three_d.c', 'traceon/backend/triangle.c', 'traceon/backend/elliptic.c', 'traceon/backend/kronrod.c'],
     [('boundary element method', 'traceon/solver.py, traceon/backend')], na='Numerical accuracy is ' + PURE + '.')
prop('N02', 'Fields superpose linearly',
     'Sums, differences and multiples of fields have the sum, difference and multiple of the potentials, and the superposition solve agrees with solving each excitation.',
     ['inputs'], 'all fields and scale factors', 'Tests add a few fields.', ['traceon/solver.py', 'traceon/interpolation.py'],
     [('field arithmetic', 'traceon/solver.py FieldBEM.__add__, __mul__')], na='Field arithmetic is ' + PURE + ' (its parallel solve and its history independence are part of P01, P05 and P11).')
prop('N03', 'Meshes follow the geometry and the requested element size',
     'A mesh approximates its geometry, has no gaps or overlaps, respects the requested size and orients normals outwards.',
     ['inputs'], 'all geometries and mesh sizes', 'Tests mesh a few shapes.', ['traceon/geometry.py', 'traceon/mesher.py'],
     [('subdivision meshing', 'traceon/mesher.py')], na='Mesh quality is ' + PURE + ' (concurrent and re-entrant meshing is P06).')
prop('N04', 'Intersections and focus positions are geometrically right',
     'Intersections of trajectories with planes and spheres and the focus of a bundle are the geometric ones.',
     ['inputs'], 'all trajectories', 'Tests use a few straight lines.', ['traceon/tracing.py', 'traceon/focus.py', 'traceon/backend/tracing.c'],
     [('plane and line intersection', 'traceon/backend/tracing.c')], na='They are ' + PURE + '.')
prop('N05', 'Traces conserve energy to the requested tolerance',
     'The total energy of an electron traced through a static field is conserved to an accuracy set by the tolerance.',
     ['inputs'], 'all fields, starting conditions and tolerances', 'Tests trace a few orbits.', ['traceon/backend/tracing.c'],
     [('adaptive Fehlberg integrator', 'traceon/backend/tracing.c')], na='Global integration error is ' + PURE + ' (each step is checked against the integrator model in P08 and P14).')
prop('N06', 'Plots show the meshes and fields they are given',
     'Plots of meshes, charges, equipotentials and trajectories show the data passed to them.',
     ['inputs'], 'all meshes, fields and trajectories', 'Tests do not look at plots.', ['traceon/plotting.py'],
     [('plotting through vedo', 'traceon/plotting.py')], na='Drawing is ' + PURE + '; the result is also visible only on a display.')

if __name__ == '__main__':
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for d, *_ in P:
            f.write(json.dumps(d, ensure_ascii=False) + '\n')
    py = '/opt/venv/bin/python'
    m = {'version': 1, 'setup_cmd': f'{py} sim/build.py', 'checks': [], 'not_applicable': [],
         'notes': 'No hooks in /repo: all seams are put in from outside (compiler instrumentation of the C backend, replaced threading primitives and clocks, sys.monitoring for Python yield points, '
                  'malloc interposition). Commits in /repo are repairs only; see known_findings.json.'}
    for d, tech, note, na in P:
        if na:
            m['not_applicable'].append({'property': d['id'], 'reason': na})
        else:
            i = d['id']
            m['checks'].append({'property': i, 'quick_cmd': f'{py} check.py {i} --tier quick', 'thorough_cmd': f'{py} check.py {i} --tier thorough',
                                'technique': TECH + tech, 'level': 'exploration', 'level_note': note})
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
