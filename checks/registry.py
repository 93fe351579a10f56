# One entry per claimed check.
POOL_RULE = ('A run builds a real ThreadPool of 1-4 workers and drives it from 1-3 submitter threads with a random program of submissions (tasks that yield, sleep, throw, '
             'submit children), waits, queries and exception operations; the scheduler decides every switch at each mutex, condition, thread and atomic operation and at '
             'random plain memory accesses. Non-trivial: at least two tasks were accepted (or the constructor failed).')
POOL_REAL = ['mml/tools/ThreadPool.h (compiled from the working tree)', 'std::thread, std::mutex, std::condition_variable, std::function, std::exception_ptr of libstdc++']
POOL_STUB = ['pthread mutex/condition/create/join, sleeping and clocks (deterministic scheduler, sim/rt.cpp)', 'heap (sim/alloc.cpp)']
ASSUME = ['the happens-before race detector sees only code compiled into the harness (all of MML is header-only), not the inside of libstdc++.so and libc',
          'sequentially consistent execution: weak-memory reorderings are covered only through the race detector, not executed']

POOL_NOTE = ('Seeded search over schedules (random-walk and PCT), spurious wakeups, preemption at plain memory accesses and task behaviours against the real ThreadPool; '
             'histories are judged against the specification of the pool and every execution by a vector-clock race detector. Not exhaustive; trusts the simulator in sim/.')


def pool(n, **k):
    d = dict(note=POOL_NOTE, sources=[('pool.cpp', ['-O1', '-DCHECK=%d' % n])], rule=POOL_RULE, real=POOL_REAL, stub=POOL_STUB, assumptions=ASSUME,
             states='(workers, submitters, accepted tasks, failing tasks, fault kind, fault position)', quick_secs=14, thorough_secs=600)
    d.update(k)
    return d


CHECKS = {
    'C01': pool(1), 'C02': pool(2), 'C03': pool(3), 'C04': pool(4),
    'C05': pool(5, level='fault_enumeration'),
}

IO_NOTE = ('Seeded search over file-writing/reading operations, contents and disk behaviour on an in-memory disk placed under libstdc++ file streams (fopen/read/write/close); every failing or '
           'shortened system call is injected by the simulator. Judged against an independent description of the file formats. Not exhaustive.')
IO_REAL = ['mml/tools/Serializer.h, mml/tools/serializer/*, mml/base/Vector/Vector.h, mml/base/Matrix/*, mml/tools/ConsolePrinter.h (compiled from the working tree)', 'std::fstream of libstdc++']
IO_STUB = ['disk: fopen/fclose/read/write/writev/lseek (in-memory, sim/disk.cpp)', 'heap (sim/alloc.cpp)']
IO_ASSUME = ['file streams reach the operating system only through fopen, fclose, read, write, writev and lseek (libstdc++ 13)', 'the machine is little-endian with 4-byte int, as the binary formats assume']


def io(n, rule, states, **k):
    d = dict(note=IO_NOTE, sources=[('io.cpp', ['-O1', '-DCHECK=%d' % n])], tsan=False, rule=rule, real=IO_REAL, stub=IO_STUB, assumptions=IO_ASSUME, states=states,
             level='fault_enumeration', quick_secs=10, thorough_secs=400)
    d.update(k)
    return d


CHECKS.update({
    'C10': io(10, 'A run draws one of 47 save/export operations with random content, records the bytes of a fault-free save, then repeats the save while the disk misbehaves '
              '(open, write, close failure, full disk at any byte, short and interrupted transfers) and once more on a healthy disk. Non-trivial: a hard fault fired.',
              '(operation, fault kind, short I/O, outcome)'),
    'C11': io(11, 'A run saves a random vector or matrix, damages the file (cut, bit flips, header fields, bytes, zeroed blocks) or makes reads/open fail, loads it and compares the '
              'outcome with a reference decoder of the damaged bytes. Non-trivial: a damage was applied.', '(format, damage, outcome, decodable, size)'),
    'C12': io(12, 'A run is a history of 3-24 saves, overwrites, failed saves, loads, loads of missing names and loads as another kind over five file names, all six formats and four element '
              'types, with short and interrupted transfers; a model remembers the last successful save per name. Non-trivial: a file was loaded after another file was written.',
              '(per file name: state, format, type) at the end of the history', level='exploration'),
    'C14': io(14, 'A run exports one of 30 kinds of sampled objects and compares the file with an independently computed list of header lines and samples; the user function throws at a random '
              'evaluation before or after; the export is repeated and compared byte by byte. Non-trivial: the file holds samples.', '(operation, file size, header)', level='exploration'),
})

CHECKS['C13'] = io(13, 'A run generates a table (seven cell kinds, missing sentinels, quoting, BOM, CRLF, blank lines, short rows; JSON with absent, late, reordered and repeated keys, escapes), renders it as CSV, '
                   'TSV or JSON, stores it on the simulated disk, loads it through one of eleven entry points with chunked, interrupted or failing reads, or damages/cuts the text, and compares with the '
                   'table. Non-trivial: the table has rows or an I/O fault fired.', '(entry point, fault kind, outcome, columns, rows, first column type)',
                   sources=[('dataset.cpp', ['-O1'])], real=['mml/tools/DataLoader.h, mml/tools/data_loader/* (compiled from the working tree)', 'std::ifstream of libstdc++'])

import os
CAT_TUS = ['lin', 'calc', 'integ', 'opt', 'interp', 'ode', 'stat', 'graph', 'cont', 'geo', 'sys', 'misc', 'more']
if os.environ.get('CAT_TUS'):   # development aid: only some catalogue units
    CAT_TUS = os.environ['CAT_TUS'].split(',')
CAT_NOTE = ('Seeded search over a catalogue of library operations (checks/cat: objects, inputs and questions drawn at random) run inside the simulator: real MML code, simulated threads, clock, entropy and heap. '
            'Each execution is compared with a reference execution of the same operation without interference. Not exhaustive; trusts the simulator and the catalogue.')
CAT_REAL = ['every MML header of the catalogue (mml/base, core, algorithms, systems, tools), compiled from the working tree', 'libstdc++, libm']


def cat(n, rule, states, tsan=False, **k):
    o = '-O0' if tsan else '-O1'
    d = dict(note=CAT_NOTE, sources=[('cat/%s.cpp' % t, [o]) for t in CAT_TUS] + [('catrun.cpp', ['-O1', '-DCHECK=%d' % n])], tsan=tsan, rule=rule, real=CAT_REAL,
             stub=['clock, entropy (sim/rt.cpp)', 'heap (sim/alloc.cpp)', 'user callbacks (checks/cat)'] + (['threads and locks (deterministic scheduler, sim/rt.cpp)'] if tsan else []),
             assumptions=ASSUME if tsan else ['the user callbacks of the catalogue are representative'], states=states, level='exploration', quick_secs=65, thorough_secs=600)
    d.update(k)
    return d


CHECKS['C08'] = cat(8, 'A run starts up to five threads (some from other threads, at different moments) that change settings by both routes, read them, print vectors and run default-parameter quadratures and root finders; each is '
                   'judged against its own model of the documented defaults and its own changes. Non-trivial: more than one thread took part.', 'digest of all threads\' programs', tsan=True,
                   sources=[('settings.cpp', ['-O0'])], real=['mml/MMLBase.h contexts, Vector printing, quadrature, root finding (compiled from the working tree)', 'thread-local storage of libc'])
CHECKS.update({
    'C06': cat(6, 'A run gives each of 2-3 threads its own object of one catalogue operation (two thirds of the time the same operation) and lets the scheduler interleave them at memory accesses; every answer '
               'must equal the one computed alone, and the happens-before detector must stay silent. Non-trivial: an operation returned a value.', '(operation, outcome, same operation, reference first)', tsan=True),
    'C07': cat(7, 'A run shares one object between 2-3 threads that ask it const questions at the same time. Non-trivial: an answer was a value.', '(operation, outcome)', tsan=True),
    'C15': cat(15, 'A run is a random history of Timer and ScopedTimer operations, or one algorithm reporting its elapsed time while its callbacks take simulated time; the wall clock jumps at random. Non-trivial: a reported '
               'time was compared.', '(operation or history shape, outcome)', level='fault_enumeration'),
    'C16': cat(16, 'A run builds an object of one catalogue operation and asks it a question while one or all allocations from a random one on fail; then asks again with memory available. Non-trivial: an allocation failed.',
               '(operation, outcome, failing in construction, one or all allocations)', level='fault_enumeration'),
    'C17': cat(17, 'A run asks an operation a question while the user function throws at a random evaluation, then asks again. Non-trivial: the exception was thrown.', '(operation, outcome, exception kind)', level='fault_enumeration'),
    'C18': cat(18, 'A run feeds an iterative operation NaN, infinite, huge, denormal, constant, alternating or noisy values from a random evaluation or input on. Non-trivial: the operation ran.',
               '(operation, outcome, hostile kind)', level='fault_enumeration'),
    'C19': cat(19, 'A run asks one object 1-5 questions, with throwing callbacks, NaN, failed allocations and other questions in between and different contents of fresh heap and stack memory, and compares each answer with '
               'that of a fresh object. Non-trivial: an answer was a value.', '(operation, outcome, kind of disturbance)', level='fault_enumeration'),
})

CHECKS['C21'] = dict(note='Seeded search over systems with a closed-form motion, event functions, actions, state changes, output spacings, tolerances, initial steps and interrupted calls, run in simulated time on the real '
                     'integrators; rows, event logs and handler calls are compared with the closed-form motion. Not exhaustive.',
                     sources=[('ode.cpp', ['-O1'])], tsan=False, level='exploration', quick_secs=14, thorough_secs=600,
                     rule='A run integrates one system (uniform motion, rotation, decay; up to four event functions with Continue/Stop/Restart; stiff and differential-algebraic systems) with one of the fixed-step, '
                          'adaptive, event, stiff or DAE integrators, then (half the runs) interrupts a call of the same object (exception, NaN, infinity from a callback, failed allocation) and integrates again. '
                          'Non-trivial: an integration was judged.',
                     real=['mml/algorithms/ODESolvers/*, mml/algorithms/DAESolvers/*, mml/base/ODESystem*.h, mml/base/DAESystem.h (compiled from the working tree)'],
                     stub=['user callbacks (checks/ode.cpp)', 'heap (sim/alloc.cpp)', 'clock (sim/rt.cpp)'], assumptions=['systems with a closed-form motion represent smooth systems'],
                     states='(integrator, entry point, rows, events, restarts, stops, rejected steps)')

CHECKS['C09'] = dict(note='Seeded search over programs of seeded draws, Monte Carlo integrations, enclosing circles and data set samples on up to three threads whose memory accesses are interleaved by the simulator, under '
                     'changing and failing entropy, compared with the same program alone in a fresh thread. Not exhaustive.', sources=[('random.cpp', ['-O1'])], tsan=True, level='exploration', quick_secs=14, thorough_secs=600,
                     rule='A run gives 1-3 threads (with or without the main one) a program of up to ten steps (seed, draws, integrations with every way of seeding, enclosing circles, samples), with integrands that throw, take '
                          'time, yield or draw themselves, and an entropy source that changes or fails; what follows a seed must be bit-identical to the same program alone in a fresh thread with other entropy, values must lie in '
                          'their range and results must follow from the points drawn. Non-trivial: a seeded step was compared.',
                     real=['mml/base/Random.h, mml/core/Integration/MonteCarloIntegration.h, mml/algorithms/CompGeometry/Circles.h, Dataset::Sample (compiled from the working tree)', 'mersenne twister and distributions of libstdc++'],
                     stub=['std::random_device (sim/rt.cpp)', 'threads (deterministic scheduler, sim/rt.cpp)', 'clock', 'heap', 'integrands (checks/random.cpp)'], assumptions=ASSUME,
                     states='(operation, way of seeding, shape of the input, disturbance)')

CHECKS['C20'] = dict(note='Seeded search over visualisation calls, file names, states of the results folder and outcomes of fork, exec, wait and file operations; processes and files are simulated, so nothing is started or '
                     'written for real. Not exhaustive.', sources=[('visual.cpp', ['-O0'])], tsan=False, level='fault_enumeration', quick_secs=14, thorough_secs=600,
                     rule='A run makes 1-3 visualisation calls (every public entry point) with plain, hostile, over-long or linked file names while the file system, fork, exec, the program or the wait fail at random, and compares '
                          'result, started program and files with what really happened. Non-trivial: a process was started or a fault was planned.',
                     real=['mml/tools/Visualizer.h, mml/tools/Serializer.h, mml/MMLVisualizators.h (compiled from the working tree)', 'libstdc++ filesystem and streams', 'fork (the copy really runs up to its exec)'],
                     stub=['exec and the external program, wait (sim/proc.cpp)', 'file names, folders, links (sim/proc.cpp)', 'disk (sim/disk.cpp)', 'heap (sim/alloc.cpp)', 'clock (sim/rt.cpp)'],
                     assumptions=['Linux branch of the code only'], states='(entry point, fault, outcome, processes, name class)')

PURE = ('Pure single-threaded function of its arguments: no schedule, clock, I/O, randomness, resource fault or multi-party history can change its outcome, so there is nothing for a '
        'simulator to decide; random input testing would be a different technique. ')
NOT_APPLICABLE = {
    'N01': PURE + 'Interrupted or repeated use of solver objects is covered by C16, C18 and C19.',
    'N02': PURE, 'N03': PURE, 'N04': PURE, 'N05': PURE, 'N06': PURE, 'N07': PURE, 'N08': PURE, 'N09': PURE,
}
for _p in ['C%02d' % i for i in range(1, 22)]:
    if _p not in CHECKS:
        NOT_APPLICABLE[_p] = 'Check under construction.'
NOTES = 'run.py ID rebuilds from /repo, searches, confirms and minimises. run.py ID --replay FILE re-executes a replay file. known_findings.txt lists fixed defects and known findings.'
