#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe_at, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
         "observe_at": observe_at, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

TP = "mml/tools/ThreadPool.h"
p("C01", "Thread pool runs every task exactly once, even across shutdown",
  "Every task handed to a thread pool, from any thread (including from inside other tasks), is executed exactly once. Destroying the pool first runs everything that was accepted, including tasks that running tasks submit meanwhile, and then returns with no worker still running. No data race, deadlock, lost wakeup or crash occurs under any scheduling.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of submitters, workers, waiters and the destructor, all task graphs, with spurious wakeups",
  "Tests run a few fixed workloads under whatever schedule the host happens to produce; the interleaving of the destructor with an idle, waking or re-submitting worker is not reproducible there.",
  [TP], [("worker loop, stop flag and condition variables", TP), ("destructor drains then joins", TP)],
  ["task execution counts, destructor return, thread exit"],
  [("tasks", "queued work", TP), ("in_flight_tasks", "tasks being executed", TP), ("stop", "shutdown requested", TP)])
p("C02", "wait_for_tasks is a complete barrier and always returns",
  "When wait_for_tasks returns, every task submitted before the call (and everything those tasks themselves submitted before finishing) has finished and its writes are visible to the caller. The call always returns within a bounded number of steps once the outstanding tasks can finish, for any number of simultaneous waiters and with no tasks at all. Tasks that fail with an exception count as finished.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of several waiters, submitters and workers, spurious wakeups, failing tasks",
  "A missed notification or an early return needs a particular interleaving of the last completion with a waiter going to sleep; tests that sleep and poll cannot force it.",
  [TP], [("completion notification under the queue lock", TP)], ["return of the wait call relative to task completion events"])
p("C03", "Task failures are captured exactly once, in order, and reported",
  "Every exception that escapes a task is captured exactly once, handed to the error callback installed at that time exactly once, and retrievable exactly once by the query calls, oldest first; no other exception ever appears. A failing task or failing callback never stops a worker, loses another task or ends the process. After a barrier the reported count equals failures minus retrieved ones.",
  ["schedules", "histories", "fault_sequences"],
  "all mixes of failing and succeeding tasks, callbacks replaced concurrently, callbacks that throw, concurrent retrieval and clearing",
  "Tests throw from a handful of tasks with a single retriever; conservation under concurrent capture, retrieval and callback replacement depends on the schedule.",
  [TP], [("exception queue and its mutex", TP), ("callback copied under lock", TP)], ["exception_count/get_exception/rethrow_if_exception results, callback invocations"])
p("C04", "Tasks start in submission order and pool counters never lie",
  "Tasks are started in the order in which their submissions took effect (strictly one after another for a one-worker pool). At any moment the queries are consistent with some instant between call and return: idle is never reported while an accepted task is unfinished, executing tasks never exceed the worker count, and queued plus executing never exceeds accepted minus finished.",
  ["schedules", "histories"],
  "all interleavings of submitters, workers and observers",
  "A transient wrong answer (a popped task not yet counted as executing) is visible only in a window a few instructions wide.",
  [TP], [("dequeue and in-flight increment in one critical section", TP)], ["has_tasks/pending_tasks/queued_tasks results against the recorded history"])
p("C05", "Thread pool survives thread-creation and memory exhaustion",
  "If a worker thread cannot be created or memory runs out while a pool is constructed, construction fails with an exception, every worker already started has ended, and the process is not terminated. If memory runs out while a task is submitted, the submission fails with an exception and has no effect: nothing else is lost, and the pool still works and shuts down; memory running out while a task's failure is recorded does not end the process. Once resources are back, a new pool behaves normally.",
  ["fault_sequences", "schedules"],
  "failure of the k-th thread creation or k-th allocation, for every k, under every schedule",
  "No existing test makes thread creation or allocation fail.",
  [TP], [("constructor", TP), ("enqueue", TP)], ["exception seen by the caller, live threads, process exit"])
p("C06", "Concurrent use on separate data equals sequential use, race-free",
  "When several threads run any library computations on their own objects at the same time (linear algebra, derivation, integration, root finding, interpolation, optimisation, ODE and DAE solving, Fourier, statistics, graphs, geometry, curve fitting, field and coordinate operations), every call returns bit-for-bit what it returns when run alone. No interleaving produces a data race on hidden shared state, a crash or a hang.",
  ["schedules", "inputs", "histories"],
  "all interleavings of 2-4 threads running arbitrary sequences of library operations on private objects",
  "The unit tests run every algorithm on one thread; hidden static scratch state is invisible there.",
  ["mml/algorithms", "mml/core", "mml/base", "mml/systems", "docs/THREADING.md"],
  [("no global mutable state; thread_local contexts", "docs/THREADING.md")], ["returned values, memory accesses"])
p("C07", "Read-only use of a shared object from many threads is safe",
  "Any number of threads may call const operations on one shared object (vectors, matrices, polynomials, functions, interpolants, curves, geometry shapes, stateless solvers and their inputs, solution containers) concurrently. Every call returns what it returns when the object is used by one thread, and no interleaving is a data race.",
  ["schedules", "inputs", "histories"],
  "all interleavings of const operations on shared objects",
  "Lazily filled caches behind const methods race only when two first uses overlap; no test shares an object between threads under control.",
  ["mml/base", "mml/core", "mml/base/Geometry", "mml/base/InterpolatedFunctions", "docs/THREADING.md"],
  [("const methods do not write shared state", "docs/THREADING.md")], ["returned values, memory accesses"])
p("C08", "Default settings are private to each thread",
  "Every thread starts with the documented default tolerances, iteration limits and print formats; a thread that changes a setting (by either documented route) affects only its own later computations and output, and immediately sees its own change by both routes. Changes never leak to threads that run at the same time or start later, outlive nothing, and are never a data race.",
  ["schedules", "histories"],
  "all interleavings of threads that read, change and use settings, with threads starting and ending in any order",
  "Existing tests change settings on the main thread only.",
  ["mml/MMLBase.h"], [("thread_local AlgorithmContext and PrintContext", "mml/MMLBase.h")], ["setting values, results of default-parameter calls, printed text"])
p("C09", "Seeded randomness is reproducible; unseeded results ignore entropy",
  "A random generator or Monte Carlo integration given a fixed nonzero seed produces the identical sequence or result every time, whatever other threads, generators, clocks or system entropy do; generators in different threads never disturb each other. Drawn values stay inside the requested range and are spread uniformly over it; a Monte Carlo result is the box volume times the mean of exactly the samples asked for, all inside the box (the asked number in each stratum), with the standard error as a finite nonnegative estimate, and never a success without samples. Algorithms that only shuffle internally (the minimal enclosing circle) return the same, correct answer for every outcome or failure of the entropy source.",
  ["schedules", "inputs", "configurations", "histories"],
  "all seeds, schedules, entropy outcomes and failures, integrands that throw or draw themselves, and preceding histories",
  "Tests use one seed on one thread and real entropy.",
  ["mml/base/Random.h", "mml/core/Integration/MonteCarloIntegration.h", "mml/algorithms/CompGeometry/Circles.h"],
  [("thread_local engine, per-object engines, config seed", "mml/base/Random.h")], ["returned values"])
SER = "mml/tools/serializer"
p("C10", "A save that reports success left the complete file on disk",
  "If any save or export operation (vectors, matrices, complex vectors, functions, curves, surfaces, vector fields, ODE solutions, field lines, particle simulations, console tables) reports success, the target file holds exactly the bytes a fault-free run would have written. Whenever the disk refuses any part of the work (open, write, flush or close fails, the disk fills up, a write is cut short), the operation reports failure, without throwing where its interface returns a result and without crashing or leaking the file handle.",
  ["fault_sequences", "inputs", "crash_points"],
  "every operation, every content, a disk fault at every system call",
  "Tests only write to a healthy disk.",
  [SER, "mml/base/Vector/Vector.h", "mml/tools/ConsolePrinter.h"],
  [("stream state checked before success is returned", SER)], ["returned status, bytes on the simulated disk, open descriptors"])
p("C11", "Loading a damaged or unreadable file never succeeds with wrong data",
  "Loading a matrix or vector from a file that was cut short, damaged or cannot be read reports success only if every element the file declares is present and readable, and then with exactly those values; missing or unreadable elements, a damaged binary header or a failing read are reported as failure. A failing load neither crashes, nor requests memory out of proportion to the file, nor leaves the handle open.",
  ["fault_sequences", "crash_points", "inputs"],
  "every prefix of every saved file (a crash during the save), read errors at every call, corrupted headers",
  "Tests load intact files and one or two missing ones.",
  [SER, "mml/base/Vector/Vector.h"],
  [("header and element reads validated", SER + "/MatrixIO.h")], ["returned status and loaded object"])
p("C12", "What was saved is what is loaded back, across any history",
  "After any history of saves, overwrites, loads and restarts, loading a file returns exactly the content of the last successful save to that name: bit-for-bit for binary formats, and to the format's printed precision for text formats, with shape preserved. Short reads, short writes and interrupted system calls do not change the outcome, and operations on one file never affect another.",
  ["histories", "inputs", "fault_sequences"],
  "all histories of saves and loads over several files and formats, with benign I/O perturbations",
  "Tests save and load once per format with small hand-picked data.",
  [SER, "mml/base/Vector/Vector.h"], [("binary headers, fixed element layout", SER + "/MatrixIO.h")], ["loaded values"])
p("C13", "Data set loading is exact, rectangular and honest about read errors",
  "Loading a CSV, TSV or JSON data set yields exactly the rows and columns of the text, with every column the same length and each missing cell recorded as missing in its own row, no matter how the bytes arrive. If a read fails partway the load reports an error (the non-throwing variants as a failed result) instead of a silently shortened data set, and malformed input is rejected or parsed but never crashes.",
  ["inputs", "fault_sequences", "histories"],
  "all generated documents, all chunkings of the byte stream, read faults at every call",
  "Tests load a few well-formed files from a healthy disk.",
  ["mml/tools/data_loader"], [("DataLoaderCSV/JSON parsing", "mml/tools/data_loader")], ["returned data set or error"])
p("C14", "Exported data files hold exactly the sampled values",
  "Every successful export of a function, curve, surface, field, field line, ODE solution or simulation contains the documented header and exactly one line per requested sample, whose coordinates are the requested grid and whose values are what the function returns there. A user function that throws makes the export report failure rather than leaving a file reported as good, data lacking a requested sample are refused, and repeating the export yields the same file.",
  ["inputs", "fault_sequences", "histories"],
  "all sampled objects, grid sizes and precisions, user functions failing at any evaluation",
  "Tests compare a few reference files.",
  [SER, "docs/tools/SerializerFormats.md"], [("Serializer::Save*", SER)], ["file content against an independent reference writer"])
p("C15", "Measured times follow elapsed real time, never the wall clock",
  "Every elapsed time a timer or the result of a completed, successful algorithm call reports equals (to the microsecond the algorithm timers resolve) the time that passed on the monotonic clock between the two instants, is never negative, and marks are kept in order with their names. Adjusting the system date forwards or backwards at any moment has no effect on any reported duration, and a stopped or reset timer keeps its documented values.",
  ["histories", "fault_sequences", "schedules"],
  "all sequences of timer operations interleaved with clock advances, stalls and wall-clock jumps",
  "Tests sleep a few milliseconds on a well-behaved clock.",
  ["mml/tools/Timer.h", "mml/core/AlgorithmTypes.h"], [("steady clock", "mml/tools/Timer.h")], ["reported durations"])
p("C16", "Running out of memory is survivable everywhere",
  "If memory allocation fails at any point inside any library operation, the operation ends with an out-of-memory (or its documented error) report, leaks nothing, frees nothing twice and leaves its inputs unchanged. Objects involved stay usable, and repeating the operation once memory is available gives bit-for-bit the result of a run that never failed. (Text composed through standard output streams is exempt: those record the failure in the stream state.)",
  ["fault_sequences", "inputs"],
  "every operation of the catalogue and every allocation it makes",
  "No test makes an allocation fail.",
  ["mml"], [("RAII containers, no raw ownership", "mml/base")], ["exception seen, allocation balance, inputs and repeated result"])
p("C17", "A throwing user callback leaves no trace",
  "If a user-supplied function (integrand, residual, derivative, ODE or DAE right-hand side, event, indicator, observer, distance) throws at any evaluation, the operation either lets that very exception reach the caller or reports failure as documented; it never reports success, swallows it into a normal-looking value, crashes or leaks. Inputs are unchanged, and using the same objects again gives bit-for-bit the result of a run in which nothing failed.",
  ["fault_sequences", "inputs", "histories"],
  "every callback-taking operation and every evaluation index",
  "Tests use well-behaved callbacks.",
  ["mml/algorithms", "mml/core"], [("exception safety of solvers", "docs/ERROR_HANDLING.md")], ["outcome seen by the caller, repeated result"])
p("C18", "Every iterative algorithm stops within its budget, whatever it is fed",
  "Iterative algorithms (root finding, optimisation, adaptive quadrature, series and limit summation, iterative linear and eigen solvers, curve fitting, ODE, BVP and DAE integration) finish after a number of callback evaluations bounded by their configured limits even if the callback returns NaN, infinities, huge values, constants or noise from any evaluation on. They then report failure or throw; a result marked converged or successful is never non-finite. The same holds for the diagnostic (Detailed) variants of direct solvers, transforms and statistics while finiteness checking is on.",
  ["fault_sequences", "inputs", "histories"],
  "every callback-driven algorithm, every kind of value fault starting at every evaluation",
  "Tests feed smooth finite functions.",
  ["mml/algorithms", "mml/core/Integration"], [("iteration limits and finite checks", "mml/core/AlgorithmTypes.h")], ["evaluation count, reported status and value"])
p("C19", "Reusable objects give history-independent answers",
  "A solver, integrator, linear system, decomposition, interpolant, random-free algorithm object or cache that has been used, queried in any order, failed or interrupted before gives bit-for-bit the same answer to the next question as a fresh object given the same inputs. Copies and moved-to objects answer like the original, and questions with explicit tolerances are never answered for another tolerance.",
  ["histories", "inputs", "fault_sequences"],
  "all query orders and reuse histories with failures in between",
  "Tests construct a fresh object per assertion.",
  ["mml/systems/LinearSystem.h", "mml/algorithms/ODESolvers", "mml/base"], [("lazy caches, FSAL state reset", "mml/systems/LinearSystem.h")], ["answers of used versus fresh objects"])
p("C20", "Visualizer launch reports the truth and stays in its folder",
  "A visualisation call reports success only if its data file was completely written and the external program was started and ended normally; failing to write, fork, start, a crash or an abnormal exit of the program is reported as failure with the file path. Interrupted waits are retried, no child process is left unreaped, and whatever file name is given, nothing is written outside the results folder and nothing unintended is executed.",
  ["fault_sequences", "inputs", "histories"],
  "all file names, all outcomes of fork, exec, wait and disk operations",
  "Tests cannot launch external programs or make fork and wait fail.",
  ["mml/tools/Visualizer.h", "mml/MMLVisualizators.h"], [("filename sanitising, fork/exec/waitpid", "mml/tools/Visualizer.h")], ["recorded process and file operations, returned result"])
p("C21", "ODE trajectories and event logs are complete, ordered and consistent",
  "A completed integration returns the start state first, then the requested output times in strictly increasing order without gaps or repeats, ending exactly at the final time (fixed-step solvers: up to rounding) or not beyond the stopping event. Every reported event lies inside the interval, in chronological order, at a root of its event function crossed in the reported and requested direction; each state change is applied exactly once, and integrating in two legs agrees with one leg within tolerance. These hold for every output spacing, tolerance and initial step.",
  ["inputs", "histories", "configurations"],
  "all generated systems, event schedules, output spacings and step sizes, run in simulated time",
  "Tests check a few trajectories at a few points.",
  ["mml/algorithms/ODESolvers", "mml/base/ODESystemSolution.h"], [("dense output and event location", "mml/algorithms/ODESolvers/ODESolverEventDetection.h")], ["solution rows and event list"])

# ---- not applicable to this family: pure functions of their inputs ----
def na(id, title, st, files):
    p(id, title, st, ["inputs"], "all inputs in the documented domain",
      "Tests sample a handful of inputs; the claim is about every input.", files, [("the algorithm itself", files[0])], ["returned values"])
na("N01", "Direct linear solvers return accurate solutions",
   "For every well-conditioned system the direct solvers (LU, QR, Cholesky, SVD, Gauss-Jordan, banded) return a solution whose residual is small relative to the data, and report singular systems as such.", ["mml/core/LinAlgEqSolvers"])
na("N02", "Eigenvalues and singular values satisfy their defining equations",
   "Every eigenpair and singular triplet returned satisfies its defining equation to working precision, and vectors are orthonormal where promised.", ["mml/algorithms/EigenSystemSolvers.h"])
na("N03", "Quadrature and differentiation meet their error estimates",
   "For sufficiently smooth functions the integration and differentiation rules converge at their documented order and their error estimates bound the true error.", ["mml/core/Integration", "mml/core/Derivation"])
na("N04", "Fourier transforms invert each other and preserve energy",
   "Forward followed by inverse transform returns the input to rounding error, and Parseval's identity holds.", ["mml/algorithms/Fourier.h"])
na("N05", "Statistical distributions are consistent",
   "Every cumulative distribution is monotone with limits 0 and 1, quantile functions invert it, and descriptive statistics match their definitions.", ["mml/algorithms/Statistics"])
na("N06", "Graph algorithms return correct paths, trees and components",
   "Shortest paths, spanning trees, components and spectral quantities equal those of a brute-force definition.", ["mml/algorithms/GraphAlgorithms.h"])
na("N07", "Geometric predicates and constructions are correct",
   "Hulls contain all points, triangulations are valid, intersections lie on both objects, and areas and volumes agree with independent formulas.", ["mml/algorithms/CompGeometry", "mml/base/Geometry"])
na("N08", "Algebraic laws of vectors, matrices, polynomials, tensors, quaternions",
   "The arithmetic types obey the algebraic laws of their mathematical counterparts up to rounding.", ["mml/base"])
na("N09", "Coordinate transformations round-trip and preserve geometry",
   "Transforming to another coordinate system and back returns the point, and covariant and contravariant components transform consistently.", ["mml/core/CoordTransf"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=True) + "\n")
