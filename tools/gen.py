"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def P(id, title, statement, over, text, why, files, mechanism, observe=None, state=None, na=None, note=None,
      level='exploration', technique='deterministic simulation with fault injection'):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mechanism=mechanism, observe=observe or [], state=state or [], na=na, note=note, level=level,
                technique=technique)


CONT = 'beluga/continuation/continuation.py'
SOLVE = 'beluga/beluga.py'

PROPS = [
    P('C01', 'A continuation ends exactly at its targets or says that it failed',
      'Whatever pattern of converging, diverging and raising solver calls a chain of manual and bisection steps meets: '
      'if the solve returns, every step has solved each of its requested cases in order (evenly or log spaced from the '
      'value at the start of the step to the target, a single case being the target itself) and ends on a converged '
      'solution exactly at its targets, with all other constants unchanged. '
      'If a case fails for good, or the solver raises, the solve raises; it raises for no other reason and makes no '
      'attempts beyond those needed.',
      ['histories', 'fault_sequences', 'configurations'],
      'every chain of manual/bisection steps, spacing, case count and division limit, against every sequence of '
      'converged / diverged / raising solver calls',
      'Tests run a few steps on which the solver nearly always converges; the failure patterns that decide the path '
      'form an unbounded set.',
      [CONT, SOLVE],
      [{'name': 'ManualStrategy.init / ContinuationStrategy.next', 'where': CONT},
       {'name': 'run_continuation_set', 'where': CONT}],
      ['constants of each solver call', 'return value or exception of beluga.solve'],
      note='Seeded search against a reference walk; the solver is a script, everything above it is the real code.'),
    P('C02', 'Bisection recovers by even subdivision, within its limit, and terminates',
      'After a failed case that is not its first, a bisection step splits the interval from the last solved case to the '
      'failed one evenly (or evenly in the logarithm) into num_divisions parts and continues from there, visiting every '
      'original case too; it gives up with an error once more than max_divisions consecutive divisions have failed '
      '(and never before), a converged case renewing the budget, and at once if the very first case fails. '
      'Once failures stop it completes within the number of cases left.',
      ['histories', 'fault_sequences', 'configurations'],
      'every num_cases, num_divisions, max_divisions, spacing and every sequence of solver outcomes',
      'Tests drive bisection with one or two hand-picked failures; nested and repeated divisions at the limit, and '
      'liveness once failures stop, are properties of unbounded histories.',
      [CONT],
      [{'name': 'BisectionStrategy.next', 'where': CONT}],
      ['constants of each solver call', 'return value or exception of beluga.solve'],
      note='Seeded search against an executable model of subdivision; the solver is a script.'),
    P('C03', 'Every attempt starts from the nearest converged solution of its step',
      'Within a step of any strategy, each attempt is given as guess the converged solution of that step whose constants '
      'are nearest (sum of absolute differences) to those of the case, or, while nothing has converged, the trajectory '
      'the step started from; a diverged trajectory is never used. '
      'The guess carries exactly the constants of its case, is otherwise identical to that solution, and a step starts '
      'from the final solution of the step before it if that converged.',
      ['histories', 'fault_sequences', 'configurations'],
      'every strategy and every sequence of solver outcomes, including solvers that reuse or overwrite their buffers',
      'Tests only see whether the end result converges, which a wrong guess usually still does on benign problems.',
      [CONT],
      [{'name': 'ContinuationStrategy.get_closest_gamma / add_gamma / init', 'where': CONT}],
      ['the trajectory object each solver call receives'],
      note='Answers carry per-attempt markers, so the origin of every guess is identified exactly.'),
    P('C04', 'Grid continuations attempt every grid case exactly once, whatever fails',
      'A productspace or sparse_product step attempts each point of its grid exactly once, its starting point first, '
      'with only the continuation constants changed, whichever cases fail; it stops early only if the first case fails '
      'or the solver raises, and then the solve raises. '
      'The results report for every grid point, in the order attempted, its constants and whether it converged.',
      ['histories', 'fault_sequences', 'configurations'],
      'every grid over 1 to 3 constants and every sequence of solver outcomes',
      'Tests build one small grid on which everything converges.',
      [CONT],
      [{'name': 'ProductStrategy.init/next', 'where': CONT}, {'name': 'SparseProductStrategy.init/next', 'where': CONT}],
      ['constants of each solver call', 'return value of beluga.solve'],
      note='Seeded search; grid points are recomputed independently, order of visits is free.'),
    P('C05', 'Running a solve again gives what fresh objects would give',
      'Running beluga.solve with step, solver, guess and problem objects that earlier solves already used gives, bit for '
      'bit, what it gives with fresh objects: the same attempts with the same guesses, the same results or the same '
      'error. This holds whatever happened before: earlier solves completed, failed, raised or were interrupted, '
      'started from other constants, or the caller overwrote the results returned. '
      'A guess object the caller passed in is never modified by a solve.',
      ['histories', 'fault_sequences', 'configurations'],
      'every history of earlier solves with the same objects, every strategy, every sequence of solver outcomes',
      'Tests build everything anew for each solve; leftover state shows only on a second run after a particular first.',
      [CONT, SOLVE, 'beluga/continuation/guess_generators.py'],
      [{'name': 'ContinuationStrategy.reset / init', 'where': CONT},
       {'name': 'run_continuation_set', 'where': CONT}, {'name': 'GuessGenerator.generate', 'where':
        'beluga/continuation/guess_generators.py'}],
      ['every solver call', 'return value or exception of beluga.solve'],
      note='Seeded search over histories; oracle is the same solve on fresh objects, compared exactly.'),
    P('C06', 'The results are exactly the trajectories attempted, once each, in order',
      'beluga.solve returns one list per step holding exactly one trajectory per attempt of that step in the order '
      'attempted, failed cases included, and without steps the single solution attempted. '
      'Each trajectory carries the constants of its case, the verdict and the answer the solver gave for that attempt, '
      'mapped exactly once back to the form of the optimal control problem. '
      'A result is not changed by later attempts, by a solver that reuses or overwrites its buffers afterwards, or by '
      'changing another result.',
      ['histories', 'fault_sequences', 'configurations'],
      'every strategy or none, every sequence of solver outcomes, every pattern of buffer reuse by the solver',
      'Tests look at the last trajectory of a run that converges throughout.',
      [CONT, SOLVE],
      [{'name': 'run_continuation_set', 'where': CONT}, {'name': 'postprocess_continuations', 'where': SOLVE}],
      ['return value of beluga.solve', 'every solver call'],
      note='Each scripted answer carries its own marker; an aliasing fault overwrites solver buffers after the fact.'),
    P('C07', 'Automatic scaling never shows in the results',
      'With autoscale on, every returned trajectory (states, costates, quads, controls, parameters, constants, verdict) '
      'is what the solver answered, in the units of the problem, and the same cases are attempted in the same order as '
      'with autoscale off. '
      'The problem handed to the solver is the original one in scaled variables: its equations of motion, control and '
      'boundary conditions, evaluated at scaled points, are the original ones up to the scale factors. '
      'This holds for every history of attempts, including failed ones, and for problems with constants of motion.',
      ['histories', 'fault_sequences', 'configurations', 'inputs'],
      'every problem with consistent units, every chain of steps, every sequence of solver outcomes',
      'Tests compare a few converged solutions; wrong factors after a failure, for quads, parameters or multipliers do '
      'not show there.',
      [CONT, 'beluga/numeric/data_classes/NumericProblem.py'],
      [{'name': 'FuncScaling / scale_sol / inv_scale_sol', 'where': 'beluga/numeric/data_classes/NumericProblem.py'},
       {'name': 'run_continuation_set', 'where': CONT}],
      ['every solver call and the functions it is given', 'return value of beluga.solve'],
      note='Scripted solver; oracle recomputes the scaling relation from the trajectories and functions themselves.'),
    P('C08', 'Solving on several workers gives exactly what solving serially gives',
      'Shooting on a pool of worker processes gives, bit for bit, the trajectories, verdicts and iteration counts of the '
      'serial solve of the same problem, in whatever order the workers finish their tasks and whichever worker gets '
      'which; with quadratures and any number of arcs, and for a solver or pool that is used for several solves. '
      'An error in a worker surfaces as an error of the solve; it is never taken for a result.',
      ['schedules', 'configurations', 'fault_sequences'],
      'every completion order and assignment of tasks to workers, every problem, number of arcs and of workers',
      'No test solves on more than one worker, and a test run would sample one schedule.',
      ['beluga/numeric/bvp_solvers/Shooting.py', 'beluga/numeric/ivp_solvers/ivpsol.py', SOLVE],
      [{'name': 'Shooting._make_gammas_parallel', 'where': 'beluga/numeric/bvp_solvers/Shooting.py'},
       {'name': 'solve (pool creation)', 'where': SOLVE}],
      ['result of the solver', 'return value of beluga.solve'],
      note='Simulated worker pool (tasks and results are serialised, order and assignment seeded) against a serial solve.'),
    P('C09', 'However a solve ends, its worker pool and algorithm are closed',
      'Whichever way beluga.solve ends (completion, a failed continuation, an exception or Ctrl-C in the solver, a worker, '
      'the guess, a step, the mapping back, the saving or the creation of the pool), the worker pool it started is shut '
      'down, its algorithm is closed, neither is used afterwards, and the original error reaches the caller. '
      'No pool is started for one CPU, and none with more workers than asked for.',
      ['fault_sequences', 'crash_points', 'configurations'],
      'every point at which a solve can fail or be interrupted, every number of workers',
      'Tests run serially and to completion.',
      [SOLVE, CONT],
      [{'name': 'solve', 'where': SOLVE}, {'name': 'run_continuation_set', 'where': CONT}],
      ['calls on the pool and the algorithm', 'exception of beluga.solve'],
      note='Simulated pool records every call; faults at seeded places and lines.'),
    P('C10', 'Saving replaces the file completely or not at all',
      'If a save is cut short at any point (process killed, Ctrl-C, power loss, full disk, failing or short write), the '
      'file of that name afterwards holds either exactly what it held before or exactly the new results, also with '
      'several processes saving under the same name. '
      'A save that returns has stored the new results under exactly the name given; one that fails raises, leaves the '
      'previous file in place and no other files behind.',
      ['crash_points', 'fault_sequences', 'schedules', 'histories'],
      'every file operation of a save at which a fault or a switch to another process can occur',
      'Tests save once to an empty directory on a disk that works.',
      ['beluga/utils/storage.py', SOLVE],
      [{'name': 'save', 'where': 'beluga/utils/storage.py'}],
      ['the directory after the save', 'exception of save'],
      note='Real processes, files below a system-call seam; schedule and faults seeded; power loss by a disk model.'),
    P('C11', 'What is loaded is exactly what was saved, or loading fails',
      'Loading a file of results returns the problem, the boundary value problem and every trajectory exactly as they '
      'were saved, or raises; never partial, stale or mixed results, whatever reads do (short, failing, cut off file) '
      'and whoever saves under the same name at the time. '
      'beluga.solve stores exactly what it returns, under the file name it was told, and writes no file when told not '
      'to save.',
      ['schedules', 'fault_sequences', 'histories', 'inputs'],
      'every set of results, every interleaving of savers and loaders, every read fault',
      'Tests load one file back right after saving it, and compare little.',
      ['beluga/utils/storage.py', SOLVE],
      [{'name': 'save / load', 'where': 'beluga/utils/storage.py'}, {'name': 'solve (save_sols)', 'where': SOLVE}],
      ['return value of load', 'the file written by beluga.solve'],
      note='Same seam as C10; loaders compared field by field.'),
    P('C12', 'After an interruption at any point, solving again gives the clean result',
      'If a solve is struck at any point by Ctrl-C, MemoryError or an arithmetic error, that error reaches the caller '
      'rather than being lost, and solving again with the same problem, steps, guess and algorithm objects gives, bit '
      'for bit, what a solve with fresh objects gives. '
      'A guess given by the caller is unchanged at all times.',
      ['crash_points', 'fault_sequences', 'histories', 'configurations'],
      'every line executed by a solve at which an exception can strike, repeatedly, with any algorithm and guess',
      'No test interrupts a solve.',
      [SOLVE, CONT, 'beluga/numeric/bvp_solvers/Shooting.py', 'beluga/numeric/bvp_solvers/SPBVP.py',
       'beluga/continuation/guess_generators.py'],
      [{'name': 'solve', 'where': SOLVE}, {'name': 'Shooting.solve', 'where':
        'beluga/numeric/bvp_solvers/Shooting.py'}, {'name': 'GuessGenerator.generate', 'where':
        'beluga/continuation/guess_generators.py'}],
      ['return value or exception of beluga.solve', 'the guess object'],
      note='Exceptions raised at seeded lines of real solves through sys.settrace; comparison is exact.'),
    P('C13', 'A trajectory reported as converged solves the problem that was posed',
      'If a solver reports a trajectory as converged, it is finite, has the constants and spans the interval of the '
      'problem posed, follows its equations of motion and quadratures from node to node, and meets its boundary '
      'conditions, to the accuracy asked for; success and converged agree. '
      'This holds whatever the problem\'s functions do on the way (not a number, infinite, exceptions, for some calls '
      'or in a region of the state space) and however small the iteration or node budget, which is never overrun. '
      'A solver does not change the guess it is given, and a single arc that meets its boundary conditions is not '
      'reported as failed.',
      ['inputs', 'fault_sequences', 'configurations'],
      'every boundary value problem, guess, algorithm, budget, and every pattern of faults in its functions',
      'Tests check the end point of problems that converge.',
      ['beluga/numeric/bvp_solvers/Shooting.py', 'beluga/numeric/bvp_solvers/SPBVP.py',
       'beluga/numeric/ivp_solvers/ivpsol.py'],
      [{'name': 'Shooting.solve', 'where': 'beluga/numeric/bvp_solvers/Shooting.py'},
       {'name': 'SPBVP.solve', 'where': 'beluga/numeric/bvp_solvers/SPBVP.py'}],
      ['result of the solver'],
      note='Faults injected in the functions of a zoo of problems; independent integration is the oracle.'),
    P('C14', 'A solution handed back solves the optimal control problem as stated',
      'Every trajectory beluga.solve returns as converged is, in the units and variables of the problem as the user '
      'stated it, a solution of it: it follows the stated dynamics, meets the stated end conditions for the constants '
      'of its case, its cost is the stated one, and its costates and controls satisfy the first-order conditions '
      '(costate equations, stationarity, Hamiltonian, transversality). This holds for every offered form, control law, solver, scaling, '
      'strategy and number of processes, when a solve starts from a solution obtained with another of these, through '
      'a file or after failed, raising or interrupted attempts. A solution used as guess of another solve is taken over '
      'unchanged, and when nothing fails a linear problem is not refused and no problem ends in an error of name, type, '
      'attribute or index.',
      ['histories', 'fault_sequences', 'configurations'],
      'every problem, every chain of solves started from each other\'s solutions, every combination of options per solve, '
      'every sequence of failures between them',
      'Tests solve examples once, each with one combination of options, and look at a few end values.',
      ['beluga/numeric/data_classes/trajectory_mappers.py', SOLVE, CONT, 'beluga/continuation/guess_generators.py'],
      [{'name': 'SolMapper.map / inv_map', 'where': 'beluga/numeric/data_classes/trajectory_mappers.py'},
       {'name': 'solve', 'where': SOLVE}],
      ['return value of beluga.solve'],
      note='Whole system for real; the oracle restates dynamics and first-order conditions of each problem by hand.'),
    P('C15', 'Solves running at the same time in threads do not disturb each other',
      'Solves running at the same time in threads of one process, each with its own steps, guess and algorithm objects, '
      'give bit for bit what each gives alone, however the threads are interleaved, whether they share the compiled '
      'problem or compile their own, and whatever happens to the other threads.',
      ['schedules', 'fault_sequences', 'configurations'],
      'every interleaving of the lines of concurrent solves',
      'No test solves in more than one thread, and one run samples one schedule.',
      [SOLVE, CONT, 'beluga/numeric/bvp_solvers/Shooting.py', 'beluga/numeric/bvp_solvers/SPBVP.py'],
      [{'name': 'solve', 'where': SOLVE}],
      ['return value or exception of beluga.solve in each thread'],
      note='Real threads under a seeded baton scheduler switching at lines; comparison is exact.'),
    P('C16', 'Surroundings do not show in the results',
      'The same solve gives bit for bit the same results whatever its surroundings: hash seed of the process, clock '
      'including jumps backwards and forwards, verbosity and failing streams of the log, state of the random '
      'generators, working directory, environment variables, garbage collection, and what the process did before.',
      ['schedules', 'fault_sequences', 'configurations'],
      'every hash seed, clock history, log configuration and failure, and random state',
      'Tests run in one set of surroundings, and do not compare with another.',
      [SOLVE, 'beluga/utils/logging.py', CONT],
      [{'name': 'solve', 'where': SOLVE}],
      ['return value of beluga.solve in a fresh process'],
      note='Fresh processes in seeded surroundings against a solve in the checking process; comparison is exact.'),
    # -- further claimed properties go here

    # Pure functions of their input: no schedule, time, I/O, failure or history for the simulator to vary.
    P('C30', 'The derived boundary value problem is the first-order necessary condition',
      'For every optimal control problem, the derived adjoint equations, control law and boundary conditions are the '
      'first-order necessary conditions of that problem, for every indirect method offered.',
      ['programs'], 'every problem definition', 'Tests compare a handful of examples.',
      ['beluga/symbolic/data_classes/mapping_functions.py'],
      [{'name': 'Dualize, AlgebraicControlLaw, DifferentialControlLaw, MishchenkoFomenko', 'where':
        'beluga/symbolic/data_classes/mapping_functions.py'}],
      na='Symbolic derivation is a pure function of the problem definition: single-threaded, no clock, I/O, peer or '
         'failure to inject, so no schedule or fault sequence decides it.'),
    P('C31', 'Generated numeric functions compute the symbolic expressions',
      'For every problem and every argument, the compiled equations of motion, control and boundary functions return the '
      'values of the symbolic expressions they were generated from.',
      ['programs', 'inputs'], 'every expression and argument', 'Tests evaluate a few expressions at a few points.',
      ['beluga/symbolic/data_classes/symbolic_problem.py', 'beluga/numeric/compilation'],
      [{'name': 'jit_compile_func', 'where': 'beluga/numeric/compilation/jit.py'}],
      na='Code generation is a pure function of expression and arguments; deciding it is differential evaluation over '
         'inputs, in which simulation and fault injection have nothing to vary.'),
    P('C32', 'Mapping a solution to boundary value form and back is the identity',
      'For every problem and trajectory, mapping to the boundary value problem\'s form and back returns the trajectory.',
      ['programs', 'inputs'], 'every problem and trajectory', 'Tests map a few trajectories.',
      ['beluga/symbolic/data_classes/mapping_functions.py', 'beluga/numeric/data_classes/trajectory_mappers.py'],
      [{'name': 'SolMapper.map / inv_map', 'where': 'beluga/numeric/data_classes/trajectory_mappers.py'}],
      na='A pure function of its arguments. What depends on histories (that results are mapped exactly once, whatever '
         'happened before) is claimed in C06 and C07.'),
    P('C33', 'Path constraints are regularised faithfully',
      'A trajectory of the regularised problem satisfies the path constraints of the original one within the activator '
      'tolerance, for every constraint and method.',
      ['programs', 'inputs'], 'every constraint', 'Tests solve two examples.',
      ['beluga/symbolic/data_classes/mapping_functions.py'],
      [{'name': 'EpsTrig, UTM, RASHS', 'where': 'beluga/symbolic/data_classes/mapping_functions.py'}],
      na='A pure symbolic transformation; no concurrency, time, I/O or failure is involved.'),
    P('C34', 'Ill-formed problem definitions are rejected',
      'A problem definition with missing, duplicate or inconsistent parts is rejected with an error before solving.',
      ['programs'], 'every problem definition', 'Tests try a few mistakes.',
      ['beluga/symbolic/data_classes/symbolic_problem.py'],
      [{'name': 'Problem', 'where': 'beluga/symbolic/data_classes/symbolic_problem.py'}],
      na='Validation is a pure function of the definition; there is nothing for a scheduler or fault injector to drive.'),
    P('C35', 'Propagation and interpolation are as accurate as asked for',
      'Propagating an initial state gives the flow of the equations of motion within the tolerances asked for, and '
      'evaluating a trajectory at any time interpolates its nodes.',
      ['inputs'], 'every system, interval and tolerance', 'Tests propagate a few linear systems.',
      ['beluga/numeric/ivp_solvers/ivpsol.py', 'beluga/numeric/data_classes/Trajectory.py'],
      [{'name': 'Propagator.__call__', 'where': 'beluga/numeric/ivp_solvers/ivpsol.py'}],
      na='Numerical accuracy of a pure function; faults and schedules do not enter. Accuracy of trajectories reported as '
         'converged is covered by C13.'),
]

CLAIMED = sys.argv[1:] or None


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            anchors = {'files': p['files'], 'mechanism': p['mechanism']}
            if p['observe']:
                anchors['observe_at'] = p['observe']
            if p['state']:
                anchors['state'] = p['state']
            anchors['hook_needed'] = None
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                'anchors': anchors}) + '\n')
            assert len(p['title']) <= 80, p['title']
    have = {p['id'] for p in PROPS if os.path.exists(os.path.join(VERIF, 'props', p['id'] + '.py'))}
    man = {'version': 1, 'setup_cmd': PY + ' tools/setup.py', 'checks': [], 'not_applicable': []}
    for p in PROPS:
        if p['na'] is None and p['id'] in have:
            man['checks'].append({
                'property': p['id'], 'quick_cmd': '%s check.py %s --tier quick' % (PY, p['id']),
                'thorough_cmd': '%s check.py %s --tier thorough' % (PY, p['id']),
                'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': p['level'],
                'level_note': p['note']})
        else:
            man['not_applicable'].append({'property': p['id'], 'reason': p['na'] or 'check under construction'})
    man['notes'] = ('No hooks in /repo: every seam used exists already (solver, map and pool arguments, time.time, '
                    'pathos pools, the file system below open/os.*, sys.settrace). The /repo commits are "fix:" commits.')
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
