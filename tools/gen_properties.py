#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the statements live here so that they can be edited as text)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe),
            hook_needed=hook,
        ),
    ))


CORE = "nbkode/core.py"
BUF = "nbkode/buffer.py"
EV = "nbkode/event_handler.py"
MSC = "nbkode/multistep/core.py"
AB = "nbkode/multistep/adams_bashforth.py"
AM = "nbkode/multistep/adams_moulton.py"
BDF = "nbkode/multistep/bdf.py"
RKC = "nbkode/runge_kutta/core.py"
ERK = "nbkode/runge_kutta/explicit.py"
DOP = "nbkode/runge_kutta/dop853_coefficients.py"
Z = "nbkode/nbcompat/zeros.py"
CM = "nbkode/nbcompat/common.py"
NB = "nbkode/nbcompat/nb_to_import.py"
UT = "nbkode/util.py"
INIT = "nbkode/__init__.py"

prop("C01", "Every step follows the published formula of the named method",
     "Each step a solver takes, for any right-hand side (autonomous or not, linear or not, any number of equations), any current state and any step size, yields the state given by the published formula of the method the solver is named after: the Runge-Kutta tableau, or the linear multistep formula applied to the most recent equally spaced states and derivatives, newest coefficient on the newest value. This holds at the first step, while the history fills up and arbitrarily later; implicit formulas are satisfied to within the root finder's tolerance.",
     ["inputs", "histories", "configurations"],
     "all 26 solvers x all right-hand sides x start times x step sizes x dimensions x step numbers",
     "Tests integrate exponential decay only, with a 10-15% tolerance for three multistep solvers; a reversed or mistyped coefficient row stays consistent and passes.",
     [AB, AM, BDF, MSC, ERK, RKC, DOP, "nbkode/euler.py"],
     [("tableaus and coefficient rows", AB + " A,B; " + AM + "; " + BDF + "; " + ERK + " A,B,C"),
      ("fixed step builders", MSC + " _fixed_step_builder; " + ERK + " _fixed_step_builder")],
     [("history", "last k times, states, derivatives, oldest first", BUF)],
     ["solver.step()", "solver.t", "solver.y"])

prop("C02", "Each solver has the order of accuracy of its method",
     "A step reproduces the Taylor expansion of the exact solution up to the order of the method (as published: e.g. 4 for RungeKutta4, 8 for DOP853, k for AdamsBashforthk, AdamsMoultonk and BDFk), for every smooth right-hand side, at every start time and step size. In particular, given exact starting values, problems whose solution is a polynomial of at most that degree are integrated exactly up to rounding and root-finder tolerance.",
     ["inputs", "configurations"],
     "all smooth right-hand sides, reduced to the finite basis of elementary differentials (rooted trees) / monomials, x start times x step sizes",
     "No test measures an order; comparison with SciPy covers three solvers on one linear autonomous decay.",
     [AB, AM, BDF, MSC, ERK, DOP],
     [("order conditions of the coefficient tables", AB + "; " + AM + "; " + BDF + "; " + ERK + "; " + DOP)],
     (), ["solver.step()"])

prop("C03", "Multistep solvers start from a correct, equally spaced history",
     "A k-step solver built at any start time t0 with any step h and any starting method begins at t0+(k-1)h with the starting method's own solution at t0, t0+h, ..., t0+(k-1)h as its history; with starting disabled (or k=1) it begins exactly at (t0, y0). Shifting the start time shifts everything with it, and a start-up that does not fit before the time bound is refused with ValueError.",
     ["inputs", "configurations"],
     "all multistep solvers x start times (zero, positive, negative, fractional) x step sizes x every starting solver (fixed and variable step, one-step and multistep, by name and by class) x dimensions x bounds",
     "Tests only build at t0=0 with h=0.01 and check the final time for three solvers, never the states, another start time, or a multistep starter.",
     [MSC, CORE], [("start-up in the constructor", MSC + " Multistep.__init__")],
     [("history", "must hold k equally spaced points", BUF)],
     ["solver.t", "solver.y", "solver.interpolate", "solver.step"])

prop("C04", "Current time, state and derivative always agree",
     "At every moment a caller can observe a solver, the current time is a finite float, the state and derivative are float vectors of the problem's size, and the derivative equals the right-hand side evaluated at exactly the current time and state. Every completed step moves time strictly forward: by the constant step size in fixed-step solvers (t0, t0+h, t0+2h, ...), by a positive amount in variable-step solvers.",
     ["histories", "inputs", "configurations"],
     "all solvers x all sequences of public calls x problems, including time-dependent ones, and steps that were rejected and retried",
     "Tests look at the derivative only for three solvers on an autonomous decay, where a derivative taken at the wrong time is invisible.",
     [CORE, BUF, MSC, RKC, ERK],
     [("push of (t, y, f) after each accepted step", MSC + " _step_builder; " + RKC + " _step_builder; " + ERK + " FSAL._step_builder")],
     [("t, y, f", "newest history entries", BUF)],
     ["solver.t", "solver.y", "solver.f"])

prop("C05", "The trajectory does not depend on how the integration is chopped up",
     "A solver's sequence of internal steps depends only on the problem and its options: any mix of stepping, skipping, running to times, running with non-terminal events and interpolating visits the same times and states, in the same order, as single-stepping does. Splitting one call into several, or replacing one kind of call by another, changes neither the steps taken nor the values reported.",
     ["histories"],
     "all finite sequences of public calls (step/skip with n, upto_t, both, neither; run; run_events; interpolate; rejected calls) x all solvers",
     "One fixed call sequence is tested, on one problem; state carried wrongly between calls shows only in particular sequences.",
     [CORE, BUF, ERK, EV],
     [("shared step function and history used by all entry points", CORE + " _steps,_nsteps,_skip,_nskip,_run_eval,_run_eval_events")],
     [("history, step size, stage storage", "all state carried between calls", BUF + "; " + RKC)],
     ["solver.step", "solver.skip", "solver.run", "solver.run_events", "solver.interpolate"])

prop("C06", "step and skip stop exactly where documented and report every step",
     "step(n) performs exactly n steps and returns each of their times and states in order; step(upto_t) performs every step whose end time does not exceed upto_t and no more (for variable-step solvers a step counts as fitting when its proposed size does); with both, whichever limit comes first applies; with neither, exactly one step is taken. A limit already behind the current time does nothing and returns empty results, and skip leaves the solver exactly where the same step call would, without output.",
     ["histories", "inputs"],
     "all combinations of n (0, 1, many) and upto_t (behind, at, between, exactly on a step end, far ahead) from every reachable solver position, for every solver",
     "The tests use one sequence of limits, chosen halfway between steps; exact hits, zero counts, limits at or behind the current time are not covered.",
     [CORE], [("step / skip dispatch and loops", CORE + " Solver.step, Solver.skip, _steps, _nsteps, _skip, _nskip")],
     (), ["solver.step", "solver.skip"])

prop("C07", "Integration never passes the time bound, and says so",
     "No call ever moves a solver beyond its time bound, returns a time beyond it or, once the solver is built, evaluates the right-hand side beyond it, and every step that fits is still allowed, including one ending exactly on the bound. Asking for a time beyond the bound raises ValueError and leaves the solver unchanged; asking for steps (including the default single step or skip) that would pass the bound raises RuntimeError after taking the ones that fit; running to times returns exactly the leading requested times that can be reached, and variable-step solvers can reach the bound itself.",
     ["histories", "inputs", "configurations"],
     "all solvers x bounds (below the first step, on a step, between steps, far away) x all call sequences around the bound",
     "The tests try six calls with one bound on the first step and never run, events or single steps at the bound.",
     [CORE, MSC], [("bound test before each step, time validation", CORE + " _step wrapper, _check_time")],
     (), ["solver.step", "solver.skip", "solver.run", "solver.run_events", "solver.t"])

prop("C08", "run returns the solution at exactly the requested times, in request order",
     "run(t) returns one row per requested time, in the order requested, for scalars and for arrays in any order with repetitions; the value in each row depends only on its time, not on the order, the repetitions, the other requested times, or how requests are spread over successive calls. Times still within the recorded history are answered from it, earlier ones raise ValueError, and the solver only advances as far as needed to cover the largest requested time.",
     ["inputs", "histories"],
     "all multisets and orders of requested times (before, on, between and beyond recorded steps) x all splittings over calls x all solvers",
     "Tests use one ascending and one descending grid; repeated values, partial overlap with history, and mixes across calls are not covered.",
     [CORE, ERK], [("sorting, history lookup and evaluation loop", CORE + " run_events, _run_eval")],
     [("history", "recorded steps from which past times are answered", BUF)],
     ["solver.run", "solver.run_events"])

prop("C09", "Dense output agrees with the steps and never extrapolates",
     "The interpolated solution equals the recorded states at the recorded step times, lies between steps on the interpolant of the method (cubic Hermite for fixed-step methods, the dense output of SciPy's RK23, RK45 and DOP853 for theirs), and is therefore exact for solutions that are polynomials of degree 3 (4 for RungeKutta45, 7 for DOP853). It always refers to the steps around the requested time, whatever was interpolated before, and a time outside the recorded history raises ValueError.",
     ["inputs", "histories"],
     "all solvers x all orders of interpolation queries interleaved with steps (including rejected ones) x query positions x start times",
     "Only RungeKutta45 and DOP853 are compared with SciPy, on ascending queries of one decay; the interpolator's lazily refreshed state is not exercised.",
     [CORE, ERK, DOP], [("interpolants and their refresh", CORE + " _interpolate; " + ERK + " RkInterpolator, DOP853Interpolator")],
     [("interpolator coefficients", "refreshed lazily from the stages of the last step", ERK)],
     ["solver.interpolate", "solver.run"])

prop("C10", "Adaptive steps meet the tolerances and the step-size limits, or fail loudly",
     "A variable-step solver accepts a step only if the scaled embedded error estimate of that step (scale atol + rtol*max(|y before|, |y after|), root mean square over components) is below one; rejected attempts never change the visible state. Step sizes never exceed max_step nor go below min_step, change by at most the factors min_factor and max_factor from one attempt to the next, and start from first_step when given (from SciPy's initial step selection otherwise), following the standard controller safety*error^(-1/(q+1)); if no acceptable step exists the solver raises RuntimeError instead of looping forever.",
     ["inputs", "configurations", "histories"],
     "all right-hand sides (every pattern of accepted and rejected attempts, zero error, NaN, blow-up) x atol/rtol/min_step/max_step/factors/first_step x the three adaptive solvers",
     "Tests never trigger a rejection, use default options only, and nothing exercises max_step, zero error or failure.",
     [RKC, ERK, CORE], [("error norm, controller and retry loop", RKC + " _scaled_error_norm, _step_update; " + ERK + " _step_builder; " + CORE + " VariableStep")],
     [("step size h", "proposal for the next attempt, updated in place", RKC)],
     ["solver.step", "solver.t", "solver.y", "solver.h"])

prop("C11", "Events: every crossing is reported once, in its step, in order",
     "While running with events, each step over which an event function changes sign (or reaches zero) in the requested direction yields exactly one reported time and state for that event, inside that step, on the interpolated solution, at an accurate zero whatever the magnitude of the function; no other times are reported, and each event's list is in increasing time. A zero exactly where a call starts may be reported by both calls that touch it; otherwise reports of one event do not depend on the other events, on the requested output times, or on how the run is split over calls.",
     ["inputs", "histories", "configurations"],
     "all sign patterns of event functions at the step ends (negative, zero, positive) x direction x number of events x requested times x splittings over calls x solvers",
     "No existing test calls run_events at all.",
     [EV, CORE, Z], [("per-step sign test, root search, duplicate suppression", EV + " Event.evaluate; " + Z + " bisect"), ("handler construction", EV + " build_handler")],
     [("last event value and time", "sign at the previous step end", EV)],
     ["solver.run_events"])

prop("C12", "Terminal events stop the run at the earliest one, losing no requested point",
     "If terminal events occur, the run ends at the earliest of them in time, whatever the order in which events are listed: every requested time up to it is returned with its solution, later ones are not, the event's time and state are appended when requested times were cut off, and no event later than it is reported. Without a terminal event, output and steps are exactly those of the same run without events; this holds for unsorted requests too and for requests that include past times.",
     ["inputs", "histories", "configurations"],
     "all sets of terminal/non-terminal events with crossings in the same or different steps x list orders x requested times (several per step, none per step, unsorted, past) x solvers",
     "No existing test calls run_events at all.",
     [EV, CORE], [("termination and output truncation", EV + " EventHandler.evaluate; " + CORE + " _run_eval_events, run_events")],
     [("terminating event", "time and state that end the run", EV)],
     ["solver.run_events"])

prop("C13", "Results are snapshots and inputs are left alone",
     "Arrays and lists returned by step, run, run_events and interpolate never change afterwards, whatever the solver does next, and writing into them does not affect the solver. The arrays passed in (initial state, parameters, requested times) are never modified, and modifying them after the call has no effect on the solver.",
     ["histories", "inputs"],
     "all returned objects x all later call sequences; all argument arrays x all calls, for all solvers",
     "Tests compare results immediately, before a later call can overwrite a shared buffer.",
     [CORE, BUF, ERK, EV], [("copies of buffer rows handed to the caller", CORE + " step, interpolate, _interpolate; " + EV + " Event.evaluate; " + ERK + " evaluate")],
     [("history buffer", "overwritten in place by each step", BUF)],
     ["solver.step", "solver.run", "solver.run_events", "solver.interpolate"])

prop("C14", "Solver instances do not influence each other",
     "Using several solvers in one process, of the same or of different classes, sharing or not the right-hand side, events and argument arrays, in any interleaving of construction and calls, gives each of them exactly the results it gives when used alone.",
     ["schedules", "histories"],
     "all interleavings of the call sequences of two (and three) solver instances x pairs of solver classes",
     "Tests use one solver at a time; class-level or module-level storage would go unnoticed.",
     [CORE, RKC, ERK, MSC, EV], [("per-instance storage", CORE + " __init__; " + RKC + " __init__; " + ERK + " interpolators")],
     [("stage storage, options, step size, history", "must be per instance", RKC)],
     ["all public calls"])

prop("C15", "A failing right-hand side or event leaves the solver at its last completed step",
     "If the right-hand side or an event function raises at any of its evaluations, the exception reaches the caller and the solver still shows a completed step: time, state and derivative agree and lie on the undisturbed trajectory. When the function works again, the solver can be used on: fixed-step solvers continue on exactly the undisturbed trajectory, variable-step ones on a valid one, and recorded history can still be interpolated.",
     ["fault_sequences", "histories"],
     "every evaluation index at which the user function may raise x all public calls x all solvers, single and repeated faults",
     "No test injects a failure.",
     [CORE, BUF, MSC, ERK, RKC], [("state written only after the step is complete", MSC + " _step; " + ERK + " _step; " + BUF + " push")],
     [("history", "pushed as a whole at the end of a step", BUF)],
     ["solver.t", "solver.y", "solver.f", "solver.step", "solver.interpolate"])

prop("C16", "Root finders return a root or say they did not",
     "The scalar/array Newton-secant-Halley finder returns what SciPy's optimize.newton returns (root, convergence data, type of errors and warnings) for the same call as long as the iterates stay finite, and its compiled variant returns the same root or raises. The vector Newton finder returns a point whose residual norm is within tolerance or raises (RuntimeError, LinAlgError for a singular Jacobian); bisection returns a point inside the bracket that is within tolerance of a sign change or of zero function value, and refuses invalid brackets with ValueError.",
     ["inputs", "configurations"],
     "all combinations of functions (linear, polynomial, flat, steep, no root, zero derivative), starting points, derivatives, tolerances, iteration limits",
     "Tests sample a few functions and starting points, never bisection, non-convergence of the vector finder, or reversed brackets.",
     [Z, CM], [("iteration and stopping tests", Z + " _newton, newton_hd_impl, bisect; " + CM + " isclose, clip")],
     (), ["nbkode.nbcompat.zeros.newton", "j_newton", "newton_hd", "bisect"])

prop("C17", "The solver catalogue is truthful and complete",
     "Filtering the catalogue by group names (any case, any subset), implicit, fixed_step, runge_kutta and multistep returns exactly the solvers with those characteristics, each once: solvers listed as implicit are those whose formula uses the derivative at the new time, fixed-step ones those that keep their step. Every solver is reachable by name in any letter case, by alias, as a package attribute and through its group, and unknown names and groups raise ValueError/AttributeError and KeyError. Solvers defined by users join the catalogue in the same way; a definition that is not acceptable (a name or alias that is taken, ignoring case; a history length that is not an integer above 1; tables or step functions that do not fit its base) is refused and leaves the catalogue as it was.",
     ["configurations", "inputs"],
     "all subsets of groups x all filter values x all names in several letter cases",
     "The tests check that the filter agrees with the solver's own flag, not that the flag is true; combinations of filters and groups are not covered.",
     [CORE, INIT, MSC, ERK, UT], [("registration and filters", CORE + " __init_subclass__, check, get_solvers, get_solver"), ("IMPLICIT / FIXED_STEP flags", MSC + "; " + ERK)],
     [("SOLVERS, SOLVERS_BY_GROUP", "registries", CORE)],
     ["nbkode.get_solvers", "nbkode.get_solver", "nbkode.get_groups", "nbkode.list_solvers", "dir(nbkode)"])

prop("C18", "The case-insensitive mapping behaves like a dictionary",
     "After any sequence of insertions, overwrites, deletions, updates and copies, the case-insensitive mapping holds exactly the entries an ordinary dictionary keyed by lower-cased names would, with lookups and membership ignoring case and iteration giving the last-set spelling in insertion order. Copies are independent of the original and equality ignores case.",
     ["histories"],
     "all operation sequences up to a depth over keys that differ only by case and keys that differ",
     "Tests use a single key and no sequence longer than one operation.",
     [UT], [("lower-cased store", UT + " CaseInsensitiveDict")],
     [("store", "lower-cased key -> (spelling, value)", UT)],
     ["CaseInsensitiveDict"])

prop("C19", "Parameters and initial values mean the same in every accepted form",
     "Solving with params=p and a right-hand side f(t, y, p) gives the results of solving with the parameters written into the right-hand side, for scalar, list, tuple and array parameters of any length and number type. Initial times and states given as integers, floats, lists, tuples or arrays of any number type, contiguous or not, give identical results, as do right-hand sides given plain or already compiled.",
     ["inputs", "configurations"],
     "all solvers x forms of params, y0, t0, rhs and h",
     "Tests pass params only as a float tuple and y0 only as a float array.",
     [CORE], [("argument normalisation", CORE + " Solver.__init__")],
     (), ["constructor", "solver.step", "solver.run"])

prop("C20", "Compiled and uncompiled modes give the same results",
     "With compilation switched off by the NBKODE_NONUMBA environment variable, every solver, call and event produces the same times, states, events and errors as in the default compiled mode, up to rounding.",
     ["configurations", "histories"],
     "all solvers x a set of call histories covering every public call, in both modes",
     "The test suite runs in compiled mode only.",
     [NB, "nbkode/nbcompat/numbasub.py", EV, ERK, BUF], [("import switch", NB), ("typed containers and compiled classes", EV + "; " + ERK + "; " + BUF)],
     (), ["all public calls"])

prop("C21", "Solutions respect time shifts, relabelling, replication and reflection",
     "Shifting the start time (with the right-hand side, bounds, requests and events shifted along), permuting the equations, solving several independent copies of a problem together, or negating all states and the right-hand side accordingly, shifts, permutes, replicates or negates the solution and changes nothing else. This holds for every solver, explicit or implicit, one equation or many.",
     ["inputs", "configurations", "histories"],
     "all solvers x group of transformations (time shifts, permutations, replications, reflections) x problems x call histories",
     "Every test starts at time 0 with one or two positive components of the same decay.",
     [CORE, MSC, RKC, ERK, EV, Z], [("scalar and vector paths of implicit steps", MSC + " ImplicitMultistep"), ("absolute times in stages, start-up and interpolation", MSC + "; " + ERK + "; " + CORE)],
     (), ["solver.step", "solver.run", "solver.run_events"])

prop("C22", "Implicit steps solve their equation or raise",
     "Whenever an implicit solver completes a step, the new state satisfies the method's implicit equation at the new time to within the root-finding tolerance, for stiff, nonlinear, time-dependent, scalar and coupled problems of ordinary or large magnitude; if the equation cannot be solved the step raises and the state is unchanged. On stiff decaying problems the A-stable methods (BackwardEuler/BDF1/AdamsMoulton1, AdamsMoulton2, BDF2) never amplify, whatever the step size.",
     ["inputs", "configurations"],
     "all implicit solvers x linear stiffness from 0 to 1e6 times the step x nonlinear and unsolvable problems x dimensions x magnitudes",
     "Tests integrate one non-stiff decay with very loose tolerance.",
     [MSC, Z], [("implicit equation and its root finder", MSC + " ImplicitMultistep._fixed_step_builder; " + Z + " j_newton, newton_hd, jacobian")],
     (), ["solver.step", "solver.y"])

prop("C23", "A method given only by its coefficients integrates with them",
     "A user can define a method by deriving from the library's bases (explicit Runge-Kutta, embedded pair, pair that reuses its last stage, explicit or implicit multistep) and giving only its coefficient tables (and the order of the error estimate, and optionally a longer history, over which it can then be interpolated). For every floating-point table of consistent shape the new solver follows the textbook scheme of that table at every step: stages, weights, error estimate and step sizes, history and its start-up, implicit equation; step, skip, run and a time bound agree with each other as for any built-in solver; and the catalogue lists it as what its tables say it is.",
     ["inputs", "configurations", "histories"],
     "all coefficient tables over small grids (1-4 stages or steps, zero, negative and repeated entries), x base class x options x call histories",
     "Tests only use the built-in tables, which have no zero or redundant entries in most places and never exercise a base class with another table.",
     [RKC, ERK, MSC, CORE], [("step built from tables", ERK + " ERK._fixed_step_builder, FSAL; " + RKC + " AdaptiveRungeKutta; " + MSC)],
     (), ["solver.step", "solver.run", "get_solvers"])

prop("C24", "The methods shared with SciPy reproduce SciPy",
     "RungeKutta23, RungeKutta45 and DOP853 reproduce SciPy's RK23, RK45 and DOP853 given the same right-hand side, initial values, rtol, atol, max_step and first_step: the same automatic first step; from any state and proposed size the same rejections, accepted time, state, derivative, next proposal and dense output (except that after a rejection nbkode lets the next proposal grow again); run and run_events give the values, event times and terminal point of solve_ivp; a max_step that is not positive or a negative atol is refused, and an rtol that is too small is raised with a warning, as SciPy does.",
     ["inputs", "configurations", "histories"],
     "3 methods x problems x dimensions x options x all forcing patterns over 4-5 cells x requested times and events",
     "Tests compare two linear decays with default options and exclude the interpolant of one of the three methods.",
     [CORE, RKC, ERK, EV], [("options, first step", CORE + " VariableStep"), ("error control", RKC + " AdaptiveRungeKutta"), ("stages, error estimate and interpolants", ERK)],
     (), ["solver.step", "solver.run", "solver.run_events", "solver.interpolate", "solver.h"])

prop("C25", "Solutions converge to the exact solution",
     "As the step size of a fixed-step solver is reduced, the values it returns tend to the exact solution of the problem at the order of its method (no faster than its starting values and its interpolation between the steps allow), and the error of a variable-step solver stays proportional to its tolerances. This holds for smooth problems, linear or not, autonomous or not, of one or more equations, from any start time, and for whatever is asked: the states at the steps, values at requested times between them, and the times and states of events.",
     ["inputs", "configurations"],
     "all solvers x problems with closed-form solutions x start times x step sizes or tolerances x step/run/run_events",
     "The tests compare a few solvers with SciPy on one decay at one step size; none looks at how the error falls, at systems, or at the accuracy of event times.",
     [CORE, RKC, MSC, EV], [("step functions", CORE), ("coefficients", RKC + ", " + MSC), ("event times", EV)],
     (), ["solver.step", "solver.run", "solver.run_events"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        fh.write(json.dumps(p) + "\n")
print(len(P), "properties")
