"""Solvers are deterministic, isolated from each other and restartable."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from pbt import bench, feref, gen
from pbt.runner import Check, close, require

check = Check(
    "C23",
    rule="A case is a solver (any scheme of finite volumes or elements, shallow water or scalar) with its data, and other"
    " solvers or further initial data of the same setting. Non-trivial: the solution changes and takes at least two"
    " steps.",
    assumptions=["reinitialising uses a benchmark with the same domain, boundary, bottom, gravity and times"],
)

SWE = [
    "llf", "lw", "low-order", "central", "es", "es1", "reduced-llf", "reduced-llf-2", "mcl", "mcl:es", "mcl:es1",
    "mcl:low-order", "mcl:llf", "mcl:reduced-llf", "antidiffusion", "antidiffusion:low-order:0.1", "antidiffusion:es:0",
    "coarse:2", "coarse:3:es1", "coarse:2:low-order", "coarse:1:reduced-llf",
]
REFUSALS = ("negative", "finite")


@st.composite
def systems(draw, kinds=("swe", "swe", "scalar", "element")):
    """A solver with its data."""
    kind = draw(st.sampled_from(kinds))
    if kind == "swe":
        scheme = draw(st.sampled_from(SWE))
        boundaries = ("periodic",) if "reduced" in scheme else ("periodic", "outflow", "wall", "inflow")
        case = draw(gen.swe_problem(low=4, boundaries=boundaries, flat=True if scheme == "lw" else None, heights=gen.grid_float(0.25, 4)))
        if scheme.startswith("coarse"):
            degree = int(scheme.split(":")[1])
            case["values"] = case["values"] * degree
            case["bottom"] = case["bottom"] * degree
    elif kind == "scalar":
        scheme = draw(st.sampled_from(list(bench.SCALAR_FV)))
        case = draw(gen.scalar_problem())
    else:
        scheme = draw(st.sampled_from(feref.SCHEMES))
        case = draw(feref.problem())
        case["exact"] = draw(st.booleans())
        case["adaptive"] = draw(st.booleans())
    case["kind"] = kind
    case["scheme"] = scheme
    case["integrator"] = "euler" if scheme == "lw" else draw(st.sampled_from(bench.INTEGRATOR_NAMES))
    case["steps"] = draw(st.integers(1, 6)) + draw(st.sampled_from([0.0, 0.5]))
    case["courant"] = draw(st.sampled_from([0.1, 0.25, 0.4]))
    return case


def duration_and_cfl(case):
    """End time and CFL number for about the requested number of steps."""
    start = case.get("start", 0.0)
    if case["kind"] == "element":
        degree = case["degree"]
        size = case["L"] * degree / len(case["values"])
        speed = 1.0 if case["problem"] == "advection" else max(0.5, float(np.max(np.abs(case["values"]))))
        if case["scheme"] == "cg":
            cfl = case["courant"] / speed / degree**2
            return start + case["steps"] * cfl * size, cfl
        step = feref.space_of(case).optimal_step(case["problem"], np.array(case["values"]))
        step = min(step, size)
        return start + case["steps"] * case["courant"] * step, case["courant"]
    speed = bench.case_speed(case, 1.0)
    speed = max(speed, 0.1)
    cfl = case["courant"] / speed
    return start + case["steps"] * cfl * bench.cell_size(case), cfl


def make_benchmark(case, values=None, end_time=None):
    data = case if values is None else case | {"values": values}
    end_time = duration_and_cfl(case)[0] if end_time is None else end_time
    return feref.make_benchmark(data, end_time) if case["kind"] == "element" else bench.make_benchmark(data, end_time)


def build(case, benchmark, history, **names):
    _, cfl = duration_and_cfl(case)
    if case["kind"] == "element":
        arguments = {"mesh_size": len(case["values"]) // case["degree"], "polynomial_degree": case["degree"]}
        if case["scheme"] == "cg":
            arguments["exact_flux"] = case["exact"]
        else:
            arguments |= {"adaptive": case["adaptive"], "ode_solver_type": bench.INTEGRATORS[case["integrator"]]}
        constructor = feref.SOLVERS[case["scheme"]]
    else:
        arguments = {"mesh_size": len(case["values"])}
        if case["scheme"] != "lw":
            arguments["ode_solver_type"] = bench.INTEGRATORS[case["integrator"]]
        constructor = bench.solver_class(case["problem"], case["scheme"])
    return constructor(benchmark, cfl_number=cfl, save_history=history, **arguments, **names)


def outcome(solver):
    """Everything a run leaves behind, with the reason if it was refused."""
    status = "solved"
    output = io.StringIO()
    with contextlib.redirect_stdout(output):
        try:
            solver.solve(disable=True)
        except ValueError as error:
            if not any(word in str(error) for word in REFUSALS):
                raise
            status = str(error)
    return describe(solver) | {"status": status, "messages": output.getvalue()}


def describe(solver):
    solution = solver.solution
    result = {"time": solution.time, "value": solution.value, "grid": solution.grid}
    if hasattr(solution, "time_history"):
        result["times"] = solution.time_history
        result["values"] = solution.value_history
    return result


def same(actual, expected, message, keys=("status", "messages", "time", "value", "grid", "times", "values")):
    for key in keys:
        if key not in actual or key not in expected:
            continue
        a, b = actual[key], expected[key]
        if isinstance(a, str):
            require(a == b, f"{message}: {key}", actual=a, expected=b)
        else:
            require(np.shape(a) == np.shape(b), f"{message}: number of {key}", actual=np.shape(a), expected=np.shape(b))
            scale = float(np.max(np.abs(b), initial=0.0))
            close(a, b, 1e-11 * scale, f"{message}: {key}")


def interesting(result, initial):
    return result["status"] == "solved" and result["time"] > 0 and not np.array_equal(result["value"], initial)


def tags(case, result):
    return [case["kind"], case["scheme"].split(":")[0], result["status"]]


@st.composite
def isolation_cases(draw):
    case = draw(systems())
    others = draw(st.lists(systems(), min_size=1, max_size=3))
    # often the others are of the same scheme, since they share most
    for other in range(len(others)):
        if draw(st.booleans()):
            twin = draw(systems(kinds=(case["kind"],)))
            if ("reduced" in case["scheme"] or case["scheme"] == "lw") and not bench_compatible(twin):
                continue
            if case["scheme"].startswith("coarse") or twin["scheme"].startswith("coarse") or twin["scheme"] == "lw":
                continue
            twin["scheme"] = case["scheme"]
            if case["scheme"] == "lw":
                twin["integrator"] = "euler"
            others[other] = twin
    return {"main": case, "others": others, "order": draw(st.lists(st.integers(0, 2), min_size=3, max_size=3))}


def bench_compatible(case):
    return case["kind"] != "swe" or (case["bc"] == ["periodic"] and bench.is_flat(case))


@check.facet("repeated and interleaved runs", isolation_cases(), quick=1500, thorough=40000)
def isolation(case):
    main, others, order = case["main"], case["others"], case["order"]
    benchmark = make_benchmark(main)
    solver = build(main, benchmark, history=True)
    initial = solver.solution.value
    expected = outcome(solver)
    same(outcome(build(main, make_benchmark(main), history=True)), expected, "repeated run")
    same(outcome(build(main, benchmark, history=False, name="A name", short="short")), expected, "run without history")

    foreign = [build(o, make_benchmark(o), history=True) for o in others]
    references = [outcome(build(o, make_benchmark(o), history=True)) for o in others]
    solver = build(main, benchmark, history=True)
    twin = build(main, benchmark, history=False)
    after = [build(o, make_benchmark(o), history=True) for o in others]
    for k, place in enumerate(order[: len(others)]):
        if place == 0:
            same(outcome(foreign[k]), references[k], "another solver created before")
        elif place == 1:
            same(outcome(after[k]), references[k], "another solver created after")
    same(outcome(solver), expected, "run between other solvers")
    same(outcome(twin), expected, "second solver of the same benchmark")
    for k, place in enumerate(order[: len(others)]):
        if place != 0:
            same(outcome(foreign[k]), references[k], "another solver solved later")
    return interesting(expected, initial), tags(main, expected)


@st.composite
def reinitialise_cases(draw):
    case = draw(systems())
    n = len(case["values"])
    sequence = []
    for _ in range(draw(st.integers(1, 3))):
        choice = draw(st.integers(0, 3))
        if choice == 0:
            shift = draw(st.integers(0, n - 1))
            values = case["values"][shift:] + case["values"][:shift]
        elif case["kind"] == "swe":
            values = draw(gen.swe_state(n, gen.grid_float(0.25, 4)))
        else:
            values = draw(gen.scalar_values(n))
        sequence.append(values)
    if draw(st.booleans()):
        sequence.append(case["values"])
    return {"main": case, "sequence": sequence, "solve": draw(st.lists(st.booleans(), min_size=5, max_size=5)), "history": draw(st.booleans())}


@check.facet("reinitialisation", reinitialise_cases(), quick=1500, thorough=40000)
def reinitialise(case):
    main = case["main"]
    solver = build(main, make_benchmark(main), history=case["history"])
    if case["solve"][0]:
        outcome(solver)
    nontrivial = False
    for values, solved in zip(case["sequence"], [*case["solve"][1:], True]):
        solver.reinitialize(make_benchmark(main, values))
        fresh = build(main, make_benchmark(main, values), history=case["history"])
        initial = fresh.solution.value
        same(describe(solver), describe(fresh), "state after reinitialising")
        if solved or values is case["sequence"][-1]:
            expected = outcome(fresh)
            same(outcome(solver), expected, "run after reinitialising")
            nontrivial |= interesting(expected, initial)
    return nontrivial, [main["kind"], main["scheme"].split(":")[0], "history" if case["history"] else "no history", f"{len(case['sequence'])} times"]


@st.composite
def history_cases(draw):
    case = draw(systems())
    return {"main": case, "entries": draw(st.lists(st.integers(0, 8), min_size=1, max_size=3, unique=True))}


@check.facet(
    "recorded history", history_cases(), quick=1500, thorough=40000, rule="an entry between the first and last is reproduced"
)
def history(case):
    main = case["main"]
    end_time, _ = duration_and_cfl(main)
    solver = build(main, make_benchmark(main), history=True)
    expected = outcome(solver)
    times, values = expected["times"], expected["values"]
    initial = np.array(main["values"], dtype=float)
    if main["scheme"].startswith("coarse"):
        degree = int(main["scheme"].split(":")[1])
        initial = initial.reshape(len(initial) // degree, degree, -1).mean(axis=1)
    scale = np.max(np.abs(initial), initial=1e-300)
    # a finite element of higher degree interpolates the data at its nodes
    close(values[0], initial, 1e-12 * scale, "first entry of the history is not the projected initial data")
    start = main.get("start", 0.0)
    require(times[0] == start, "first recorded time", actual=times[0], expected=start)
    require(len(times) == len(values), "lengths of the history")
    require(np.all(np.diff(times) > 0), "recorded times do not increase", actual=times)
    require(times[-1] == expected["time"], "last recorded time")
    same({"value": values[-1]}, expected, "last entry of the history")
    if expected["status"] == "solved" and not expected["messages"]:
        require(abs(times[-1] - end_time) <= 1e-11 * max(1.0, abs(end_time)), "last time is not the end time", actual=times[-1], expected=end_time)
    reproduced = 0
    for entry in case["entries"]:
        if not 1 <= entry < len(times) - 1:
            continue
        part = outcome(build(main, make_benchmark(main, end_time=float(times[entry])), history=True))
        require(len(part["times"]) == entry + 1, "number of steps of a shorter run", actual=len(part["times"]), expected=entry + 1)
        # the last step of the shorter run may differ in the last digits
        size = np.max(np.abs(values[: entry + 1]))
        tolerance = 1e-8 if "reduced" not in main["scheme"] else 1e-3
        close(part["times"], times[: entry + 1], 1e-11 * max(1.0, abs(end_time)), "times of a shorter run")
        close(part["values"][:-1], values[:entry], 1e-11 * size, "entries of a shorter run")
        close(part["value"], values[entry], tolerance * size, "last value of a shorter run")
        reproduced += 1
    return reproduced > 0, tags(main, expected)


################################################################################
# larger meshes and longer runs
################################################################################
@st.composite
def large_systems(draw):
    case = draw(systems())
    case = draw(feref.large(st.just(case), 9, 20, 40) if case["kind"] == "element" else gen.large(st.just(case), 31, 120))
    case["steps"] = draw(st.sampled_from([1, 10, 25.5, 60]))
    return case


@st.composite
def large_pairs(draw):
    other = draw(st.one_of(large_systems(), systems()))
    return {"main": draw(large_systems()), "others": [other], "order": [draw(st.integers(0, 2))]}


@check.facet("longer interleaved runs", large_pairs(), quick=100, thorough=3000, rule="larger meshes and up to sixty steps")
def longer_isolation(case):
    return isolation(case)


@st.composite
def large_histories(draw):
    case = draw(large_systems())
    return {"main": case, "entries": draw(st.lists(st.integers(1, 60), min_size=1, max_size=3, unique=True))}


@check.facet("longer histories", large_histories(), quick=100, thorough=3000, rule="larger meshes and up to sixty steps; an inner entry is reproduced")
def longer_history(case):
    return history(case)


@st.composite
def large_reinitialise_cases(draw):
    case = draw(large_systems())
    n = len(case["values"])
    shifts = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=2))
    sequence = [case["values"][s:] + case["values"][:s] for s in shifts]
    return {"main": case, "sequence": sequence, "solve": [draw(st.booleans()) for _ in range(5)], "history": draw(st.booleans())}


@check.facet("longer reinitialised runs", large_reinitialise_cases(), quick=100, thorough=3000, rule="larger meshes and up to sixty steps")
def longer_reinitialise(case):
    return reinitialise(case)


################################################################################
# right hand sides are functions of time and values
################################################################################
@st.composite
def nearby_cases(draw):
    case = draw(systems())
    changes = draw(st.lists(
        st.fixed_dictionaries({
            "time": st.sampled_from([0.0, 0.0, 2.0**-20, 2.0**-34, 0.5]),
            "index": st.integers(0, len(case["values"]) - 1),
            "size": st.sampled_from([0.0, 2.0**-8, 2.0**-16, 2.0**-24, 2.0**-34, -(2.0**-34)]),
            "swap": st.booleans(),
            "in place": st.booleans(),
        }), min_size=2, max_size=5,
    ))
    return {"main": case, "changes": changes}


@check.facet(
    "evaluations of nearby states", nearby_cases(), quick=1000, thorough=30000,
    rule="rates of a sequence of nearly equal states and times, each compared with a solver which evaluates nothing else",
)
def nearby(case):
    main = case["main"]
    benchmark = make_benchmark(main)
    solver = build(main, benchmark, history=False)
    start = main.get("start", 0.0)
    time = start
    u = np.array(fine_values(solver))
    distinct = 0
    # rounding depends on the alignment of arrays in memory
    speed = 1.0 + float(np.max(np.abs(u))) + (bench.case_speed(main, 1.0) if main["kind"] != "element" else 0.0)
    for change in case["changes"]:
        time += change["time"]
        before = u.copy()
        v = u if change["in place"] else u.copy()
        index = change["index"] % len(v)
        v[index] = v[index] * (1 + change["size"])
        if change["swap"]:
            v[index], v[index - 1] = np.copy(v[index - 1]), np.copy(v[index])
        u = v
        distinct += not np.array_equal(before, u)
        try:
            actual = np.array(solver._right_hand_side(time, u))
        except ValueError as error:
            require(any(word in str(error) for word in REFUSALS), "unexpected refusal", error=str(error))
            return False, ["refused"]
        fresh = build(main, make_benchmark(main), history=False)
        expected = np.array(fresh._right_hand_side(time, u.copy()))
        size = main["L"] / len(u)
        scale = float(np.max(np.abs(expected), initial=0.0)) + speed**2 / size
        close(actual, expected, 1e-15 * scale * len(u), "rates depend on former evaluations")
    return distinct >= 2, [main["kind"], main["scheme"].split(":")[0]]


def fine_values(solver):
    solution = solver.solution
    return solution._solution.value if hasattr(solution, "_solution") else solution.value
