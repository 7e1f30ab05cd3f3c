"""Coarsened solvers report block averages of the fine run."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

import core
import defaults
import finite_volume
from checks import c23
from finite_volume.shallow_water import solver as swe_solver
from pbt import bench, gen
from pbt.runner import Check, close, raises, require

check = Check(
    "C29",
    rule="A case is a shallow water problem with a base flux, a coarsening degree and a sequence of runs and"
    " reinitialisations, compared with a run of the base scheme on the fine mesh whose values are averaged over blocks; a"
    " random sequence of updates of a coarse solution compared with a list of fine values; or a mesh which does not fit."
    " Non-trivial: degree and number of coarse cells at least two and a solution which changes in at least two steps.",
    assumptions=["reinitialising uses a benchmark with the same domain, boundary, bottom, gravity and times"],
)

FLUXES = [None, "llf", "low-order", "central", "es", "es1", "reduced-llf", "reduced-llf-2"]
BASE = {None: "llf"}


@st.composite
def coarse_cases(draw):
    flux = draw(st.sampled_from(FLUXES))
    degree = draw(st.sampled_from([2, 3, 1, 4, 5, 8]))
    number = draw(st.sampled_from([2, 3, 1, 4, 5, 6, 8]))
    reduced = flux is not None and flux.startswith("reduced")
    if degree * number < 2:
        number = 2
    while reduced and degree * number < 4:
        number += 1
    n = degree * number
    boundaries = ("periodic",) if reduced else ("periodic", "outflow", "wall", "inflow")
    case = draw(gen.swe_problem(low=n, high=n, large=n, boundaries=boundaries, heights=gen.grid_float(0.25, 4)))
    case |= {"kind": "swe", "flux": flux, "scheme": flux or "llf", "degree": degree, "number": number}
    case["default degree"] = degree == defaults.COARSENING_DEGREE and draw(st.booleans())
    case["integrator"] = draw(st.sampled_from(bench.INTEGRATOR_NAMES))
    case["steps"] = draw(st.integers(1, 8)) + draw(st.sampled_from([0.0, 0.5]))
    case["courant"] = draw(st.sampled_from([0.1, 0.25, 0.4]))
    case["history"] = draw(st.sampled_from([True, True, False]))
    case["reuse"] = draw(st.booleans())
    sequence = []
    for _ in range(draw(st.integers(0, 2))):
        values = draw(st.one_of(st.none(), gen.swe_state(n, gen.grid_float(0.25, 4))))
        sequence.append({"values": values or case["values"], "solve": draw(st.booleans())})
    case["sequence"] = sequence
    case["first"] = draw(st.booleans()) if sequence else True
    return case


def make_coarse(case, benchmark, history):
    arguments = {"mesh_size": len(case["values"])}
    if case["flux"]:
        arguments["flux_getter"] = swe_solver.SHALLOW_WATER_FLUX_GETTER[case["flux"]]
    if not case["default degree"]:
        arguments["coarsening_degree"] = case["degree"]
    return swe_solver.CoarseSolver(
        benchmark, cfl_number=c23.duration_and_cfl(case)[1], save_history=history,
        ode_solver_type=bench.INTEGRATORS[case["integrator"]], **arguments,
    )


def blocks(values, degree, axis=0):
    values = np.asarray(values)
    shape = values.shape[:axis] + (values.shape[axis] // degree, degree) + values.shape[axis + 1 :]
    return values.reshape(shape).sum(axis=axis + 1) / degree


def compare(case, solver, fine, label):
    """The view of the coarse solver and the described fine run."""
    solution = solver.solution
    degree, number = case["degree"], case["number"]
    scale = float(np.max(np.abs(fine["values"])))
    # networks react to the last digits
    close(solution.time, fine["time"], 1e-13 * (1 + abs(fine["time"])), f"{label}: time")
    close(solution.value, blocks(fine["value"], degree), 1e-12 * scale, f"{label}: value")
    require(solution.dimension == (number, 2), f"{label}: dimension", actual=solution.dimension)
    mesh = solution.space.mesh
    require(len(mesh) == number, f"{label}: cells of the coarse mesh", actual=len(mesh), expected=number)
    size = abs(case["a"]) + case["L"]
    a, step = case["a"], case["L"] / number
    close(solution.grid, a + step * (np.arange(number) + 0.5), 1e-13 * size, f"{label}: coarse grid")
    close([mesh.domain.a, mesh.domain.b], [a, a + case["L"]], 1e-13 * size, f"{label}: domain")
    close(mesh.step_length, step, 1e-13 * size, f"{label}: coarse step length")
    if case["history"]:
        times, values = solution.time_history, solution.value_history
        require(len(times) == len(fine["times"]), f"{label}: number of times", actual=len(times), expected=len(fine["times"]))
        close(times, fine["times"], 1e-13 * (1 + np.max(np.abs(fine["times"]))), f"{label}: times")
        close(solution.time_step_history, np.diff(fine["times"]), 1e-13 * (1 + np.max(np.abs(fine["times"]))), f"{label}: time steps")
        require(np.shape(values) == (len(times), number, 2), f"{label}: shape of the values", actual=np.shape(values))
        close(values, blocks(fine["values"], degree, axis=1), 1e-12 * scale, f"{label}: recorded values")
        values += 1.0
        times += 1.0
        close(solution.value_history, values - 1.0, 1e-12 * (scale + 1), f"{label}: recorded values can be modified from outside")
    value = solution.value
    value += 1.0
    close(solution.value, blocks(fine["value"], degree), 1e-12 * scale, f"{label}: value can be modified from outside")


@check.facet("runs", coarse_cases(), quick=2500, thorough=60000)
def runs(case):
    benchmark = c23.make_benchmark(case)
    solver = make_coarse(case, benchmark, case["history"])
    kept = bench.make_benchmark(case, c23.duration_and_cfl(case)[0])
    nontrivial, status = False, "solved"
    stages = [{"values": case["values"], "solve": case["first"]}, *case["sequence"]]
    for position, stage in enumerate(stages):
        data = case | {"values": stage["values"]}
        end_time = c23.duration_and_cfl(case)[0]
        fine_benchmark = bench.make_benchmark(data, end_time)
        # the settings belong to the first data
        fine = bench.build(
            data, case["scheme"], None, case["integrator"], cfl=c23.duration_and_cfl(case)[1], history=True, benchmark=fine_benchmark
        )
        if position:
            solver.reinitialize(fine_benchmark if case["reuse"] else bench.make_benchmark(data, end_time))
        compare(case, solver, c23.describe(fine), "initial state" if position == 0 else "state after reinitialising")
        if stage["solve"] or position == len(stages) - 1:
            initial = fine.solution.value
            expected = c23.outcome(fine)
            output = io.StringIO()
            with contextlib.redirect_stdout(output):
                try:
                    solver.solve(disable=True)
                    status = "solved"
                except ValueError as error:
                    status = str(error)
            require(status == expected["status"], "end of the run", actual=status, expected=expected["status"])
            require(output.getvalue() == expected["messages"], "messages", actual=output.getvalue(), expected=expected["messages"])
            compare(case, solver, expected, "solved" if position == 0 else "solved after reinitialising")
            nontrivial |= len(expected["times"]) > 2 and not np.array_equal(initial, expected["value"]) and status == "solved"
    return nontrivial and case["degree"] > 1 and case["number"] > 1, [
        case["flux"] or "default", f"degree={case['degree']}", "history" if case["history"] else "no history",
        f"reinitialised {len(case['sequence'])} times", "solved" if status == "solved" else "refused",
    ] + (["default degree"] if case["default degree"] else [])


@st.composite
def solution_cases(draw):
    degree = draw(st.integers(1, 5))
    number = draw(st.integers(1, 5))
    operation = st.one_of(
        *[st.tuples(st.just("update"), st.integers(1, 32), st.integers(0, 2**31))] * 4,
        st.tuples(st.just("set"), st.integers(-8, 64), st.integers(0, 2**31)),
        st.tuples(st.just("invalid"), st.integers(0, 2), st.integers(0, 2**31)),
    )
    return {
        **draw(gen.domain()),
        "degree": degree,
        "number": number,
        "components": draw(st.sampled_from([0, 1, 2, 3])),
        "history": draw(st.sampled_from([True, True, False])),
        "start": draw(st.integers(-16, 16)) / 16,
        "seed": draw(st.integers(0, 2**31)),
        "operations": [list(o) for o in draw(st.lists(operation, min_size=3, max_size=14))],
    }


@check.facet("coarse solutions", solution_cases(), quick=2500, thorough=60000, rule="two updates and a value set afterwards")
def solutions(case):
    degree, number = case["degree"], case["number"]
    shape = (degree * number,) + ((case["components"],) if case["components"] else ())
    make = lambda seed: np.random.default_rng(seed).integers(-512, 512, shape) / 64
    space = finite_volume.FiniteVolumeSpace(core.UniformMesh(core.Interval(case["a"], case["a"] + case["L"]), degree * number))
    initial = make(case["seed"])
    fine = core.DiscreteSolution(initial, initial_time=case["start"], space=space)
    solution = (core.CoarseSolutionWithHistory if case["history"] else core.CoarseSolution)(fine, degree)
    times, values = [case["start"]], [initial]
    kinds = []

    def verify():
        require(solution.time == times[-1], "time", actual=solution.time, expected=times[-1])
        close(solution.value, blocks(values[-1], degree), 1e-13 * 8, "value")
        expected = number if not case["components"] else (number, case["components"])
        require(solution.dimension == expected, "dimension", actual=solution.dimension, expected=expected)
        close(solution.grid, case["a"] + case["L"] / number * (np.arange(number) + 0.5), 1e-13 * (abs(case["a"]) + case["L"]), "grid")
        if case["history"]:
            close(solution.time_history, times, 0, "recorded times")
            close(solution.value_history, [blocks(v, degree) for v in values], 1e-13 * 8, "recorded values")

    verify()
    for kind, number_or_time, seed in case["operations"]:
        value = make(seed)
        original = value.copy()
        if kind == "update":
            solution.update(number_or_time / 16, value)
            times.append(times[-1] + number_or_time / 16)
            values.append(original)
        elif kind == "set":
            time = case["start"] + number_or_time / 16
            solution.set_value(value, time)
            kept = sum(t < time for t in times) if case["history"] else 0
            times, values = times[:kept] + [time], values[:kept] + [original]
        else:
            value.flat[seed % value.size] = [np.nan, np.inf, -np.inf][number_or_time]
            raises(ValueError, lambda: solution.update(0.5, value), "values which are not finite")
        require(kind == "invalid" or np.array_equal(value, original), "an operation modifies its argument")
        # changing the given array afterwards has no effect
        value.flat[0] = -77.0
        verify()
        kinds.append(kind)
    good = [k for k in kinds if k != "invalid"]
    nontrivial = degree > 1 and "set" in good and good[: good.index("set")].count("update") >= 2
    return nontrivial, [f"components={case['components']}", "history" if case["history"] else "no history"] + sorted(set(kinds))


@st.composite
def unfit(draw):
    case = draw(coarse_cases())
    case["degree"] = draw(st.integers(2, 9))
    n = case["degree"] * draw(st.integers(0, 3)) + draw(st.integers(1, case["degree"] - 1))
    minimum = 4 if case["scheme"].startswith("reduced") else 2
    while n < minimum or n % case["degree"] == 0:
        n += 1
    values = case["values"]
    case["values"] = [values[i % len(values)] for i in range(n)]
    case["bottom"] = [0.0] * n
    case["default degree"] = False
    return case


@check.facet("meshes which do not fit", unfit(), quick=600, thorough=12000, rule="the mesh is finer than the degree")
def refuses(case):
    benchmark = c23.make_benchmark(case)

    def attempt():
        solver = make_coarse(case, benchmark, case["history"])
        with contextlib.redirect_stdout(io.StringIO()):
            solver.solve(disable=True)
        return solver.solution.value

    raises((ValueError, AssertionError), attempt, "a mesh which is not divisible by the degree is accepted")
    space = finite_volume.FiniteVolumeSpace(core.UniformMesh(core.Interval(0, 1), len(case["values"])))
    raises((ValueError, AssertionError), lambda: space.coarsen(case["degree"]), "a space which is not divisible is coarsened")
    fine = core.DiscreteSolution(np.array(case["values"]), space=space)
    raises((ValueError, AssertionError), lambda: core.CoarseSolution(fine, case["degree"]).value, "value of a solution which is not divisible")
    raises((ValueError, AssertionError), lambda: core.CoarseSolution(fine, case["degree"]).grid, "grid of a solution which is not divisible")
    return len(case["values"]) > case["degree"], ["history" if case["history"] else "no history"]
