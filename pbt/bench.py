"""Benchmarks with prescribed cell averages and helpers for running solvers."""
import functools

import numpy as np

import core
import core.benchmark
import finite_volume.shallow_water as swe
from benchmark.shallow_water import ShallowWaterBenchmark
from finite_volume.scalar import solver as scalar_solver
from finite_volume.shallow_water import solver as swe_solver


def cell_of(x, a, length, n):
    return min(max(int(np.floor((x - a) / length * n)), 0), n - 1)


def _inflow(case, side, shallow_water):
    data = case.get(side)
    if data is None:
        return None
    constant, slope = data
    start = case.get("start", 0.0)
    if shallow_water:
        return lambda t: np.array(constant, dtype=float) + (t - start) * np.array(slope, dtype=float)
    return lambda t: float(constant + slope * (t - start))


def make_benchmark(case, end_time, mesh_size=None):
    """Benchmark with piecewise constant data given by the values of CASE."""
    values = case["values"]
    n = len(values)
    shallow_water = case["problem"] == "shallow_water"
    a, length = case["a"], case["L"]
    base = ShallowWaterBenchmark if shallow_water else core.benchmark.Benchmark

    class CellBenchmark(base):
        problem = case["problem"]
        domain = core.Interval(a, a + length)
        start_time = case.get("start", 0.0)
        _boundary_conditions = case["bc"][0] if len(case["bc"]) == 1 else tuple(case["bc"])

        def __init__(self, end_time=end_time):
            self.end_time = end_time

        def initial_data(self, x):
            value = values[cell_of(x, self.domain.a, self.domain.length, n)]
            return np.array(value, dtype=float) if shallow_water else float(value)

    if shallow_water:
        bottom = case.get("bottom") or [0.0] * n
        CellBenchmark.gravitational_acceleration = case["g"]
        CellBenchmark.bathymetry = lambda self, x: float(
            bottom[cell_of(x, self.domain.a, self.domain.length, len(bottom))]
        )

    benchmark = CellBenchmark()
    for side in ("left", "right"):
        inflow = _inflow(case, side, shallow_water)
        if inflow is not None:
            setattr(benchmark, "inflow_" + side, inflow)

    return benchmark


def inflow_function(case, side):
    return _inflow(case, side, case["problem"] == "shallow_water")


SCALAR_FV = {
    "llf": scalar_solver.LaxFriedrichsSolver,
    "central": scalar_solver.CentralFluxSolver,
    "mcl-fv": scalar_solver.MCLSolver,
}
INTEGRATORS = {
    "euler": core.ForwardEuler,
    "heun": core.Heun,
    "ssp3": core.StrongStabilityPreservingRungeKutta3,
}
INTEGRATOR_NAMES = ["euler", "heun", "ssp3"]


def swe_solver_class(name):
    """Returns constructor of a shallow water scheme. Compound schemes are
    written as 'mcl:es', 'antidiffusion:llf:0.25', 'coarse:2:llf'.

    """
    kind, *options = name.split(":")
    getter = swe_solver.SHALLOW_WATER_FLUX_GETTER
    simple = {
        "llf": swe_solver.LaxFriedrichsSolver,
        "lw": swe_solver.LaxWendroffSolver,
        "low-order": swe_solver.LowOrderSolver,
        "central": swe_solver.CentralFluxSolver,
        "es": swe_solver.EnergyStableSolver,
        "es1": swe_solver.FirstOrderDiffusiveEnergyStableSolver,
        "reduced-llf": swe_solver.ReducedLaxFriedrichsSolver,
        "reduced-llf-2": swe_solver.ReducedLaxFriedrichs2Solver,
    }
    if kind in simple:
        return simple[kind]
    if kind == "mcl":
        if not options:
            return swe_solver.MCLSolver
        return functools.partial(swe_solver.MCLSolver, flux_getter=getter[options[0]])
    if kind == "antidiffusion":
        arguments = {}
        if options:
            arguments["flux_getter"] = getter[options[0]]
        if len(options) > 1:
            arguments["gamma"] = float(options[1])
        return functools.partial(swe_solver.LinearAntidiffusiveSolver, **arguments)
    if kind == "coarse":
        arguments = {"coarsening_degree": int(options[0])}
        if len(options) > 1:
            arguments["flux_getter"] = getter[options[1]]
        return functools.partial(swe_solver.CoarseSolver, **arguments)
    raise KeyError(name)


def solver_class(problem, name):
    return swe_solver_class(name) if problem == "shallow_water" else SCALAR_FV[name]


def cell_size(case):
    return case["L"] / len(case["values"])


def build(case, name, end_time, integrator="heun", cfl=None, history=False, benchmark=None, mesh_size=None):
    """Builds finite volume solver NAME for the data of CASE."""
    benchmark = benchmark or make_benchmark(case, end_time)
    arguments = {"mesh_size": mesh_size or len(case["values"]), "save_history": history}
    if name != "lw":
        arguments["ode_solver_type"] = INTEGRATORS[integrator]
    if cfl is not None:
        arguments["cfl_number"] = cfl
    return solver_class(case["problem"], name)(benchmark, **arguments)


def solve(solver):
    solver.solve(disable=True)
    return solver


def one_step(case, name, dt, integrator="euler"):
    """Values before and after one step of size DT."""
    start = case.get("start", 0.0)
    # the step is cut at the end time
    cfl = 2.0 * dt / cell_size(case) + 1.0
    solver = build(case, name, start + dt, integrator, cfl=cfl)
    before = solver.solution.value
    solve(solver)
    return before, solver.solution.value


def run(case, name, dt, steps, integrator="heun", history=True):
    """Runs STEPS steps of size DT (up to rounding of the last one)."""
    start = case.get("start", 0.0)
    solver = build(
        case, name, start + steps * dt, integrator, cfl=dt / cell_size(case), history=history
    )
    return solve(solver)


def max_speed(values, g=None, problem="shallow_water"):
    values = np.asarray(values, dtype=float)
    if problem == "advection":
        return 1.0
    if problem == "burgers":
        return float(np.max(np.abs(values)))
    h, q = values[:, 0], values[:, 1]
    u = np.where(h > 0, q / np.where(h > 0, h, 1), 0)
    return float(np.max(np.abs(u) + np.sqrt(g * h)))


def case_speed(case, inflow_duration=0.0):
    """Largest wave speed of the data of CASE including inflow."""
    values = [*case["values"]]
    for side in ("left", "right"):
        inflow = inflow_function(case, side)
        if inflow is not None:
            start = case.get("start", 0.0)
            values += [inflow(start), inflow(start + inflow_duration)]
    speed = max_speed(values, case.get("g"), case["problem"])
    return max(speed, 1e-8)


def is_periodic(case):
    return case["bc"] == ["periodic"]


def is_flat(case):
    bottom = case.get("bottom")
    return not bottom or max(bottom) == min(bottom)
