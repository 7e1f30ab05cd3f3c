"""Discrete maximum principle of low order and limited finite elements."""
import numpy as np
from hypothesis import strategies as st

import finite_element
from finite_element.scalar.solver import cg_low
from pbt import bench, feref, fvref, gen
from pbt.runner import Check, close, require

check = Check(
    "C05",
    rule="A case is a scalar problem with nodal values of elements of degree up to seven, a scheme and its options; the public solver"
    " is run. Non-trivial: the nodal values are not constant and at least one step is taken.",
    assumptions=["elements of degree up to seven (equispaced nodes, positive lumped masses), at least three cells"],
)


@st.composite
def cases(draw, adaptive=None, cfl=(0.1, 0.5, 0.9, 1.0, 1.0), low=3):
    case = draw(feref.problem(degrees=(1,) * 20 + (2, 2, 2, 3, 4, 5, 7), low=low, high=14, dofs=14))
    case["scheme"] = draw(st.sampled_from(["cg-low", "mcl-fem", "mcl-fem"]))
    case["integrator"] = draw(st.sampled_from(bench.INTEGRATOR_NAMES))
    case["adaptive"] = draw(st.booleans()) if adaptive is None else adaptive
    case["cfl"] = draw(st.sampled_from(list(cfl)))
    case["steps"] = draw(st.integers(1, 5))
    return case


def steps_of(case, space):
    values = np.array(case["values"])
    if case["problem"] == "burgers" and np.abs(values).max() < 1e-8:
        return None
    optimum = space.optimal_step(case["problem"], values)
    return optimum if 1e-9 < optimum < 1e9 else None


def reported_step(case, space):
    """Returns the library's optimal step of nodal values."""
    from core import UniformMesh, Interval

    fe_space = finite_element.LagrangeSpace(UniformMesh(Interval(case["a"], case["a"] + case["L"]), space.cells), space.degree)
    optimum = cg_low.OptimalTimeStep(
        finite_element.LumpedMassVector(fe_space), finite_element.build_artificial_diffusion(case["problem"], fe_space)
    )
    return lambda u: float(optimum(0.0, np.array(u)))


def within(value, low, high, scale, message, **values):
    bad = np.maximum(low - value, value - high)
    worst = int(np.argmax(bad))
    require(bad[worst] <= scale, message, node=worst, value=value[worst], low=low[worst], high=high[worst], **values)


def conditioning(case):
    return 1 + (abs(case["a"]) + case["L"]) / case["L"]


@check.facet("Euler steps", cases(), quick=2200, thorough=100000)
def euler_steps(case):
    case = dict(case, integrator="euler")
    space = feref.space_of(case)
    optimum = steps_of(case, space)
    if optimum is None:
        return False
    reported = reported_step(case, space)
    start = case["start"]
    solver = feref.build(case, start + case["steps"] * case["cfl"] * optimum)
    warnings = feref.solve(solver)
    history, times = solver.solution.value_history, solver.solution.time_history
    neighbours = [space.neighbours(i) for i in range(space.n)]
    tags = [case["scheme"], case["problem"]]
    exceeded = False
    for before, after, t0, t1 in zip(history, history[1:], times, times[1:]):
        step = t1 - t0
        limit = reported(before)
        if step > limit * (1 + 1e-13):
            exceeded = True
            if step > limit * (1 + 1e-9):
                tags.append("exceeded")
                break
        low = np.array([min(before[k] for k in neighbours[i]) for i in range(space.n)])
        high = np.array([max(before[k] for k in neighbours[i]) for i in range(space.n)])
        scale = 1e-13 * conditioning(case) * (np.abs(before).max() + 1e-300)
        # times are rounded
        scale += 1e-15 * abs(t1) / limit * np.abs(before).max() * 4
        within(after, low, high, scale, "new value outside the range of the old ones nearby", time=t0, step=step, optimal=limit)
    if not exceeded and case["cfl"] < 1 - 1e-9 and case["adaptive"]:
        require("CFL" not in warnings, "warning without a step exceeding the optimum", output=warnings)
    return len(set(case["values"])) > 1 and len(history) > 1, tags


@check.facet("runs", cases(adaptive=True), quick=1500, thorough=60000)
def runs(case):
    space = feref.space_of(case)
    optimum = steps_of(case, space)
    if optimum is None:
        return False
    start = case["start"]
    solver = feref.build(case, start + 2 * case["steps"] * case["cfl"] * optimum)
    warnings = feref.solve(solver)
    if "WARNING" in warnings:
        return False, ["warned"]
    values = np.array(case["values"])
    low, high = np.full(space.n, values.min()), np.full(space.n, values.max())
    history = solver.solution.value_history
    for time, value in zip(solver.solution.time_history, history):
        scale = 1e-12 * conditioning(case) * (np.abs(values).max() + 1e-300) * (1 + abs(start) * 1e-2 / optimum)
        within(value, low, high, scale, "value outside the range of the initial data", time=time)
    return len(set(case["values"])) > 1 and len(history) > 1, [case["scheme"], case["problem"], case["integrator"]]


@check.facet(
    "warnings", cases(cfl=(0.5, 0.9, 0.99, 1.0, 1.01, 1.1, 1.5, 2.0)), quick=1500, thorough=60000,
    rule="the step exceeds the optimum of some stage, but not of all",
)
def warnings(case):
    """Warnings are issued exactly for steps exceeding the optimum in some stage."""
    space = feref.space_of(case)
    optimum = steps_of(case, space)
    if optimum is None:
        return False
    start = case["start"]
    solver = feref.build(case, start + case["steps"] * case["cfl"] * optimum)
    reported = reported_step(case, space)
    output = feref.solve(solver)
    history, times = solver.solution.value_history, solver.solution.time_history
    rhs = feref.right_hand_side(space, case["problem"], case["scheme"])
    expected, unclear, some = 0, 0, False
    for value, t0, t1 in zip(history, times, times[1:]):
        step = t1 - t0
        stages = []

        def record(time, u):
            stages.append(u)
            return rhs(time, u)

        fvref.integrate(record, t0, value, step, case["integrator"])
        ratios = [step / reported(stage) for stage in stages]
        rounding = 1e-9 + 1e-14 * abs(t1) / step
        if max(ratios) > 1 + rounding:
            expected += 1
            some = some or min(ratios) < 1
        elif max(ratios) > 1 - rounding:
            unclear += 1
    count = output.count("CFL condition is violated")
    require(expected <= count <= expected + unclear, "number of warnings", warnings=count, expected=expected, unclear=unclear)
    return some, [case["scheme"], "warned" if expected else "quiet"]


@check.facet("reported step", cases(), quick=1500, thorough=60000)
def reported_steps(case):
    """A single step of the reported size, not of the one of the reference, obeys the principle."""
    space = feref.space_of(case)
    if steps_of(case, space) is None:
        return False
    reported = reported_step(case, space)
    values = np.array(case["values"])
    limit = reported(values)
    solver = feref.build(case, case["start"] + 1.0)
    rate = np.asarray(solver._right_hand_side(case["start"], values.copy()))
    after = values + limit * rate
    low = np.array([min(values[k] for k in space.neighbours(i)) for i in range(space.n)])
    high = np.array([max(values[k] for k in space.neighbours(i)) for i in range(space.n)])
    scale = 1e-13 * conditioning(case) * (np.abs(values).max() + 1e-300)
    within(after, low, high, scale, "value after the optimal step outside the range of the old ones nearby", step=limit)
    return len(set(case["values"])) > 1, [case["scheme"], case["problem"]]


################################################################################
# larger meshes
################################################################################
@check.facet("Euler steps on larger meshes", feref.large(cases()), quick=200, thorough=6000, rule="meshes of up to sixty cells")
def large_euler_steps(case):
    return euler_steps(case)


@check.facet("runs on larger meshes", feref.large(cases(adaptive=True)), quick=120, thorough=4000, rule="meshes of up to sixty cells")
def large_runs(case):
    return runs(case)
