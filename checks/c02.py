"""Conservation of the integral by continuous Galerkin schemes."""
import numpy as np
from hypothesis import strategies as st

import core
from pbt import bench, feref, gen
from pbt.runner import Check, close, require

check = Check(
    "C02",
    rule="A case is a scalar problem with nodal values, a scheme, its options and a number of steps; the public solver"
    " is run. Non-trivial: the nodal values change.",
    assumptions=["polynomial degrees up to seven and at least three cells", "finite results"],
)


@st.composite
def run_cases(draw, schemes=feref.SCHEMES, degrees=(1, 1, 2, 2, 3, 4, 5, 7)):
    case = draw(feref.problem(degrees=degrees, high=8))
    case["scheme"] = draw(st.sampled_from(list(schemes)))
    case["integrator"] = draw(st.sampled_from(bench.INTEGRATOR_NAMES))
    case["adaptive"] = draw(st.booleans())
    case["exact"] = draw(st.booleans())
    case["history"] = draw(st.booleans())
    case["cfl"] = draw(st.sampled_from([0.1, 0.25, 0.5, 0.9]))
    case["steps"] = draw(st.integers(1, 4))
    case["again"] = draw(st.booleans())
    return case


def duration(case, space):
    """Length of the wanted number of steps."""
    values = np.array(case["values"])
    if case["scheme"] != "cg" and (case["problem"] == "advection" or np.abs(values).max() > 0):
        return case["cfl"] * case["steps"] * space.optimal_step(case["problem"], values)
    return case["cfl"] * case["steps"] * space.size


def integral_check(case, space, values, times, start, message):
    scale = space.lumped.max() * max(np.abs(values[0]).sum(), 1e-300)
    for time, value in zip(times, values):
        total = np.abs(value).max()
        if not total < 1e8 * max(np.abs(values[0]).max(), 1e-8):
            break  # unstable
        scale = max(scale, space.lumped.max() * np.abs(value).sum())
        # rounding errors of the rates of change: derivatives of the nodal fluxes
        rate = np.abs(np.linalg.inv(space.mass)).sum(axis=1).max() * space.lumped.max() * 2
        speed = 1.0 if case["problem"] == "advection" else total
        error = 2e-13 * scale * (1 + rate * (1 + speed * (times[-1] - start) / space.size) * case["degree"] ** 3)
        close(space.integral(value), space.integral(values[0]), error, message, time=time)


def finite(solver):
    """Solves, unless the solution is refused."""
    try:
        feref.solve(solver)
    except ValueError as error:
        if "finite" in str(error):
            return False
        raise
    return True


@check.facet("runs", run_cases(), quick=2400, thorough=60000)
def runs(case):
    space = feref.space_of(case)
    start = case["start"]
    span = duration(case, space)
    if case["scheme"] == "cg":
        speed = max(np.abs(case["values"]).max(), 1.0) if case["problem"] == "burgers" else 1.0
        case = dict(case, cfl=case["cfl"] / (speed * case["degree"] ** 2))
        span = duration(case, space)
    solver = feref.build(case, start + span, history=case["history"])
    before = solver.solution.value
    close(before, case["values"], 0, "initial values")
    if not finite(solver):
        return False, ["infinite"]
    after = [solver.solution.value]
    if not np.all(np.isfinite(after)):
        return False, ["infinite"]
    history = solver.solution.value_history if case["history"] else np.array([before, *after])
    times = solver.solution.time_history if case["history"] else np.array([start, solver.solution.time])
    integral_check(case, space, history, times, start, "integral of the solution")
    if case["again"]:
        # the integral of the second problem belongs to its data
        other = dict(case, values=[-v for v in reversed(case["values"])])
        solver.reinitialize(feref.make_benchmark(other, start + span))
        if not finite(solver):
            return False, ["infinite"]
        after = np.array([other["values"], solver.solution.value])
        if np.all(np.isfinite(after)):
            integral_check(other, space, after, [start, start + span], start, "integral after reinitialising")
    changed = np.max(np.abs(history[-1] - before)) > 1e-8
    return changed, [case["scheme"], case["problem"], f"degree {case['degree']}"]


@check.facet("rates", run_cases(), quick=1200, thorough=30000)
def rates(case):
    """The rate of change of the integral vanishes for arbitrary values."""
    space = feref.space_of(case)
    solver = feref.build(case, case["start"] + 1.0)
    u = np.array(case["values"])
    rate = np.asarray(solver._right_hand_side(case["start"], u.copy()))
    f = feref.flux(case["problem"], np.abs(u)).max()
    inverse = np.abs(np.linalg.inv(space.mass)).sum(axis=1).max() if case["scheme"] == "cg" else 1 / space.lumped.min()
    growth = {1: 1, 2: 4, 3: 20, 4: 2e2, 5: 2e3, 6: 2e4, 7: 3e5}[case["degree"]]
    conditioning = 1e-15 * (abs(case["a"]) + case["L"]) / space.size
    error = (1e-13 * growth + 20 * conditioning) * f * space.n * inverse * space.lumped.max() * case["degree"] ** 2
    close(space.integral(rate), 0.0, error + 1e-300, "rate of change of the integral")
    return len(set(case["values"])) > 1, [case["scheme"], case["problem"], f"degree {case['degree']}"]


@check.facet("runs on larger meshes", feref.large(run_cases(degrees=(1, 1, 2, 3))), quick=100, thorough=4000, rule="meshes of up to sixty cells")
def large_runs(case):
    return runs(case)
