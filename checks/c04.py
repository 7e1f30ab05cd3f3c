"""Maximum principle of the scalar finite volume schemes."""
import numpy as np
from hypothesis import strategies as st

from pbt import bench, gen
from pbt.fvref import ghost
from pbt.runner import Check, require

check = Check(
    "C04",
    rule="A case is a scalar problem with cell values, boundary data, scheme, integrator and step size within the"
    " stability bound. Non-trivial: the values are not constant.",
)


@st.composite
def cases(draw, runs=False):
    case = draw(gen.scalar_problem())
    if draw(st.integers(0, 4)) == 0:
        # large values next to small ones
        scale = draw(st.sampled_from([1e-6, 1e-3, 1e3]))
        case["values"] = [v * scale for v in case["values"]]
    case["scheme"] = draw(st.sampled_from(["llf", "mcl-fv", "mcl-fv"]))
    case["fraction"] = draw(st.sampled_from([1.0, 1.0, 0.5, 0.1]))
    case["integrator"] = "euler"
    if runs:
        case["integrator"] = draw(st.sampled_from(bench.INTEGRATOR_NAMES))
        case["steps"] = draw(st.sampled_from([1, 2, 3, 5, 10, 40]))
    return case


def extended(case, values, time):
    return np.array(
        ghost(list(values), 1, case["bc"], time, bench.inflow_function(case, "left"),
              bench.inflow_function(case, "right"), False)
    )


def speed(case, values):
    return bench.max_speed(values, None, case["problem"])


@check.facet("steps", cases(), quick=8000, thorough=250000)
def steps(case):
    old = extended(case, case["values"], case["start"])
    lam = speed(case, old)
    if lam < 1e-9:
        return False, ["at rest"]
    dt = case["fraction"] * bench.cell_size(case) / (2 * lam) * (1 - 1e-12)
    _, new = bench.one_step(case, case["scheme"], dt)
    low = np.minimum(np.minimum(old[:-2], old[1:-1]), old[2:])
    high = np.maximum(np.maximum(old[:-2], old[1:-1]), old[2:])
    tolerance = 1e-12 * np.abs(old).max()
    for i, value in enumerate(new):
        require(
            low[i] - tolerance <= value <= high[i] + tolerance,
            f"{case['scheme']} leaves the range of the neighbours",
            cell=i, value=value, low=low[i], high=high[i],
        )
    return bool(np.ptp(old) > 0), [case["scheme"], case["problem"], "/".join(sorted(set(case["bc"])))]


@check.facet("runs", cases(runs=True), quick=4000, thorough=120000)
def runs(case):
    dx = bench.cell_size(case)
    lam = speed(case, case["values"])
    duration = 0.0
    # the inflow is linear in time, a duration consistent with the bound on the speed
    for _ in range(60):
        lam = max(lam, 1e-3)
        dt = case["fraction"] * dx / (2 * lam) * (1 - 1e-12)
        duration = case["steps"] * dt
        data = [*case["values"]]
        for side in ("left", "right"):
            inflow = bench.inflow_function(case, side)
            if inflow is not None:
                data += [inflow(case["start"]), inflow(case["start"] + duration)]
        bound = speed(case, data)
        if bound <= lam:
            break
        lam = bound * 1.01
    solver = bench.run(case, case["scheme"], dt, case["steps"], case["integrator"])
    low, high = min(data), max(data)
    tolerance = 1e-11 * max(abs(low), abs(high))
    for k, values in enumerate(solver.solution.value_history):
        require(
            low - tolerance <= values.min() and values.max() <= high + tolerance,
            f"{case['scheme']} leaves the range of the data",
            step=k, minimum=values.min(), maximum=values.max(), low=low, high=high,
        )
    return high > low, [case["scheme"], case["integrator"], case["problem"]]


@check.facet("steps on larger meshes", gen.large(cases()), quick=400, thorough=12000, rule="meshes of up to 300 cells")
def large_steps(case):
    return steps(case)


@check.facet(
    "runs on larger meshes", gen.large(cases(runs=True)), quick=200, thorough=6000, rule="meshes of up to 300 cells"
)
def large_runs(case):
    return runs(case)
