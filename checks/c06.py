"""Positivity of water heights and bounds of the limited scheme."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import bench, gen
from pbt.fvref import ghost, swe_flux, swe_speed
from pbt.runner import Check, require

check = Check(
    "C06",
    rule="A case is a shallow water problem, a scheme and a step size within half a cell over the largest wave"
    " speed. Non-trivial: the state is neither uniform nor at rest.",
    assumptions=["dry cells have wet neighbours"],
)

FLUXES = ["central", "es", "es1", "llf", "low-order"]
LIMITED = ["mcl"] + ["mcl:" + f for f in FLUXES]


def extended(case, values, time):
    values = [list(map(float, v)) for v in values]
    left, right = bench.inflow_function(case, "left"), bench.inflow_function(case, "right")
    return [list(map(float, v)) for v in ghost(values, 1, case["bc"], time, left, right, True)]


def wave_speed(case, cells):
    return max(swe_speed(a, b, case["g"]) for a, b in zip(cells, cells[1:]))


def strong_state(n):
    heights = st.one_of(gen.height(), gen.log_float(1e-8, 10), st.sampled_from([1e-6, 1e-3, 1.0, 5.0]))
    velocities = st.one_of(gen.velocity(), gen.signed(50, 4))
    return gen.swe_state(n, heights, velocities)


@st.composite
def cases(draw, schemes, flat=None, dry=True, bottoms=True):
    case = draw(gen.swe_problem(flat=flat))
    n = len(case["values"])
    if draw(st.booleans()):
        case["values"] = draw(strong_state(n))
    scheme = draw(schemes)
    case["scheme"] = scheme
    if scheme == "llf":
        case["bottom"] = [0.0] * n
    if "reduced" in scheme:
        case["values"] = draw(gen.swe_state(n, gen.log_float(1e-2, 4), gen.signed(3)))
    if dry and draw(st.integers(0, 3)) == 0:
        position = draw(st.sets(st.integers(0, max(0, (n - 3) // 2)), max_size=3))
        for i in position:
            if 0 < 2 * i + 1 < n - 1:
                case["values"][2 * i + 1] = [0.0, 0.0]
    case["fraction"] = draw(st.sampled_from([1.0, 1.0, 0.9, 0.2]))
    return case


SCHEMES = st.sampled_from(["llf", "low-order", "low-order"] + LIMITED + ["mcl:reduced-llf"])


def decide_step(case):
    old = extended(case, case["values"], case["start"])
    lam = wave_speed(case, old)
    dt = case["fraction"] * bench.cell_size(case) / (2 * lam) * (1 - 1e-12)
    _, new = bench.one_step(case, case["scheme"], dt)
    return old, lam, dt, new


def interesting(old):
    return any(a != b for a, b in zip(old, old[1:])) or old[0][1] != 0.0


@check.facet("positive heights", cases(SCHEMES), quick=8000, thorough=250000)
def positive(case):
    old, lam, dt, new = decide_step(case)
    tolerance = 1e-13 * max(h for h, _ in old)
    require(
        new[:, 0].min() >= -tolerance,
        f"negative height with {case['scheme']}",
        height=new[:, 0].min(), cell=int(new[:, 0].argmin()), bc=case["bc"],
    )
    tags = [case["scheme"].split(":")[0], "flat" if bench.is_flat(case) else "bottom"]
    if min(h for h, _ in old) == 0.0:
        tags.append("dry cells")
    if new[:, 0].min() < 1e-3 * new[:, 0].max():
        tags.append("nearly dry result")
    return interesting(old), tags


@check.facet(
    "bounds of the limited scheme", cases(st.sampled_from(LIMITED + ["mcl:reduced-llf", "mcl:reduced-llf-2"]), flat=True, dry=False),
    quick=8000, thorough=250000,
)
def bounds(case):
    old, lam, dt, new = decide_step(case)
    g = case["g"]
    bars, conditioned = [], []
    for a, b in zip(old, old[1:]):
        speed = swe_speed(a, b, g)
        fa, fb = swe_flux(a, g), swe_flux(b, g)
        bars.append([(a[k] + b[k]) / 2 - (fb[k] - fa[k]) / (2 * speed) for k in range(2)])
        conditioned.append(bars[-1][0] > 1e-7 * (a[0] + b[0]))
    tags = [case["scheme"]]
    for i, (h, q) in enumerate(new):
        cell = old[i + 1]
        heights = [cell[0], bars[i][0], bars[i + 1][0]]
        tolerance = 1e-12 * max(old[i][0], cell[0], old[i + 2][0])
        require(
            min(heights) - tolerance <= h <= max(heights) + tolerance,
            f"{case['scheme']} leaves the bounds of the heights",
            cell=i, height=h, low=min(heights), high=max(heights), bc=case["bc"],
        )
        if not (conditioned[i] and conditioned[i + 1]):
            tags.append("velocity ill conditioned")
            continue
        velocities = [cell[1] / cell[0]] + [b[1] / b[0] for b in (bars[i], bars[i + 1])]
        # rounding of the intermediate velocities relative to the waves
        loss = max((old[i][0] + cell[0]) / bars[i][0], (cell[0] + old[i + 2][0]) / bars[i + 1][0])
        slack = 1e-12 * max(lam, max(map(abs, velocities))) * max(loss * h, old[i][0], cell[0], old[i + 2][0])
        require(
            min(velocities) * h - slack <= q <= max(velocities) * h + slack,
            f"{case['scheme']} leaves the bounds of the velocities",
            cell=i, velocity=q / h, low=min(velocities), high=max(velocities), bc=case["bc"],
        )
    return interesting(old), sorted(set(tags))


@st.composite
def run_cases(draw):
    case = draw(cases(SCHEMES, dry=False))
    case["steps"] = draw(st.integers(2, 40))
    return case


@check.facet(
    "runs", run_cases(), quick=2000, thorough=60000,
    rule="heights stay non-negative along forward Euler runs as long as the step stays within the bound",
)
def runs(case):
    old = extended(case, case["values"], case["start"])
    dx = bench.cell_size(case)
    dt = 0.5 * case["fraction"] * dx / (2 * wave_speed(case, old))
    start = case["start"]
    solver = bench.build(case, case["scheme"], start + case["steps"] * dt, "euler", cfl=dt / dx, history=True)
    error = None
    try:
        bench.solve(solver)
    except ValueError as e:
        if "negative" not in str(e) and "finite" not in str(e):
            raise
        error = e
    times, history = solver.solution.time_history, solver.solution.value_history
    within = True
    for k, values in enumerate(history):
        require(
            not within or values[:, 0].min() >= -1e-12 * values[:, 0].max(),
            f"negative height in a run of {case['scheme']}",
            step=k, height=values[:, 0].min(),
        )
        if not within or values[:, 0].min() < 0:
            within = False
            break
        cells = extended(case, values, times[k])
        if min(h for h, _ in cells) <= 0 or not np.isfinite(values).all():
            within = False
            break
        within = dt * 2 * wave_speed(case, cells) <= dx
    require(error is None or not within, f"a run of {case['scheme']} within the step bound fails", error=str(error))
    return len(history) > 2 and interesting(old), [case["scheme"].split(":")[0], "within" if within else "step too large"]


################################################################################
# larger meshes
################################################################################
@check.facet(
    "positive heights on larger meshes", gen.large(cases(SCHEMES, dry=False)), quick=300, thorough=10000,
    rule="meshes of up to 300 cells",
)
def large_positive(case):
    return positive(case)


@check.facet(
    "bounds on larger meshes", gen.large(cases(st.sampled_from(LIMITED), flat=True, dry=False)), quick=300, thorough=10000,
    rule="meshes of up to 300 cells",
)
def large_bounds(case):
    return bounds(case)
