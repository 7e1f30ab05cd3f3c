"""Finite volume schemes conserve the totals."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import bench, gen
from pbt.runner import Check, require

check = Check(
    "C01",
    rule="A case is a mesh with cell values, bottom, gravity, boundary data, a scheme, an integrator and a"
    " number of steps solved by the public solver; totals are summed exactly and compared before and after."
    " Non-trivial: the solution changes during the run.",
    assumptions=["heights are positive", "network corrected schemes are not used between walls"],
)

FLUXES = ["central", "es", "es1", "llf", "low-order"]
BALANCED = ["low-order", "central", "es", "es1", "mcl"]
PERIODIC = (
    ["llf", "lw", "reduced-llf", "reduced-llf-2", "mcl:reduced-llf", "mcl:reduced-llf-2",
     "antidiffusion", "antidiffusion:reduced-llf:0.1", "coarse:2", "coarse:3:es", "coarse:2:low-order"]
    + BALANCED
    + ["mcl:" + f for f in FLUXES]
    + ["antidiffusion:" + f + ":0.05" for f in FLUXES]
)


def total(values):
    values = np.asarray(values, dtype=float)
    if values.ndim == 1:
        return np.array([math.fsum(values)])
    return np.array([math.fsum(values[:, i]) for i in range(values.shape[1])])


def magnitude(case, values):
    """Bound for sums of absolute values and of absolute face fluxes per speed."""
    values = np.abs(np.asarray(values, dtype=float))
    n = len(values)
    # averages hide the larger values of the fine mesh
    hidden = 1e3 if case["scheme"].startswith("coarse") else 1.0
    if case["problem"] == "shallow_water":
        g = case["g"]
        speed = bench.max_speed(values, g)
        h, q = values[:, 0].max(), values[:, 1].max()
        u = (values[:, 1] / np.maximum(values[:, 0], 1e-12)).max()
        b = np.abs(case.get("bottom") or [0.0]).max()
        mass = q + speed * (h + b) + h * u
        momentum = q * u + g * (h + b) ** 2 + speed * (q + h * u + u * b)
        return hidden * np.array([n * h, n * q]), hidden * np.array([n * mass, n * momentum])
    m = values.max()
    return np.array([n * m]), np.array([n * (m + m * m + m * max(m, 1.0))])


def network_rounding(case, fluxes):
    """The two evaluations of the face at the seam differ by single precision."""
    if "reduced" not in case["scheme"]:
        return 0.0
    return 1e-5 * (fluxes / len(case["values"]) + 1.0)


def tame(case, dt, steps):
    """Runs a few steps of size DT."""
    return bench.run(case, case["scheme"], dt, steps, case["integrator"])


def time_step(case):
    speed = bench.case_speed(case, 1.0)
    if case["problem"] == "shallow_water":
        speed += math.sqrt(case["g"] * max(h for h, _ in case["values"]))
    else:
        speed = max(speed, 0.1)
    return case["cfl"] * bench.cell_size(case) / speed


def refused(error):
    return "negative" in str(error) or "finite" in str(error)


def solved(case):
    dt = time_step(case)
    try:
        solver = tame(case, dt, case["steps"])
    except ValueError as error:
        if refused(error):
            return None, dt
        raise
    return solver, dt


def conserve(case, components):
    solver, dt = solved(case)
    if solver is None:
        return False, ["refused"]
    history = solver.solution.value_history
    block = len(case["values"]) // len(history[0])
    before = total(history[0])
    require(
        np.allclose(before * block, total(case["values"]), rtol=1e-12, atol=1e-12 * np.abs(case["values"]).sum()),
        "total of the initial cell averages",
    )
    sums, fluxes = magnitude(case, history[0])
    for k in range(1, len(history)):
        a, b = magnitude(case, history[k])
        sums, fluxes = np.maximum(sums, a), np.maximum(fluxes, b)
        tolerance = 1e-12 * (sums + k * fluxes * dt / bench.cell_size(case)) + 1e-14
        tolerance = tolerance + k * network_rounding(case, fluxes) * dt / bench.cell_size(case)
        if not np.isfinite(tolerance).all() or (np.abs(history[k]).max() > 1e6):
            break
        after = total(history[k])
        for i in components:
            require(
                abs(after[i] - before[i]) <= tolerance[i],
                f"total of component {i} changes in step {k} of {case['scheme']}",
                before=before[i],
                after=after[i],
                tolerance=tolerance[i],
            )
    changed = not np.allclose(history[0], history[-1], rtol=1e-9, atol=1e-12)
    return changed, [case["scheme"].split(":")[0], case["integrator"], f"{min(len(history) - 1, 3)}+ steps"]


def finish(draw, case):
    case["integrator"] = draw(st.sampled_from(bench.INTEGRATOR_NAMES))
    case["steps"] = draw(st.integers(1, 5))
    case["cfl"] = draw(st.sampled_from([0.1, 0.25, 0.4]))
    return case


def block_sized(draw, case, scheme):
    """Extends the case to a mesh divisible by the coarsening degree."""
    if scheme.startswith("coarse"):
        degree = int(scheme.split(":")[1])
        case["values"] = case["values"] * degree
        case["bottom"] = case["bottom"] * degree
    return case


@st.composite
def periodic_cases(draw):
    scheme = draw(st.sampled_from(PERIODIC))
    case = block_sized(draw, draw(gen.swe_problem(boundaries=("periodic",), flat=True)), scheme)
    case["scheme"] = scheme
    return finish(draw, case)


@check.facet("periodic shallow water", periodic_cases(), quick=4000, thorough=120000)
def periodic(case):
    return conserve(case, (0, 1))


@st.composite
def volume_cases(draw):
    walls = draw(st.booleans())
    schemes = BALANCED + ["mcl:" + f for f in FLUXES] + ["antidiffusion:low-order:0.05", "antidiffusion:es1:0.05"]
    schemes += ["coarse:2:low-order", "coarse:2:es1"]
    if not walls:
        schemes = schemes + ["reduced-llf", "reduced-llf-2", "mcl:reduced-llf"]
    scheme = draw(st.sampled_from(schemes + ["llf"]))
    boundaries = ("wall",) if walls else ("periodic",)
    flat = True if scheme == "llf" else None
    case = block_sized(draw, draw(gen.swe_problem(boundaries=boundaries, flat=flat)), scheme)
    case["scheme"] = scheme
    return finish(draw, case)


@check.facet("water volume over a bottom or between walls", volume_cases(), quick=3000, thorough=100000)
def volume(case):
    return conserve(case, (0,))


@st.composite
def scalar_cases(draw):
    case = draw(gen.scalar_problem(boundaries=("periodic",)))
    case["scheme"] = draw(st.sampled_from(["llf", "central", "mcl-fv"]))
    return finish(draw, case)


@check.facet("periodic scalar", scalar_cases(), quick=3000, thorough=100000)
def scalar(case):
    return conserve(case, (0,))


@st.composite
def open_cases(draw):
    """Two problems, which differ only away from the boundary."""
    integrator = draw(st.sampled_from(["euler", "euler", "heun"]))
    width = 5 if integrator == "euler" else 9
    inner = draw(st.integers(1, 8))
    n = 2 * width + inner
    if draw(st.integers(0, 2)):
        scheme = draw(st.sampled_from(["llf", "lw", "reduced-llf", "antidiffusion"] + BALANCED + ["mcl:" + f for f in FLUXES]))
        if scheme == "lw":
            integrator, width = "euler", 5
        flat = True if scheme in ("llf", "lw", "reduced-llf") else None
        case = draw(gen.swe_problem(low=n, high=n, large=n, flat=flat, boundaries=("outflow", "wall", "inflow")))
        case["inner"] = draw(gen.swe_state(inner))
        if not bench.is_flat(case):
            case["inner_bottom"] = draw(st.lists(gen.bottom(), min_size=inner, max_size=inner))
    else:
        scheme = draw(st.sampled_from(["llf", "central", "mcl-fv"]))
        case = draw(gen.scalar_problem(low=n, high=n, large=n, boundaries=("outflow", "inflow")))
        case["inner"] = draw(gen.scalar_values(inner))
    n = len(case["values"])
    case["width"] = (n - inner) // 2
    case["scheme"] = scheme
    case["integrator"] = integrator
    case["cfl"] = draw(st.sampled_from([0.05, 0.25]))
    case["steps"] = 1
    return case


@check.facet(
    "open boundaries", open_cases(), quick=3000, thorough=100000,
    rule="two runs whose data differ only away from the boundary change their totals in one step by the same"
    " amount (volume only, if the bottom is uneven)",
)
def open_boundaries(case):
    width, inner = case["width"], case["inner"]
    other = dict(case)
    other["values"] = case["values"][:width] + inner + case["values"][width + len(inner):]
    flat = True
    if case["problem"] == "shallow_water":
        flat = bench.is_flat(case)
        if "inner_bottom" in case:
            flat = False
            other["bottom"] = case["bottom"][:width] + case["inner_bottom"] + case["bottom"][width + len(inner):]
    dt = min(time_step(case), time_step(other))
    changes, tolerances = [], []
    for data in (case, other):
        try:
            before, after = bench.one_step(data, case["scheme"], dt, case["integrator"])
        except ValueError as error:
            if refused(error):
                return False, ["refused"]
            raise
        changes.append(total(np.concatenate([after, -before])))
        sums, fluxes = magnitude(data, before)
        sums2, fluxes2 = magnitude(data, after)
        fluxes = np.maximum(fluxes, fluxes2)
        ratio = dt / bench.cell_size(case)
        tolerances.append(1e-12 * (np.maximum(sums, sums2) + fluxes * ratio) + network_rounding(case, fluxes) * ratio)
    tolerance = tolerances[0] + tolerances[1]
    if tolerance.max() > (1e-2 if "reduced" in case["scheme"] else 1e-4):
        return False, ["huge"]
    for i in range(len(changes[0])):
        if i == 1 and not flat:
            continue
        require(
            abs(changes[0][i] - changes[1][i]) <= tolerance[i],
            f"change of total {i} depends on inner cells ({case['scheme']})",
            first=changes[0][i],
            second=changes[1][i],
            tolerance=tolerance[i],
        )
    return case["values"] != other["values"], [case["scheme"].split(":")[0], "/".join(sorted(set(case["bc"])))]


################################################################################
# larger meshes and longer runs
################################################################################
def longer(strategy):
    steps = st.sampled_from([1, 3, 10, 30, 60])
    return st.tuples(gen.large(strategy), steps).map(lambda t: {**t[0], "steps": t[1]})


@check.facet(
    "larger meshes", st.one_of(longer(periodic_cases()), longer(scalar_cases())), quick=300, thorough=10000,
    rule="meshes of up to 300 cells and up to sixty steps",
)
def larger(case):
    return conserve(case, (0, 1)[: 2 if case["problem"] == "shallow_water" else 1])


@check.facet(
    "water volume on larger meshes", longer(volume_cases()), quick=200, thorough=7000,
    rule="meshes of up to 300 cells and up to sixty steps",
)
def larger_volume(case):
    return conserve(case, (0,))
