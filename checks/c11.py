"""Energy of the energy stable schemes."""
import numpy as np
from hypothesis import strategies as st

from pbt import bench, fvref, gen
from pbt.fvref import swe_flux
from pbt.runner import Check, require

check = Check(
    "C11",
    rule="A case is a shallow water problem with periodic or wall boundaries, or a pair of states. Non-trivial: the"
    " states are not uniform.",
    assumptions=["heights are at least 1e-4"],
)


def heights():
    return st.one_of(gen.height(), gen.log_float(1e-3, 10))


@st.composite
def cases(draw):
    case = draw(gen.swe_problem(boundaries=("periodic", "periodic", "wall"), heights=heights()))
    case["scheme"] = draw(st.sampled_from(["es", "es1"]))
    return case


def entropy(h, q, b, g):
    u = q / h
    return np.array([g * (h + b) - u * u / 2, u]).T


def rates(case, scheme):
    """Semi-discrete right hand side obtained from one explicit step."""
    dt = bench.cell_size(case) / max(bench.case_speed(case), 1e-6)
    before, after = bench.one_step(case, scheme, dt)
    return before, (after - before) / dt, np.abs(before) / dt + np.abs(after) / dt


@check.facet("total energy", cases(), quick=6000, thorough=200000)
def total(case):
    before, rate, rounding = rates(case, case["scheme"])
    g, dx = case["g"], bench.cell_size(case)
    h, q = before.T
    b = np.array(case["bottom"])
    variables = entropy(h, q, b, g)
    _, magnitude = fvref.reference(case, case["scheme"])(case["start"], before)
    production = float(np.sum(variables * rate) * dx)
    absolute = np.abs(variables) + np.array([g * (h + np.abs(b)) + (q / h) ** 2, np.abs(q / h)]).T
    tolerance = 1e-12 * float(np.sum(absolute * (magnitude + rounding)) * dx)
    if case["scheme"] == "es":
        require(
            abs(production) <= tolerance, "energy is not conserved", production=production, tolerance=tolerance,
            bc=case["bc"],
        )
    else:
        require(
            production <= tolerance, "energy increases", production=production, tolerance=tolerance, bc=case["bc"]
        )
    tags = [case["scheme"], case["bc"][0], "flat" if bench.is_flat(case) else "bottom"]
    if production < -1e3 * tolerance:
        tags.append("energy is dissipated")
    uniform = np.all(before == before[0]) and np.all(b == b[0])
    return not uniform, tags


@st.composite
def pairs(draw):
    values = draw(gen.swe_state(2, heights()))
    return {
        "problem": "shallow_water",
        "values": [values[0], values[0], values[1], values[1]],
        "bottom": [draw(st.sampled_from([0.0, 0.0, 1.0]))] * 4,
        "g": draw(gen.gravity()),
        "start": 0.0,
        **draw(gen.domain()),
        "bc": ["outflow", "outflow"],
        "scheme": draw(st.sampled_from(["es", "es1"])),
    }


@check.facet("entropy condition of a face", pairs(), quick=4000, thorough=150000)
def face(case):
    before, rate, rounding = rates(case, case["scheme"])
    g, dx = case["g"], bench.cell_size(case)
    left, right = before[1], before[2]
    flux_left, flux_right = np.array(swe_flux(left, g)), np.array(swe_flux(right, g))
    _, magnitude = fvref.reference(case, case["scheme"])(0.0, before)
    error = 1e-12 * dx * (magnitude + rounding).max(axis=0)
    from_left = flux_left - dx * rate[1]
    from_right = flux_right + dx * rate[2]
    require(
        np.all(np.abs(from_left - from_right) <= error), "flux differs on both sides",
        left=from_left.tolist(), right=from_right.tolist(),
    )
    b = case["bottom"][0]
    jump = entropy(*right, b, g) - entropy(*left, b, g)
    potential = [g / 2 * h * q for h, q in (left, right)]
    production = float(jump @ from_left) - (potential[1] - potential[0])
    size = np.abs(entropy(*right, b, g)) + np.abs(entropy(*left, b, g))
    size[0] += g * b + (left[1] / left[0]) ** 2 + (right[1] / right[0]) ** 2
    tolerance = float(size @ error) + 1e-12 * float(size @ np.abs(from_left)) + 1e-12 * sum(map(abs, potential))
    if case["scheme"] == "es":
        require(
            abs(production) <= tolerance, "discrete entropy condition is violated", production=production,
            tolerance=tolerance,
        )
    else:
        require(production <= tolerance, "face produces energy", production=production, tolerance=tolerance)
    return bool((left != right).any()), [case["scheme"]] + (["dissipative"] if production < -1e3 * tolerance else [])


@check.facet(
    "energy of runs", cases().map(lambda c: {**c, "scheme": "es1"}), quick=1500, thorough=40000,
    rule="the state is not uniform; energies at all recorded times of a run with small steps are compared",
)
def runs(case):
    """The discrete in time energy of the diffusive scheme decays up to the
    second order error of the integrator.

    """
    speed = bench.case_speed(case)
    heights = [h for h, _ in case["values"]]
    if max(heights) > 20 * min(heights):
        return False, ["skipped: strong rarefaction"]
    # the diffusion matrix of the entropy variables scales with the Froude number
    # and jumps of the surface are levelled by it
    surface = [h + b for (h, _), b in zip(case["values"], case["bottom"])]
    stiffness = max(1.0, speed**2 / (case["g"] * min(heights)), (max(surface) - min(surface)) / min(heights))
    dt = 0.02 * bench.cell_size(case) / (speed * stiffness)
    try:
        solver = bench.run(case, "es1", dt, 5, "ssp3")
    except ValueError:
        return False, ["refused"]
    g, b = case["g"], np.array(case["bottom"])
    energies = []
    for value in solver.solution.value_history:
        h, q = value.T
        energies.append(float(np.sum(q * q / h / 2 + g * h * h / 2 + g * h * b)))
    scale = sum(
        h * (abs(q / h)) ** 2 + g * h * h + g * h * abs(c) for (h, q), c in zip(case["values"], case["bottom"])
    )
    growth = max(b - a for a, b in zip(energies, energies[1:]))
    require(growth <= 1e-5 * scale, "energy increases during a run", growth=growth, scale=scale)
    return any(v != case["values"][0] for v in case["values"])


@check.facet("energy on larger meshes", gen.large(cases()), quick=300, thorough=10000, rule="meshes of up to 300 cells")
def large_total(case):
    return total(case)
