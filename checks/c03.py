"""Uniform states are steady and the fluxes are consistent."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import bench, feref, gen
from pbt.runner import Check, close, require

check = Check(
    "C03",
    rule="A case is an admissible state, a mesh, boundary conditions, a scheme and an integrator. Non-trivial:"
    " the physical flux of the state (or the difference of the fluxes of the two plateaus) is not zero.",
    assumptions=["heights are positive", "constant bottom"],
)

FLUXES = ["central", "es", "es1", "llf", "low-order"]
SWE = (
    ["llf", "lw", "low-order", "central", "es", "es1", "mcl", "antidiffusion", "coarse:2", "coarse:4:es1", "coarse:1"]
    + ["mcl:" + f for f in FLUXES]
    + [f"antidiffusion:{f}:0.5" for f in FLUXES]
)
NETWORK = ["reduced-llf", "reduced-llf-2", "mcl:reduced-llf", "mcl:reduced-llf-2", "coarse:2:reduced-llf"]


def flux(case, state):
    if case["problem"] == "advection":
        return np.array([state])
    if case["problem"] == "burgers":
        return np.array([state * state / 2])
    h, q = state
    return np.array([q, q * q / h + case["g"] * h * h / 2])


def speed(case, *states):
    if case["problem"] == "shallow_water":
        return bench.max_speed(states, case["g"])
    return max(bench.max_speed(states, None, case["problem"]), 1e-3)


def state():
    extreme = st.tuples(gen.log_float(1e-6, 1e3), gen.velocity())
    usual = st.tuples(gen.height(), gen.velocity())
    return st.one_of(usual, usual, extreme).map(lambda t: [t[0], t[0] * t[1]])


@st.composite
def uniform_cases(draw):
    kind = draw(st.sampled_from(["swe", "swe", "network", "scalar"]))
    n = draw(gen.mesh_size(2, 12, 30))
    case = {"start": draw(st.sampled_from([0.0, 1.5])), **draw(gen.domain())}
    if kind == "scalar":
        case["problem"] = draw(st.sampled_from(["advection", "burgers"]))
        value = draw(gen.scalar_value())
        case["scheme"] = draw(st.sampled_from(list(bench.SCALAR_FV)))
        conditions = ["outflow", "inflow"]
    else:
        case["problem"] = "shallow_water"
        case["g"] = draw(gen.gravity())
        if kind == "network":
            n = max(n, 4)
            case["scheme"] = draw(st.sampled_from(NETWORK))
            h = draw(gen.grid_float(0.5, 4))
            value = [h, h * draw(gen.signed(3))]
        else:
            case["scheme"] = draw(st.sampled_from(SWE))
            value = draw(state())
        if case["scheme"].startswith("coarse"):
            n *= int(case["scheme"].split(":")[1])
        conditions = ["outflow", "inflow"]
        if draw(st.integers(0, 3)) == 0:
            value = [value[0], 0.0]
            conditions.append("wall")
            conditions.append("wall")
        case["bottom"] = [draw(st.sampled_from([0.0, -1.5, 3.0, 0.1]))] * n
    case["values"] = [value] * n
    if draw(st.booleans()):
        case["bc"] = ["periodic"]
    else:
        case["bc"] = [draw(st.sampled_from(conditions)), draw(st.sampled_from(conditions))]
        for side, condition in zip(("left", "right"), case["bc"]):
            if condition == "inflow":
                case[side] = [value, [0.0, 0.0] if kind != "scalar" else 0.0]
    case["integrator"] = draw(st.sampled_from(bench.INTEGRATOR_NAMES))
    case["steps"] = draw(st.integers(1, 8))
    case["cfl"] = draw(st.sampled_from([0.1, 0.25, 0.5]))
    if "reduced" in case["scheme"]:
        # networks have single precision and amplify their rounding errors
        case["integrator"], case["steps"] = "euler", 1
    return case


@check.facet("uniform states", uniform_cases(), quick=5000, thorough=150000)
def uniform(case):
    value = np.array(case["values"][0], dtype=float)
    lam = speed(case, case["values"][0])
    if case["scheme"].startswith("antidiffusion"):
        # the correction amplifies rounding errors for larger steps
        lam = max(lam, 1.0 / bench.cell_size(case))
    dt = case["cfl"] * bench.cell_size(case) / lam
    solver = bench.run(case, case["scheme"], dt, case["steps"], case["integrator"])
    history = solver.solution.value_history
    size = np.abs(flux(case, case["values"][0])).reshape(value.shape)
    if case["problem"] == "shallow_water":
        size = size + lam * np.array([value[0], abs(value[1]) + lam * value[0]])
    else:
        size = size + lam * np.abs(value)
    ratio = dt / bench.cell_size(case)
    relative = 1e-11
    if "reduced" in case["scheme"]:
        relative = 1e-5
        size = np.ones(2) * (size.max() + 1)
    tolerance = relative * (np.abs(value) + len(history) * ratio * size) + 1e-14
    require(len(history) >= 2, "the run has at least one step")
    for k, values in enumerate(history):
        close(
            values, np.broadcast_to(value, values.shape), tolerance,
            f"uniform state changes with {case['scheme']}", step=k, bc=case["bc"],
        )
    moving = bool(np.abs(flux(case, case["values"][0])).max() > 0)
    return moving, [case["scheme"].split(":")[0], "/".join(sorted(set(case["bc"])))]


@st.composite
def plateau_cases(draw):
    case = {"start": draw(st.sampled_from([0.0, -1.0])), **draw(gen.domain())}
    left, right = draw(st.integers(5, 8)), draw(st.integers(5, 8))
    if draw(st.integers(0, 3)):
        case["problem"] = "shallow_water"
        case["g"] = draw(gen.gravity())
        scheme = draw(st.sampled_from([s for s in SWE if not s.startswith("coarse")]))
        a, b = draw(state()), draw(state())
        if max(a[0], b[0]) > 1e3 * min(a[0], b[0]):
            b = [a[0] * 2, b[1] / b[0] * 2 * a[0]]
        case["bottom"] = [draw(st.sampled_from([0.0, 2.0]))] * (left + right)
    else:
        case["problem"] = draw(st.sampled_from(["advection", "burgers"]))
        scheme = draw(st.sampled_from(list(bench.SCALAR_FV)))
        a, b = draw(gen.scalar_value()), draw(gen.scalar_value())
    case["values"] = [a] * left + [b] * right
    case["jump"] = left
    case["scheme"] = scheme
    case["bc"] = [draw(st.sampled_from(["outflow", "inflow"])), draw(st.sampled_from(["outflow", "inflow"]))]
    zero = [0.0, 0.0] if case["problem"] == "shallow_water" else 0.0
    for side, condition, value in zip(("left", "right"), case["bc"], (a, b)):
        if condition == "inflow":
            case[side] = [value, zero]
    case["cfl"] = draw(st.sampled_from([0.25, 1.0]))
    return case


@check.facet(
    "flux consistency", plateau_cases(), quick=4000, thorough=120000,
    rule="two plateaus, of which each is at least five cells wide; one forward Euler step changes the totals by the"
    " difference of the physical fluxes and nothing away from the jump",
)
def consistency(case):
    a, b = case["values"][0], case["values"][-1]
    lam = speed(case, a, b)
    dx = bench.cell_size(case)
    dt = case["cfl"] * dx / lam
    before, after = bench.one_step(case, case["scheme"], dt)
    fa, fb = flux(case, a), flux(case, b)
    change = np.array([math.fsum(x) for x in np.atleast_2d((after - before).T)])
    n = len(before)
    if case["problem"] == "shallow_water":
        h = max(a[0], b[0])
        size = np.array([lam * h, lam * lam * h])
    else:
        size = np.array([lam * max(abs(a), abs(b))])
    tolerance = 1e-11 * (n * np.abs(before).max(axis=0) + n * dt / dx * (size + np.abs(fa) + np.abs(fb)))
    antidiffusion = 2.0 / dx if case["scheme"].startswith("antidiffusion") else 0.0
    tolerance = tolerance + 1e-11 * n * dt / dx * antidiffusion * np.abs(before).max(axis=0)
    if case["scheme"] == "es1":
        # its diffusion acts on entropy variables and amplifies the rounding of fast shallow states
        froude = lam**2 / (case["g"] * min(a[0], b[0]))
        tolerance = tolerance + 1e-14 * n * dt / dx * froude * size
    # the totals are sums of possibly large changes at the jump
    tolerance = tolerance + 1e-13 * n * np.abs(after - before).max(axis=0)
    close(
        change, dt / dx * (fa - fb), tolerance,
        f"total changes by another amount than the fluxes of {case['scheme']} in the outer states",
        bc=case["bc"],
    )
    j = case["jump"]
    for part in (slice(0, j - 3), slice(j + 3, n)):
        close(after[part], before[part], tolerance, f"a plateau changes away from the jump with {case['scheme']}")
    return bool(np.abs(fa - fb).max() > 1e-9), [case["scheme"].split(":")[0]]


@st.composite
def element_cases(draw):
    case = draw(feref.problem(degrees=(1, 1, 2, 2, 3, 4, 5, 7), high=6))
    case["values"] = [draw(gen.scalar_value())] * len(case["values"])
    case["scheme"] = draw(st.sampled_from(feref.SCHEMES))
    case["integrator"] = draw(st.sampled_from(bench.INTEGRATOR_NAMES))
    case["exact"] = draw(st.booleans())
    case["adaptive"] = draw(st.booleans())
    case["cfl"] = draw(st.sampled_from([0.1, 0.5]))
    case["steps"] = draw(st.integers(1, 3))
    return case


@check.facet("uniform finite elements", element_cases(), quick=600, thorough=15000, rule="the value is not zero")
def uniform_elements(case):
    space = feref.space_of(case)
    value = case["values"][0]
    lam = 1.0 if case["problem"] == "advection" else max(abs(value), 1e-3)
    if case["scheme"] == "cg":
        case = dict(case, cfl=case["cfl"] / lam / case["degree"] ** 2)
    step = space.size / lam / case["degree"] ** 2
    solver = feref.build(case, case["start"] + case["steps"] * case["cfl"] * step)
    feref.solve(solver)
    tolerance = 1e-11 * {1: 1, 2: 2, 3: 8, 4: 50, 5: 500, 6: 5e3, 7: 5e4}[case["degree"]]
    tolerance += 1e-13 * (abs(case["a"]) + case["L"]) / space.size
    for values in solver.solution.value_history:
        close(values, np.full(space.n, value), tolerance * abs(value), "uniform finite element solution changes")
    return value != 0, [case["scheme"], case["problem"], f"degree {case['degree']}"]
