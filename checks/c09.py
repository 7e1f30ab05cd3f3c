"""Every scheme computes its published update."""
import numpy as np
from hypothesis import strategies as st

import core
import finite_volume
import finite_volume.shallow_water.solver as swe
from finite_volume.shallow_water.solver.energy_stable import EnergyStableFlux, FirstOrderDiffusiveEnergyStableFlux
from finite_volume.shallow_water.solver.lax_wendroff import LaxWendroffFlux
from finite_volume.shallow_water.solver.low_order import LowOrderFlux
from finite_volume.shallow_water.solver.mcl import MCLFlux
from pbt import bench, feref, fvref, gen, netref
from pbt.runner import Check, close, require

check = Check(
    "C09",
    rule="A case is a mesh with cell values, bottom, gravity, boundary data and a scheme; one"
    " forward Euler step of the public solver is compared with a face by face reference."
    " Non-trivial: the update differs from zero.",
    assumptions=[
        "heights are positive",
        "the bottom of periodic problems has equal values in the first and last cell",
        "Lax-Wendroff is used over a flat bottom",
    ],
)

FLUXES = ["central", "es", "es1", "llf", "low-order"]
SWE = ["llf", "low-order", "central", "es", "es1", "lw", "mcl"]


@st.composite
def cases(draw, schemes):
    scheme = draw(schemes)
    flat = True if scheme == "lw" else None
    case = draw(gen.swe_problem(flat=flat))
    case["scheme"] = scheme
    case["dt"] = draw(st.sampled_from([1.0, 0.5]))
    return case


def compare(case, reference, tolerance=1e-9):
    dt = case["dt"]
    before, after = bench.one_step(case, case["scheme"], dt)
    # ground truth for the projected initial data
    close(before, case["values"], 1e-12 * (1 + np.abs(case["values"])), "cell averages of initial data")
    rhs, size = reference(case.get("start", 0.0), before)
    scale = size + np.abs(before) / dt
    if not np.isfinite(size).all() or size.max() > 1e12:
        return None
    if "reduced" in case["scheme"]:
        # networks are evaluated with single precision
        scale = scale.max()
    close(
        (after - before) / dt,
        rhs,
        tolerance * scale + 1e-13,
        f"update of {case['scheme']} differs from its formula",
        bc=case["bc"],
    )
    return rhs


def classify(case, rhs):
    tags = [case["scheme"].split(":")[0], "/".join(sorted(set(case["bc"])))]
    if case["problem"] == "shallow_water":
        tags.append("flat" if bench.is_flat(case) else "bottom")
    return bool(np.abs(rhs).max() > 1e-8), tags


def decide(case):
    reference = fvref.reference(case, case["scheme"], network=netref.predict, time_step=case["dt"])
    if case["problem"] == "shallow_water" and ill_conditioned(case, reference):
        return False, ["ill conditioned"]
    rhs = compare(case, reference, 2e-5 if "reduced" in case["scheme"] else 1e-9)
    if rhs is None:
        return False, ["huge"]
    return classify(case, rhs)


def ill_conditioned(case, reference):
    if "mcl" not in case["scheme"] and "low-order" not in case["scheme"]:
        return False
    data = reference.low_order(case.get("start", 0.0), case["values"])
    return any(
        min(d["bar"][0], d["star_l"][0] + d["star_r"][0]) < 1e-6 * (d["l"][0] + d["r"][0]) for d in data
    )


@check.facet("shallow water schemes", cases(st.sampled_from(SWE)), quick=2400, thorough=60000)
def basic(case):
    return decide(case)


@check.facet("limited schemes", cases(st.sampled_from(["mcl:" + f for f in FLUXES])), quick=2400, thorough=60000)
def limited(case):
    return decide(case)


@check.facet(
    "antidiffusive schemes",
    cases(st.tuples(st.sampled_from(FLUXES), st.sampled_from(["0.0", "0.1", "0.5", "2.0"])).map(
        lambda t: f"antidiffusion:{t[0]}:{t[1]}") | st.just("antidiffusion")),
    quick=400, thorough=10000,
)
def antidiffusion(case):
    return decide(case)


@st.composite
def network_cases(draw):
    # the networks are trained for depths and velocities around 2 and 1
    scheme = draw(st.sampled_from(["reduced-llf", "reduced-llf-2", "mcl:reduced-llf", "antidiffusion:reduced-llf:0.1"]))
    boundaries = ("periodic", "outflow", "wall", "inflow")
    case = draw(gen.swe_problem(low=4, boundaries=boundaries, heights=gen.grid_float(0.5, 4), velocities=gen.signed(3)))
    case["scheme"] = scheme
    case["dt"] = 1.0
    return case


@check.facet("network corrected schemes", network_cases(), quick=240, thorough=6000)
def network(case):
    return decide(case)


@st.composite
def scalar_cases(draw):
    case = draw(gen.scalar_problem())
    case["scheme"] = draw(st.sampled_from(["llf", "central", "mcl-fv", "mcl-fv"]))
    case["dt"] = draw(st.sampled_from([1.0, 0.5]))
    return case


@check.facet("scalar schemes", scalar_cases(), quick=2400, thorough=60000)
def scalar(case):
    return decide(case)


@st.composite
def run_cases(draw):
    if draw(st.booleans()):
        scheme = draw(st.sampled_from(["llf", "lw", "lw", "low-order", "central", "es", "es1", "mcl", "mcl:es", "mcl:llf", "antidiffusion:llf:0.1"]))
        case = draw(
            gen.swe_problem(
                low=3, high=8, large=16, heights=gen.grid_float(1, 3), velocities=gen.signed(2),
                flat=True if scheme in ("llf", "lw") else None, gravities=gen.grid_float(0.5, 10, 8),
            )
        )
        case["bottom"] = [0.25 * b for b in case["bottom"]]
    else:
        case = draw(gen.scalar_problem(low=3, high=8, large=16))
        scheme = draw(st.sampled_from(["llf", "central", "mcl-fv"]))
    case["scheme"] = scheme
    case["integrator"] = "euler" if scheme == "lw" else draw(st.sampled_from(bench.INTEGRATOR_NAMES))
    # the last step is shorter
    case["steps"] = draw(st.integers(1, 5)) + draw(st.sampled_from([0.0, 0.25, 0.5, 0.875]))
    case["cfl"] = draw(st.sampled_from([0.1, 0.25]))
    n = len(case["values"])
    shift = draw(st.one_of(st.none(), st.integers(0, n - 1)))
    # initial data of a second run of the same solver
    case["again"] = None if shift is None else [draw(st.sampled_from([1.0, 1.25])), shift]
    return case


@check.facet(
    "runs", run_cases(), quick=800, thorough=20000,
    rule="several steps of a strong stability preserving integrator, the last of which may be shorter, and after"
    " reinitialising; each accepted state is compared with the reference step from the state before",
)
def runs(case):
    reference = fvref.reference(case, case["scheme"])
    speed = bench.case_speed(case, 0.0) + (2.0 if case["problem"] == "shallow_water" else 0.5)
    dt = case["cfl"] * bench.cell_size(case) / speed
    nontrivial = False
    try:
        solver = bench.run(case, case["scheme"], dt, case["steps"], case["integrator"])
        nontrivial |= bool(compare_run(case, solver, reference))
        if case["again"]:
            factor, shift = case["again"]
            values = (factor * np.roll(np.array(case["values"]), shift, axis=0)).tolist()
            end_time = case.get("start", 0.0) + case["steps"] * dt
            solver.reinitialize(bench.make_benchmark(dict(case, values=values), end_time))
            bench.solve(solver)
            nontrivial |= bool(compare_run(case, solver, reference))
    except ValueError as error:
        # negative heights and non-finite values are refused
        if "negative" in str(error) or "finite" in str(error):
            return False, ["refused"]
        raise
    return nontrivial, [case["scheme"], case["integrator"], "shorter last step" if case["steps"] % 1 else "equal steps"] + (["again"] if case["again"] else [])


def compare_run(case, solver, reference):
    times, values = solver.solution.time_history, solver.solution.value_history
    for k in range(len(times) - 1):
        step = times[k + 1] - times[k]
        reference.time_step = step
        sizes = []

        def rhs(time, value):
            result, size = reference(time, value)
            sizes.append(size)
            return result

        if case["problem"] == "shallow_water" and (values[k][:, 0] < 1e-3).any():
            return False
        try:
            expected = fvref.integrate(rhs, times[k], values[k], step, case["integrator"])
        except (ValueError, ZeroDivisionError, OverflowError):
            # an intermediate state is dry
            return False
        scale = step * np.max(sizes, axis=0) + np.abs(values[k])
        close(values[k + 1], expected, 1e-8 * scale.max() + 1e-12, f"step {k} of {case['scheme']}", bc=case["bc"])
    return len(times) > 2


@st.composite
def element_cases(draw, degrees=(1, 1, 2, 2, 3, 4)):
    case = draw(feref.problem(degrees=degrees, high=9))
    case["scheme"] = draw(st.sampled_from(["cg", "cg-low", "mcl-fem", "mcl-fem"]))
    case["integrator"] = draw(st.sampled_from(bench.INTEGRATOR_NAMES))
    case["exact"] = draw(st.booleans())
    case["adaptive"] = draw(st.booleans())
    case["cfl"] = draw(st.sampled_from([0.1, 0.25, 0.5]))
    case["steps"] = draw(st.integers(1, 3)) + draw(st.sampled_from([0.0, 0.25, 0.75]))
    case["second"] = draw(gen.scalar_values(len(case["values"])))
    return case


@check.facet("finite element schemes", element_cases(), quick=1200, thorough=30000)
def elements(case):
    """Rates of change of nodal values."""
    space = feref.space_of(case)
    solver = feref.build(case, case["start"] + 1.0)
    reference = feref.right_hand_side(space, case["problem"], case["scheme"], case["exact"])
    moving = False
    inverse = np.abs(np.linalg.inv(space.mass)).sum(axis=1).max() if case["scheme"] == "cg" else 1 / space.lumped.min()
    rounding = 1e-12 * {1: 1, 2: 4, 3: 20, 4: 200}[case["degree"]]
    rounding += 1e-14 * (abs(case["a"]) + case["L"]) / space.size
    for values in (case["values"], case["second"], case["values"]):
        u = np.array(values)
        scale = inverse * (np.abs(u).max() + np.abs(u).max() ** 2) * case["degree"] ** 2 + 1e-290
        expected = reference(0.0, u)
        actual = np.asarray(solver._right_hand_side(case["start"], u.copy()))
        close(actual, expected, rounding * scale, f"rate of change of {case['scheme']}", degree=case["degree"])
        moving = moving or np.abs(expected).max() > 1e-8
    return moving, [case["scheme"], case["problem"], f"degree {case['degree']}"]


@check.facet("finite element runs", element_cases(degrees=(1, 1, 2)), quick=600, thorough=15000, rule="at least two steps")
def element_runs(case):
    space = feref.space_of(case)
    integrator = case["integrator"]
    values = np.array(case["values"])
    speed = 1.0 if case["problem"] == "advection" else max(np.abs(values).max(), 0.1)
    if case["scheme"] == "cg":
        integrator = {1: "heun", 2: "ssp3"}[case["degree"]]
        case = dict(case, cfl=case["cfl"] / speed)
        step = case["cfl"] * space.size
    else:
        if case["problem"] == "burgers" and np.abs(values).max() < 1e-6:
            return False
        step = case["cfl"] * space.optimal_step(case["problem"], values)
    solver = feref.build(case, case["start"] + case["steps"] * step)
    try:
        feref.solve(solver)
    except ValueError as error:
        if "finite" in str(error):
            return False, ["refused"]
        raise
    reference = feref.right_hand_side(space, case["problem"], case["scheme"], case["exact"])
    times, history = solver.solution.time_history, solver.solution.value_history
    rounding = 1e-10 + 1e-13 * (abs(case["a"]) + case["L"]) / space.size + 1e-13 * abs(case["start"]) / step
    for k in range(len(times) - 1):
        expected = fvref.integrate(reference, times[k], history[k], times[k + 1] - times[k], integrator)
        size = np.abs(history[k]).max() + np.abs(expected).max()
        close(history[k + 1], expected, rounding * size + 1e-290, f"step {k} of {case['scheme']}")
    return len(times) > 2, [case["scheme"], integrator]


################################################################################
# larger meshes
################################################################################
@check.facet(
    "larger meshes",
    gen.large(
        st.one_of(
            cases(st.sampled_from(SWE)),
            cases(st.sampled_from(["mcl:" + f for f in FLUXES])),
            scalar_cases(),
            network_cases(),
        )
    ),
    quick=400, thorough=12000, rule="meshes of up to 300 cells",
)
def larger(case):
    return decide(case)


@check.facet("finite elements on larger meshes", feref.large(element_cases()), quick=100, thorough=3000, rule="meshes of up to sixty cells")
def larger_elements(case):
    return elements(case)


################################################################################
# composed fluxes
################################################################################
class Weighted(finite_volume.NumericalFlux):
    """Flux of known weights, which reuses its arrays."""

    def __init__(self, weights, shape, reuse):
        self.weights = weights
        self.input_dimension = len(weights)
        self.arrays = [np.zeros(shape), np.zeros(shape)] if reuse else None

    def __call__(self, *values):
        require(len(values) == len(self.weights), "number of values passed to a flux", actual=len(values), expected=len(self.weights))
        result = sum(w * v for w, v in zip(self.weights, values))
        if self.arrays is None:
            return -result, 2 * result
        self.arrays[0][...], self.arrays[1][...] = -result, 2 * result
        return tuple(self.arrays)


@st.composite
def composed_cases(draw):
    weights = lambda: draw(st.lists(gen.signed(2), min_size=1, max_size=4).map(lambda w: w + w[::-1] if len(w) % 2 else w + [1.0] * len(w)))
    return {
        "first": weights(), "second": weights(), "more": draw(st.integers(0, 3)), "n": draw(st.integers(1, 6)),
        "components": draw(st.sampled_from([None, 1, 2, 3])), "calls": draw(st.integers(1, 5)), "seed": draw(st.integers(0, 2**20)),
        "reuse": draw(st.booleans()), "gamma": draw(gen.signed(2)), "step": draw(gen.grid_float(1 / 16, 4)),
    }


@check.facet("composed fluxes", composed_cases(), quick=800, thorough=20000, rule="the fluxes differ in their numbers of values or are called more than once")
def composed(case):
    """Sums, restrictions and records of fluxes of several values."""
    first, second = case["first"], case["second"]
    shape = (case["n"],) if case["components"] is None else (case["n"], case["components"])
    wide = max(len(first), len(second))
    rng = np.random.default_rng(case["seed"])
    inner = lambda weights, values: sum(w * v for w, v in zip(weights, values[(len(values) - len(weights)) // 2 :]))
    recorded = finite_volume.NumericalFluxWithHistory(Weighted(first, shape, case["reuse"]))
    some = finite_volume.NumericalFluxWithArbitraryInput(Weighted(first, shape, False))
    total = finite_volume.CorrectedNumericalFlux(Weighted(first, shape, False), Weighted(second, shape, False))
    linear = finite_volume.LinearAntidiffusiveFlux(case["gamma"], case["step"])
    require(recorded.input_dimension == len(first) == some.input_dimension, "number of values of a flux")
    require(total.input_dimension == wide, "number of values of a corrected flux", actual=total.input_dimension, expected=wide)
    expected = []
    for _ in range(case["calls"]):
        values = [rng.integers(-64, 64, shape) / 16 for _ in range(wide + 2 * case["more"])]
        passed = [v.copy() for v in values]
        one = inner(first, values)
        for name, result, reference in (
            ("restricted flux", some(*values), (-one, 2 * one)),
            ("corrected flux", total(*values), (-one - inner(second, values), 2 * one + 2 * inner(second, values))),
            ("antidiffusive flux", linear(values[0], values[1]), (
                case["gamma"] * (values[0] - values[1]) / case["step"], case["gamma"] * (values[1] - values[0]) / case["step"])),
        ):
            close(result[0], reference[0], 1e-12 * (1 + np.abs(reference[0])), name + " to the left")
            close(result[1], reference[1], 1e-12 * (1 + np.abs(reference[1])), name + " to the right")
        delta = (len(values) - len(first)) // 2
        central = values[delta : len(values) - delta]
        result = recorded(*central)
        close(result[0], -one, 1e-12 * (1 + np.abs(one)), "recorded flux to the left")
        close(result[1], 2 * one, 1e-12 * (1 + np.abs(one)), "recorded flux to the right")
        expected.append(one)
        close(recorded.flux_left_history, [-e for e in expected], 1e-12 * (1 + np.abs(expected)), "record of fluxes to the left")
        close(recorded.flux_right_history, [2 * e for e in expected], 1e-12 * (1 + np.abs(expected)), "record of fluxes to the right")
        close(values, passed, 0, "values passed to fluxes are changed")
        cells = finite_volume.get_dof_vector(*values)
        close(cells, [*values[0], *[v[-1] for v in values[1:]]], 0, "cells of values around faces")
    try:
        some(*values[: len(first) - 1])
    except AssertionError:
        pass
    else:
        require(False, "too few values are accepted")
    return len(first) != len(second) or case["calls"] > 1, [f"{len(first)} and {len(second)} values"]


# fluxes over a given bottom ###################################################
@st.composite
def bottom_cases(draw):
    case = draw(gen.swe_problem())
    case["scheme"] = draw(st.sampled_from(FLUXES + ["lw", "mcl"] + ["mcl:" + f for f in FLUXES]))
    case["other"] = draw(st.sampled_from(["flat", "reversed", "shifted"]))
    return case


def getter_of(name):
    kind, *options = name.split(":")
    getters = swe.SHALLOW_WATER_FLUX_GETTER
    if kind == "mcl":
        return swe.MCLFluxGetter(*[getters[o] for o in options])
    return swe.LaxWendroffFluxGetter() if kind == "lw" else getters[kind]


@check.facet("given bottom", bottom_cases(), quick=1200, thorough=30000, rule="the given bottom is not constant")
def given_bottom(case):
    """A bottom passed to the constructors of fluxes replaces the one of the benchmark."""
    values = np.array(case["values"], dtype=float)
    n = len(values)
    bottom = np.array(case.get("bottom") or [0.0] * n)
    other = {"flat": [0.0] * n, "reversed": bottom[::-1].tolist(), "shifted": (bottom[::-1] + 1.0).tolist()}[case["other"]]
    own = bench.make_benchmark(case, 1.0 + case.get("start", 0.0))
    foreign = bench.make_benchmark(dict(case, bottom=other), 1.0 + case.get("start", 0.0))
    space = finite_volume.FiniteVolumeSpace(core.UniformMesh(own.domain, n))
    padded = np.array([values[0], *values, values[-1]])
    given = bottom.copy()
    with np.errstate(all="ignore"):
        expected = getter_of(case["scheme"])(own, space)(padded[:-1].copy(), padded[1:].copy())
        actual = getter_of(case["scheme"])(foreign, space, bathymetry=given)(padded[:-1].copy(), padded[1:].copy())
    require((given == bottom).all(), "the given bottom is changed")
    for side, a, e in zip(("left", "right"), actual, expected):
        # the bottom of a benchmark is averaged with rounding errors
        size = np.max(np.abs(e[np.isfinite(e)]), initial=0.0) + case["g"] * np.max(np.abs(values[:, 0])) * (np.max(np.abs(bottom)) + np.max(np.abs(values[:, 0])))
        require((np.isfinite(a) == np.isfinite(e)).all(), f"flux to the {side} is undefined", scheme=case["scheme"])
        good = np.isfinite(e)
        close(a[good], e[good], 1e-9 * size + 1e-13, f"flux to the {side} over a given bottom", scheme=case["scheme"])
    return len(set(bottom)) > 1, [case["scheme"].split(":")[0]]


# arguments left out ###########################################################
@st.composite
def default_cases(draw):
    kind = draw(st.sampled_from(["swe", "swe", "scalar", "element"]))
    if kind == "swe":
        case = draw(cases(st.sampled_from(SWE + ["antidiffusion"] + ["mcl:" + f for f in FLUXES])))
        case["g"] = DEFAULT_GRAVITY if draw(st.booleans()) else case["g"]
    elif kind == "scalar":
        case = draw(scalar_cases())
    else:
        case = draw(feref.problem(degrees=(1, 1, 2)))
        case["scheme"] = draw(st.sampled_from(["cg-low", "mcl-fem"]))
    case["kind"] = kind
    case["steps"] = draw(st.sampled_from([1.0, 1.5, 2.25]))
    case["given"] = draw(st.lists(st.booleans(), min_size=3, max_size=3))
    return case


DEFAULT_GRAVITY = 9.812
DEFAULT_CFL = 0.1


def default_fluxes(values, gravity, step):
    """Fluxes with an optional gravity over a bottom."""
    bottom = np.cos(np.arange(len(values) - 2))
    arguments = {} if gravity is None else {"gravitational_acceleration": gravity}
    energy = lambda: EnergyStableFlux(**arguments)
    lax_wendroff = LaxWendroffFlux(step, **arguments)
    lax_wendroff.set_time_step(step / 8)
    return {
        "source": finite_volume.shallow_water.NumericalFlux(EnergyStableFlux(2.0), bathymetry=bottom, **arguments),
        "low order": LowOrderFlux(bathymetry=bottom, **arguments),
        "energy conservative": energy(),
        "energy stable": FirstOrderDiffusiveEnergyStableFlux(bathymetry=bottom, **arguments),
        "Lax-Wendroff": lax_wendroff,
        "limited": MCLFlux(EnergyStableFlux(2.0), bathymetry=bottom, **arguments),
    }


@check.facet("left out arguments", default_cases(), quick=800, thorough=20000, rule="at least one step changes the values")
def left_out(case):
    """Constructors without gravity, CFL number or integrator use the documented ones."""
    from checks.c23 import outcome, same

    if case["kind"] == "element":
        space = feref.space_of(case)
        step = min(space.optimal_step(case["problem"], np.array(case["values"])), 1.0)
        size = step if np.isfinite(step) else 1.0
        benchmark = feref.make_benchmark(case, case["start"] + case["steps"] * DEFAULT_CFL * size)
        constructor = feref.SOLVERS[case["scheme"]]
        arguments = {"mesh_size": space.cells, "polynomial_degree": case["degree"]}
    else:
        size = bench.cell_size(case)
        benchmark = bench.make_benchmark(case, case.get("start", 0.0) + case["steps"] * DEFAULT_CFL * size)
        constructor = bench.solver_class(case["problem"], case["scheme"])
        arguments = {"mesh_size": len(case["values"])}
    explicit = {"cfl_number": DEFAULT_CFL, "save_history": False}
    if case["scheme"] != "lw":
        explicit["ode_solver_type"] = bench.INTEGRATORS["heun"]
    given = {k: v for (k, v), g in zip(explicit.items(), case["given"]) if g}
    with np.errstate(all="ignore"):
        expected = outcome(constructor(benchmark, **arguments, **explicit))
        same(outcome(constructor(benchmark, **arguments, **given)), expected, f"{case['scheme']} with {sorted(given)} only")
    if case["kind"] == "swe":
        values = np.array([case["values"][0], *case["values"], case["values"][-1]], dtype=float)
        chosen, usual = default_fluxes(values, None, size), default_fluxes(values, DEFAULT_GRAVITY, size)
        with np.errstate(all="ignore"):
            for name in usual:
                for a, e in zip(chosen[name](values[:-1], values[1:]), usual[name](values[:-1], values[1:])):
                    scale = np.max(np.abs(e[np.isfinite(e)]), initial=0.0)
                    require(np.array_equal(np.isfinite(a), np.isfinite(e)), f"{name} flux without gravity is undefined")
                    close(a[np.isfinite(e)], e[np.isfinite(e)], 1e-12 * scale, f"{name} flux without gravity")
    initial = np.asarray(case["values"], dtype=float)
    moved = np.shape(expected["value"]) == initial.shape and not np.array_equal(expected["value"], initial)
    return moved and len(given) < len(explicit), [case["kind"], case["scheme"].split(":")[0]]
