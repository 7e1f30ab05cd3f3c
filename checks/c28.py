"""Computed solutions converge to the exact ones at the design order."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

import core
import core.benchmark
from benchmark.shallow_water import ShallowWaterBenchmark
from pbt import bench, exact, feref, gen
from pbt.runner import Check, require

check = Check(
    "C28",
    rule="A case is an exact solution (transported or steepening waves, simple waves of the shallow water equations, steady"
    " flow over a bottom, Riemann problems) with random shape, domain, gravity and boundary, and a scheme with an"
    " integrator, run on a sequence of refined meshes. Exact solutions are computed independently (characteristics,"
    " Bernoulli's equation, Riemann solver). The mean error has to decrease with the order of the scheme. Non-trivial:"
    " the solution moves by at least one cell of the coarsest mesh and the error is larger than rounding.",
    assumptions=["until 40 percent of the breaking time", "waves are resolved by the coarsest mesh"],
)
# orders are observed slightly below the asymptotic ones on coarse meshes
FIRST = 0.7
LIMITED = ["mcl-fv", "mcl", "mcl:es"]
CENTRAL = ["central", "es", "coarse:2:es"]


def make_benchmark(case, initial, end_time, bottom=None, left=None, right=None):
    """Benchmark with vectorised initial data and bottom."""
    shallow = case["problem"] == "shallow_water"
    base = ShallowWaterBenchmark if shallow else core.benchmark.Benchmark

    class SmoothBenchmark(base):
        problem = case["problem"]
        domain = core.Interval(case["a"], case["a"] + case["L"])
        start_time = case.get("start", 0.0)
        _boundary_conditions = "periodic" if left is None else (left[0], right[0])

        def __init__(self):
            self.end_time = end_time

        def initial_data(self, x):
            value = initial(np.array([float(x)]))[0]
            return value if shallow else float(value)

    if shallow:
        SmoothBenchmark.gravitational_acceleration = case["g"]
        SmoothBenchmark.bathymetry = lambda self, x: float(bottom(x)) if bottom else 0.0
    result = SmoothBenchmark()
    for name, side in (("inflow_left", left), ("inflow_right", right)):
        if side is not None and side[0] == "inflow":
            setattr(result, name, side[1])
    return result


def volume_solver(case, benchmark, n, cfl):
    arguments = {} if case["scheme"] == "lw" else {"ode_solver_type": bench.INTEGRATORS[case["integrator"]]}
    return bench.solver_class(case["problem"], case["scheme"])(benchmark, mesh_size=n, cfl_number=cfl, **arguments)


def solved(solver):
    with contextlib.redirect_stdout(io.StringIO()):
        solver.solve(disable=True)
    return solver.solution


def deviations(case, benchmark, reference, n, cfl):
    """Differences to the averages of the exact solution."""
    value = solved(volume_solver(case, benchmark, n, cfl)).value
    return value - exact.cell_averages(reference, case["a"], case["L"], len(value))


def judge(case, errors, order, cells_moved, floor=1e-8, label="error"):
    """Errors of successively halved meshes, relative to the size of the
    solution. The order is the mean one of all refinements.

    """
    observed = np.log2(errors[0] / max(errors[-1], 1e-300)) / (len(errors) - 1)
    if min(errors) > floor:
        require(
            observed >= order, f"{label} does not decrease with the order of the scheme", errors=list(errors), observed=observed,
            required=order, scheme=case["scheme"],
        )
    return cells_moved >= 1 and errors[-1] > floor


# waves ########################################################################
@st.composite
def waves(draw):
    return {
        **draw(gen.domain()),
        "k": draw(st.sampled_from([1, 1, 2])),
        "phase": draw(st.integers(0, 63)) / 64,
        "start": draw(st.sampled_from([0.0, 0.0, 1.5, -2.0])),
        "integrator": draw(st.sampled_from(["heun", "ssp3", "heun", "ssp3", "euler"])),
        "courant": draw(st.sampled_from([0.1, 0.2, 0.3])),
        "time": draw(gen.grid_float(0.125, 0.375)),
    }


@st.composite
def scalar_waves(draw):
    case = draw(waves())
    case["problem"] = draw(st.sampled_from(["advection", "burgers"]))
    case["scheme"] = draw(st.sampled_from(["llf", "mcl-fv", "central"]))
    if case["scheme"] in LIMITED + CENTRAL and case["integrator"] == "euler":
        case["integrator"] = "heun"
    case["mean"] = draw(gen.signed(2, 8))
    case["amplitude"] = draw(gen.grid_float(0.125, 1, 8))
    return case


def scalar_solution(case):
    """Exact solution and its speed."""
    profile, steepness = exact.wave(case)
    low, high = case["mean"] - case["amplitude"], case["mean"] + case["amplitude"]
    if case["problem"] == "advection":
        return (lambda x, t: profile(np.asarray(x) - t)), 1.0, case["time"] * case["L"] / case["k"] / 2
    return (lambda x, t: exact.transport(profile, low, high, steepness, x, t)), max(abs(low), abs(high)), case["time"] / steepness


def expected_order(case):
    """Orders of the mean error and of the error away from extrema."""
    kind = case["scheme"]
    if kind in LIMITED:
        return 1.2, 1.1
    if kind in CENTRAL:
        return 1.8, 1.6
    return FIRST, None


@check.facet("scalar waves", scalar_waves(), quick=400, thorough=8000)
def scalar(case):
    solution, speed, duration = scalar_solution(case)
    end = case["start"] + duration
    base = 32 * case["k"]
    errors, inner = [], []
    for n in (base, 2 * base, 4 * base):
        benchmark = make_benchmark(case, lambda x: solution(x, 0.0), end)
        difference = deviations(case, benchmark, lambda x: solution(x, duration), n, case["courant"] / speed)
        errors.append(np.mean(np.abs(difference)) / case["amplitude"])
        inner.append(away_from_extrema(case, difference, solution, duration) / case["amplitude"])
    order, local = expected_order(case)
    nontrivial = judge(case, errors, order, speed * duration / case["L"] * base)
    if local:
        judge(case, inner, local, 0, label="error away from extrema")
    return nontrivial, [case["problem"], case["scheme"], case["integrator"]]


def away_from_extrema(case, difference, solution, duration):
    """Mean error in the cells whose values are not close to an extremum."""
    n = len(difference)
    centers = case["a"] + case["L"] / n * (np.arange(n) + 0.5)
    values = solution(centers, duration)
    values = values if values.ndim == 1 else values[:, 0]
    low, high = values.min(), values.max()
    mask = np.abs(values - (low + high) / 2) < 0.3 * (high - low)
    size = np.abs(difference) if difference.ndim == 1 else np.abs(difference).max(axis=1)
    return np.mean(size[mask])


SHALLOW = ["llf", "lw", "low-order", "central", "es", "es1", "mcl", "mcl:es", "mcl:es1", "mcl:low-order", "coarse:2:es", "coarse:2"]


@st.composite
def shallow_waves(draw):
    case = draw(waves())
    case["problem"] = "shallow_water"
    case["scheme"] = draw(st.sampled_from(SHALLOW))
    if case["scheme"] in LIMITED + CENTRAL and case["integrator"] == "euler":
        case["integrator"] = "heun"
    case["g"] = draw(gen.gravity())
    case["depth"] = draw(gen.grid_float(0.5, 3, 8))
    case["froude"] = draw(gen.grid_float(-1.5, 1.5, 8))  # of the mean velocity
    case["size"] = draw(gen.grid_float(0.125, 0.5, 16))
    case["mirrored"] = draw(st.booleans())
    return case


def shallow_solution(case):
    """Simple wave with its speed, time and the scales of its components."""
    c = np.sqrt(case["g"] * case["depth"])
    invariant = (case["froude"] - 2) * c
    data = case | {"mean": invariant + 3 * c, "amplitude": case["size"] * c}
    profile, steepness = exact.wave(data)
    low, high = data["mean"] - data["amplitude"], data["mean"] + data["amplitude"]
    sign = -1.0 if case["mirrored"] else 1.0
    center = 2 * case["a"] + case["L"]

    def solution(x, t):
        x = np.asarray(x, dtype=float)
        x = center - x if case["mirrored"] else x
        state = exact.simple_wave(exact.transport(profile, low, high, steepness, x, t), invariant, case["g"])
        return state * np.array([1.0, sign])

    points = solution(np.linspace(case["a"], case["a"] + case["L"], 200), 0.0)
    speed = np.max(np.abs(points[:, 1] / points[:, 0]) + np.sqrt(case["g"] * points[:, 0]))
    scale = np.mean(np.abs(points - points.mean(axis=0)), axis=0)
    # the discharge may vary little
    scale[1] = max(scale[1], scale[0] * c)
    return solution, speed, case["time"] / steepness, scale


@check.facet("shallow water waves", shallow_waves(), quick=200, thorough=6000)
def shallow(case):
    solution, speed, duration, scale = shallow_solution(case)
    end = case["start"] + duration
    base = 32 * case["k"]
    errors, inner = [], []
    for n in (base, 2 * base, 4 * base):
        benchmark = make_benchmark(case, lambda x: solution(x, 0.0), end)
        difference = deviations(case, benchmark, lambda x: solution(x, duration), n, case["courant"] / speed) / scale
        errors.append(np.max(np.mean(np.abs(difference), axis=0)))
        inner.append(away_from_extrema(case, difference, solution, duration))
    order, local = expected_order(case)
    nontrivial = judge(case, errors, order, speed * duration / case["L"] * base)
    if local:
        judge(case, inner, local, 0, label="error away from extrema")
    return nontrivial, [case["scheme"], case["integrator"]]


# steady flow ##################################################################
@st.composite
def steady_flows(draw):
    case = {**draw(gen.domain()), "problem": "shallow_water", "g": draw(gen.gravity()), "depth": draw(gen.grid_float(0.5, 3, 8))}
    case["k"] = draw(st.sampled_from([1, 1, 2]))
    case["start"] = draw(st.sampled_from([0.0, 1.5, -2.0]))
    case["froude"] = draw(gen.signed(0.5, 16))
    case["bump"] = draw(gen.grid_float(0.03125, 0.125, 64)) * draw(st.sampled_from([-1, 1]))
    case["second"] = draw(st.sampled_from([0.0, 0.0, 0.25, -0.25]))
    case["scheme"] = draw(st.sampled_from(["low-order", "central", "es", "es1", "mcl", "mcl:es", "mcl:es1", "mcl:low-order", "coarse:2:es", "llf"]))
    case["integrator"] = draw(st.sampled_from(["heun", "ssp3"]))
    case["courant"] = draw(st.sampled_from([0.1, 0.2, 0.3]))
    case["time"] = draw(gen.grid_float(0.125, 0.75))
    case["open"] = draw(st.booleans())
    return case


@check.facet("steady flows", steady_flows(), quick=100, thorough=3000, rule="the flow does not vanish and waves pass one cell of the coarsest mesh")
def steady(case):
    g, depth = case["g"], case["depth"]
    q = case["froude"] * depth * np.sqrt(g * depth)
    head = q * q / 2 / depth**2 + g * depth
    angle = lambda x: 2 * np.pi * case["k"] * (np.asarray(x, dtype=float) - case["a"]) / case["L"]
    # symmetric to the boundaries, across which the bottom is continued constantly
    bottom = lambda x: case["bump"] * depth * (np.cos(angle(x)) + case["second"] * np.cos(2 * angle(x)))
    solution = lambda x: np.stack([exact.steady_depth(q, head, bottom(x), g), np.full(np.shape(x), q)], axis=-1)
    points = solution(np.linspace(case["a"], case["a"] + case["L"], 200))
    speed = np.max(np.abs(q / points[:, 0]) + np.sqrt(g * points[:, 0]))
    duration = case["time"] * case["L"] / case["k"] / speed
    errors = []
    base = 32 * case["k"]
    for n in (base, 2 * base, 4 * base):
        benchmark = make_benchmark(case, solution, case["start"] + duration, bottom=bottom)
        difference = deviations(case, benchmark, solution, n, case["courant"] / speed)
        errors.append(np.max(np.mean(np.abs(difference), axis=0) / np.array([depth, depth * speed])) / abs(case["bump"]))
    order = 1.8 if case["scheme"] in CENTRAL else 1.2 if case["scheme"] in LIMITED else FIRST
    return judge(case, errors, order, 32 * case["time"]) and q != 0, [case["scheme"]]


# open domains #################################################################
@st.composite
def open_waves(draw):
    case = draw(waves())
    case["problem"] = draw(st.sampled_from(["advection", "burgers", "shallow_water", "shallow_water"]))
    case["mirrored"] = False
    case["integrator"] = draw(st.sampled_from(["heun", "ssp3"]))
    case["size"] = draw(gen.grid_float(0.125, 0.5, 16))
    if case["problem"] == "shallow_water":
        case["scheme"] = draw(st.sampled_from(["llf", "low-order", "es1", "mcl", "mcl:es", "mcl:low-order", "coarse:2"]))
        case["g"] = draw(gen.gravity())
        case["depth"] = draw(gen.grid_float(0.5, 3, 8))
        case["froude"] = draw(gen.grid_float(2, 3, 8))
        case["mirrored"] = draw(st.booleans())
    else:
        case["scheme"] = draw(st.sampled_from(["llf", "mcl-fv"]))
        sign = 1 if case["problem"] == "advection" else draw(st.sampled_from([-1, 1]))
        case["amplitude"] = draw(gen.grid_float(0.125, 1, 8))
        case["mean"] = sign * (case["amplitude"] + draw(gen.grid_float(0.125, 1, 8)))
    return case


@check.facet("open domains", open_waves(), quick=100, thorough=4000, rule="the inflow passes one cell of the coarsest mesh")
def open_domain(case):
    a, b = case["a"], case["a"] + case["L"]
    if case["problem"] == "shallow_water":
        solution, speed, duration, scale = shallow_solution(case)
        backward = case["mirrored"]
        slowest = case["froude"] - 1 - case["size"]
        slowest *= np.sqrt(case["g"] * case["depth"])
    else:
        solution, speed, duration = scalar_solution(case)
        scale, backward = case["amplitude"], case["mean"] < 0 and case["problem"] == "burgers"
        slowest = 1.0 if case["problem"] == "advection" else abs(case["mean"]) - case["amplitude"]
    start = case["start"]

    def inflow(t):
        require(start - 1e-9 * max(1, abs(start)) <= t <= start + duration * (1 + 1e-9) + 1e-9, "inflow is evaluated outside the time interval", t=t)
        value = solution(np.array([b if backward else a]), t - start)[0]
        return value if case["problem"] == "shallow_water" else np.float64(value)

    sides = (("outflow",), ("inflow", inflow)) if backward else (("inflow", inflow), ("outflow",))
    errors = []
    base = 32 * case["k"]
    for n in (base, 2 * base, 4 * base):
        benchmark = make_benchmark(case, lambda x: solution(x, 0.0), start + duration, left=sides[0], right=sides[1])
        difference = deviations(case, benchmark, lambda x: solution(x, duration), n, case["courant"] / speed) / scale
        errors.append(np.max(np.mean(np.abs(difference), axis=0)))
    return judge(case, errors, 0.65, slowest * duration / case["L"] * base), [case["problem"], case["scheme"]]


# finite elements ##############################################################
@st.composite
def element_waves(draw):
    case = draw(waves())
    case["problem"] = draw(st.sampled_from(["advection", "burgers"]))
    case["scheme"] = draw(st.sampled_from(["cg", "cg", "cg-low", "mcl-fem"]))
    case["integrator"] = draw(st.sampled_from(["heun", "ssp3"]))
    case["degree"] = draw(st.integers(1, 5 if case["scheme"] == "cg" else 2))
    case["exact"] = draw(st.booleans()) if case["problem"] == "advection" or case["degree"] == 1 else False
    case["adaptive"] = draw(st.booleans())
    case["mean"] = draw(gen.signed(2, 8))
    case["amplitude"] = draw(gen.grid_float(0.125, 1, 8))
    case["k"] = 1
    return case


@check.facet("element waves", element_waves(), quick=160, thorough=3000)
def elements(case):
    solution, speed, duration = scalar_solution(case)
    degree = case["degree"]
    base = {1: 24, 2: 12, 3: 8, 4: 6, 5: 6}[degree]
    errors = []
    for cells in (base, 2 * base, 4 * base):
        benchmark = make_benchmark(case, lambda x: solution(x, 0.0), case["start"] + duration)
        arguments = {"mesh_size": cells, "polynomial_degree": degree}
        if case["scheme"] == "cg":
            arguments |= {"exact_flux": case["exact"], "cfl_number": case["courant"] / speed / degree**2}
        else:
            arguments |= {"adaptive": case["adaptive"], "ode_solver_type": bench.INTEGRATORS[case["integrator"]], "cfl_number": 2 * case["courant"]}
        result = solved(feref.SOLVERS[case["scheme"]](benchmark, save_history=True, **arguments))
        # oscillating parts of the error vanish at single times
        times, values = result.time_history, result.value_history
        chosen = sorted({round(i) for i in np.linspace(len(times) // 2, len(times) - 1, 12)})
        errors.append(max(np.mean(np.abs(values[i] - solution(result.grid, times[i] - case["start"]))) for i in chosen) / case["amplitude"])
    if case["scheme"] == "cg":
        order, floor = {1: 1.6, 2: 1.6, 3: 3.2, 4: 3.4, 5: 4.6}[degree], 1e-8
    else:
        order, floor = (1.0 if case["scheme"] == "mcl-fem" else 0.55), 1e-8
    return judge(case, errors, order, speed * duration / case["L"] * base, floor), [case["scheme"], f"degree={degree}", case["problem"]]


@st.composite
def integrated_elements(draw):
    case = draw(element_waves())
    case["scheme"] = "cg"
    case["degree"] = draw(st.sampled_from([3, 6, 1, 2, 4, 5, 7]))
    case["cells"] = draw(st.integers(3, 6))
    case["exact"] = case["problem"] == "advection" and case["exact"]
    case["passes"] = draw(st.sampled_from([0.25, 0.5]))
    return case


@check.facet(
    "element integrators", integrated_elements(), quick=160, thorough=4000,
    rule="halving the step changes the values by more than rounding",
)
def element_integrators(case):
    """The error of the time steps of high order elements decreases with the
    order of the elements: steps on a fixed mesh are halved."""
    profile, _ = exact.wave(case)
    degree, cells = case["degree"], case["cells"]
    speed = 1.0 if case["problem"] == "advection" else abs(case["mean"]) + case["amplitude"]
    duration = case["passes"] * case["L"] / cells / speed
    benchmark = make_benchmark(case, profile, case["start"] + duration)
    steps = 2 * degree
    values = []
    for factor in (1, 2, 4, 8):
        cfl = duration / (steps * factor) / (case["L"] / cells) * (1 + 1e-9)
        arguments = {"mesh_size": cells, "polynomial_degree": degree, "exact_flux": case["exact"], "cfl_number": cfl}
        values.append(solved(feref.SOLVERS["cg"](benchmark, **arguments)).value)
    differences = [np.max(np.abs(a - b)) / case["amplitude"] for a, b in zip(values, values[1:])]
    floor = 1e-11 * (1 + abs(case["mean"]) / case["amplitude"])
    usable = [d for d in differences if d > floor]
    nontrivial = len(usable) > 1
    if nontrivial:
        observed = np.log2(usable[-2] / usable[-1])
        required = {1: 1.6, 2: 1.6, 3: 3.5, 4: 3.5, 5: 5.0, 6: 5.0, 7: 6.0}[degree]
        require(
            observed >= required, "the error of the time steps does not decrease nearly with the order of the elements", degree=degree,
            differences=differences, observed=observed, required=required,
        )
    return nontrivial, [f"degree={degree}", case["problem"], "measured" if nontrivial else "exact"]


# shocks #######################################################################
@st.composite
def pulses(draw):
    case = {**draw(gen.domain()), "problem": "burgers", "start": draw(st.sampled_from([0.0, 1.5]))}
    case["scheme"] = draw(st.sampled_from(["llf", "mcl-fv", "cg-low", "mcl-fem"]))
    case["degree"] = draw(st.integers(1, 2))
    case["integrator"] = draw(st.sampled_from(["heun", "ssp3"]))
    case["outer"], case["inner"] = draw(gen.signed(2, 8)), draw(gen.signed(2, 8))
    if abs(case["outer"] - case["inner"]) < 0.5:
        case["inner"] = case["outer"] + 1.0
    if case["scheme"] in ("mcl-fv", "mcl-fem") and case["outer"] * case["inner"] <= 0:
        # limited schemes are not entropy stable at sonic points
        jump = abs(case["outer"] - case["inner"])
        case["outer"] = case["outer"] or 0.5
        case["inner"] = case["outer"] + (jump if case["outer"] > 0 else -jump)
    case["position"] = draw(gen.grid_float(0.25, 0.5))
    case["width"] = draw(gen.grid_float(0.25, 0.375))
    case["time"] = draw(gen.grid_float(0.5, 0.875, 8))
    return case


@check.facet("scalar shocks", pulses(), quick=100, thorough=4000, rule="the shock moves by at least two cells of the coarsest mesh")
def shocks(case):
    a, length, outer, inner = case["a"], case["L"], case["outer"], case["inner"]
    first, second = a + case["position"] * length, a + (case["position"] + case["width"]) * length
    speed = max(abs(outer), abs(inner))
    shock = (outer + inner) / 2
    # the shock and the rarefaction meet
    if outer < inner:
        begin, shock_begin = (first, second), second
        meeting = (second - first) / (inner - shock)
    else:
        begin, shock_begin = (first, second), first
        meeting = (length - (second - first)) / (outer - shock)
    duration = case["time"] * min(meeting, length / 4 / max(speed, 1e-9))

    def solution(x, t):
        x = a + np.mod(np.asarray(x, dtype=float) - a, length)
        if t == 0:
            return np.where((x > first) & (x < second), inner, outer)
        # left jump from outer to inner, right jump from inner to outer
        if outer < inner:
            edges = first + outer * t, first + inner * t, second + shock * t, second + shock * t
        else:
            edges = first + shock * t, first + shock * t, second + inner * t, second + outer * t
        middle, cut = (edges[1] + edges[2]) / 2, (edges[3] + edges[0] + length) / 2
        shifted = np.where(x > cut, x - length, np.where(x < cut - length, x + length, x))
        left = exact.burgers_riemann(outer, inner, (shifted - first) / t)
        right = exact.burgers_riemann(inner, outer, (shifted - second) / t)
        return np.where(shifted < middle, left, right)

    errors = []
    for n in (32, 128):
        benchmark = make_benchmark(case, lambda x: solution(x, 0.0), case["start"] + duration)
        if case["scheme"] in bench.SCALAR_FV:
            difference = deviations(case, benchmark, lambda x: solution(x, duration), n, 0.3 / speed)
        else:
            degree = case["degree"]
            solver = feref.SOLVERS[case["scheme"]](
                benchmark, mesh_size=n // degree, polynomial_degree=degree, cfl_number=0.5, ode_solver_type=bench.INTEGRATORS[case["integrator"]]
            )
            result = solved(solver)
            difference = result.value - solution(result.grid, duration)
        errors.append(np.mean(np.abs(difference)) / abs(outer - inner))
    judge(case, np.sqrt(errors), 0.35, 0)
    return abs(shock) * duration > 2 * length / 32, [case["scheme"]]


@st.composite
def dams(draw):
    case = {**draw(gen.domain()), "problem": "shallow_water", "g": draw(gen.gravity()), "start": draw(st.sampled_from([0.0, 1.5]))}
    case["scheme"] = draw(st.sampled_from(["llf", "low-order", "es1", "mcl", "mcl:es", "mcl:es1", "mcl:low-order", "coarse:2"]))
    case["integrator"] = draw(st.sampled_from(["heun", "ssp3"]))
    case["depths"] = [draw(gen.grid_float(0.5, 3, 8)) for _ in range(2)]
    case["froude"] = [draw(gen.signed(1, 8)) for _ in range(2)]
    case["position"] = draw(gen.grid_float(0.375, 0.625))
    case["time"] = draw(gen.grid_float(0.5, 0.875, 8))
    return case


@check.facet("shallow water shocks", dams(), quick=200, thorough=4000, rule="both components jump")
def dam(case):
    a, length, g = case["a"], case["L"], case["g"]
    states = [(h, f * h * np.sqrt(g * h)) for h, f in zip(case["depths"], case["froude"])]
    position = a + case["position"] * length
    speed = exact.swe_speeds(*states, g)
    duration = case["time"] * length * 0.35 / speed * 2

    def solution(x, t):
        x = np.asarray(x, dtype=float)
        if t == 0:
            return np.where((x < position)[:, None], np.array(states[0]), np.array(states[1]))
        return exact.swe_riemann(*states, g, (x - position) / t)

    final = solution(np.linspace(a, a + length, 400), duration)
    if np.any(np.abs(final[0] - states[0]) > 1e-12) or np.any(np.abs(final[-1] - states[1]) > 1e-12):
        return False, ["waves leave the domain"]
    scale = np.max(final, axis=0) - np.min(final, axis=0)
    if scale[0] < 0.2 * max(case["depths"]):
        return False, ["nearly uniform"]
    scale[1] = max(scale[1], scale[0] * np.sqrt(g * max(case["depths"])))
    errors = []
    base = 64 if case["scheme"].startswith("coarse") else 32
    for n in (base, 4 * base):
        benchmark = make_benchmark(case, lambda x: solution(x, 0.0), case["start"] + duration, left=("outflow",), right=("outflow",))
        difference = deviations(case, benchmark, lambda x: solution(x, duration), n, 0.2 / speed) / scale
        errors.append(np.max(np.mean(np.abs(difference), axis=0)))
    judge(case, np.sqrt(errors), 0.25, 0)
    return bool(states[0][0] != states[1][0] and states[0][1] != states[1][1]), [case["scheme"]]
