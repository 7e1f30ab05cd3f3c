"""Initial data and exact solutions of benchmarks."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.optimize import brentq

from benchmark import advection, burgers
from benchmark import shallow_water as swe
from core import Interval
from pbt import gen
from pbt.runner import Check, KnownFinding, close, raises, require

check = Check(
    "C20",
    rule="A case is a benchmark with its parameters, a point and a time. Non-trivial: the time is positive and the"
    " data vary.",
    assumptions=["dam break: heights between 0.05 and 20 with a ratio of at most 1000, since the root is found with an"
                 " absolute tolerance"],
)

TWO_PI = 2 * math.pi


def hill(x):
    return math.exp(10 - 1 / (x - 0.5) + 1 / (x - 0.9)) if 0.5 < x < 0.9 else 0.0


ADVECTION = {
    "three-hills": lambda x: math.exp(-300 * (2 * x - 0.3) ** 2) if 0.025 <= x < 0.275 else 1.0 if 0.35 <= x <= 0.55
    else math.sqrt(max(1 - ((x - 0.8) / 0.1) ** 2, 0.0)) if 0.7 < x < 0.9 else 0.0,
    "two-hills": lambda x: 1.0 if 0.2 <= x <= 0.4 else hill(x),
    "one-hill": lambda x: 1.0 if 0.1 <= x <= 0.3 else 0.0,
    "cos": lambda x: math.cos(TWO_PI * (x - 0.5)),
    "gauss": lambda x: math.exp(-100 * (x - 0.5) ** 2),
}
JUMPS = (0.025, 0.275, 0.35, 0.55, 0.7, 0.9, 0.5, 0.2, 0.4, 0.1, 0.3, 0.0, 1.0)


@st.composite
def scalar_cases(draw, keys):
    return {
        "key": draw(st.sampled_from(sorted(keys))),
        "x": draw(st.one_of(gen.grid_float(0, 1, 128), gen.rough(0.0, 1.0), st.sampled_from(JUMPS))),
        "t": draw(st.one_of(st.just(0.0), gen.grid_float(0, 3, 16), gen.rough(0.0, 3.0))),
        "end": draw(st.one_of(st.none(), gen.grid_float(0.125, 3, 8))),
    }


def common(benchmark, problem, case, default_end):
    require(benchmark.problem == problem, "problem of a benchmark", actual=benchmark.problem)
    require(benchmark.start_time == 0.0, "start time of a benchmark")
    expected = default_end if case.get("end") is None else case["end"]
    require(benchmark.end_time == expected, "end time of a benchmark", actual=benchmark.end_time, expected=expected)


def make(types, case, **parameters):
    if case.get("end") is not None:
        parameters["end_time"] = case["end"]
    return types[case["key"]](**parameters)


@check.facet("advection", scalar_cases(ADVECTION), quick=4000, thorough=100000)
def advections(case):
    benchmark = make(advection.BENCHMARKS, case)
    common(benchmark, "advection", case, 1.0)
    require(benchmark.boundary_conditions == ("periodic",), "boundary conditions")
    require(benchmark.domain == Interval(0, 1), "domain")
    reference = ADVECTION[case["key"]]
    x, t = case["x"], case["t"]
    close(benchmark.initial_data(x), reference(x), 1e-12, "initial data")
    origin = (x - t) % 1.0
    if min(abs(origin - j) for j in JUMPS) > 1e-12:
        close(benchmark.exact_solution(x, t), reference(origin), 1e-10, "exact solution is not the transported data")
    close(benchmark.exact_solution(x, 0.0), benchmark.initial_data(x), 1e-13, "exact solution at the start")
    close(benchmark.exact_solution(0.0, t), benchmark.exact_solution(1.0, t), 1e-10, "periodic boundary") if min(
        abs((-t) % 1.0 - j) for j in JUMPS
    ) > 1e-12 else None
    end = benchmark.end_time
    if min(abs((x - end) % 1.0 - j) for j in JUMPS) > 1e-12:
        close(benchmark.exact_solution_at_end_time(x), reference((x - end) % 1.0), 1e-10, "exact solution at the end")
    raises(AttributeError, lambda: benchmark.inflow_left(0.0), "inflow is offered")
    raises(AttributeError, lambda: benchmark.inflow_right(0.0), "inflow is offered")
    return t > 0, [case["key"]]


BURGERS = {
    "shock": (lambda x: math.sin(TWO_PI * x), lambda x: TWO_PI * math.cos(TWO_PI * x), 1.0, 1 / TWO_PI, 1.0),
    "smooth": (lambda x: math.sin(x) + 0.5, math.cos, TWO_PI, 1.0, 1.5),
}


@st.composite
def burgers_cases(draw):
    case = draw(scalar_cases(BURGERS))
    case["fraction"] = draw(st.one_of(st.sampled_from([0.0, 0.5, 0.9, 1.0]), gen.grid_float(0, 1)))
    case["later"] = draw(gen.grid_float(1.015625, 6))
    return case


def characteristic(initial, bound, x, t):
    """Value transported to X along the characteristic."""
    if t == 0:
        return initial(x)
    foot = brentq(lambda y: y + t * initial(y) - x, x - t * bound - 1e-9, x + t * bound + 1e-9, xtol=1e-15, rtol=1e-14)
    return initial(foot)


@check.facet(
    "Burgers", burgers_cases(), quick=4000, thorough=100000,
    examples=[{"key": "smooth", "x": 0.5078125, "t": 0.0, "end": None, "fraction": 1.0, "later": 2.0}],
)
def burgers_equation(case):
    initial, derivative, length, critical, bound = BURGERS[case["key"]]
    kind = burgers.BENCHMARKS[case["key"]]
    require(kind().end_time == 0.5, "default end time", actual=kind().end_time)
    t = case["fraction"] * critical
    benchmark = kind(end_time=max(t, 1e-3 * critical))
    require(benchmark.boundary_conditions == ("periodic",), "boundary conditions")
    require(benchmark.domain == Interval(0, length), "domain")
    require(benchmark.problem == "burgers", "problem")
    x = case["x"] * length
    close(benchmark.initial_data(x), initial(x), 1e-13, "initial data")
    close(benchmark.initial_data_derivaitive(x), derivative(x), 1e-12, "derivative of the initial data")
    try:
        value = benchmark.exact_solution(x, t)
    except RuntimeError as error:
        if case["fraction"] >= 0.9 and "converge" in str(error):
            raise KnownFinding("newton-near-shock", f"exact solution of {case['key']} close to shock formation: {error}")
        raise
    # steep profiles amplify the tolerance of the root finding
    steepness = abs(1 + t * derivative(x - value * t))
    if case["fraction"] < 0.99 and steepness > 0.02:
        close(value, characteristic(initial, bound, x, t), 1e-8 / steepness, "exact solution and characteristic", x=x, t=t)
    else:
        close(initial(x - value * t), value, 1e-5, "exact solution is not constant along characteristics", x=x, t=t)
    close(benchmark.exact_solution(x, 0.0), initial(x), 1e-12, "exact solution at the start")
    if case["fraction"] < 0.99:
        close(benchmark.exact_solution(0.0, t), benchmark.exact_solution(length, t), 1e-7, "periodic boundary")
    late = kind(end_time=critical * case["later"])
    raises(AttributeError, lambda: late.exact_solution(x, 0.5 * critical), "exact solution is offered after the shock")
    raises(AttributeError, lambda: late.exact_solution_at_end_time(x), "exact solution is offered after the shock")
    close(late.initial_data(x), initial(x), 1e-13, "initial data")
    return case["fraction"] > 0, [case["key"]]


def bump(x):
    return (4 - (x - 10) ** 2) / 20 if 8 <= x < 12 else 0.0


STEADY = {
    "lake-at-rest-no-bathymetry": (0, 20, ("periodic",), 100.0, lambda x: 0.0, lambda x: [1.0, 0.0]),
    "lake-at-rest": (0, 20, ("outflow", "outflow"), 100.0, bump, lambda x: [2.0 - bump(x), 0.0]),
    "lake-at-rest-perturbation": (
        0, 20, ("outflow", "outflow"), 2.0, bump, lambda x: [(1.01 if 5.75 <= x < 6.25 else 1.0) - bump(x), 0.0]
    ),
    "moving-water-no-bathymetry": (0, 100, ("periodic",), 1.0, lambda x: 0.0, lambda x: [2.0, 1.0]),
    "cylindrical-damm-break": (
        -1, 1, ("outflow", "outflow"), 0.2, lambda x: 0.0, lambda x: [2.0 if -0.5 <= x <= 0.5 else 1.0, 0.0]
    ),
    "cylindrical-damm-break-with-wall": (
        -1, 1, ("wall", "wall"), 0.2, lambda x: 0.0, lambda x: [2.0 if -0.5 <= x <= 0.5 else 1.0, 0.0]
    ),
    "sinus-inflow": (0, 100, ("inflow", "wall"), 40, lambda x: 0.0, lambda x: [2.0, 0.0]),
}


@check.facet("simple shallow water benchmarks", scalar_cases(STEADY), quick=3000, thorough=60000)
def simple(case):
    a, b, conditions, end, bottom, initial = STEADY[case["key"]]
    benchmark = make(swe.BENCHMARKS, case)
    common(benchmark, "shallow_water", case, end)
    require(benchmark.domain == Interval(a, b), "domain", actual=benchmark.domain)
    require(benchmark.boundary_conditions == conditions, "boundary conditions", actual=benchmark.boundary_conditions)
    x, t = a + case["x"] * (b - a), case["t"]
    close(float(benchmark.bathymetry(x)), bottom(x), 1e-14, "bottom")
    value = np.asarray(benchmark.initial_data(x), dtype=float)
    close(value, initial(x), 1e-14, "initial data")
    require(value[0] > 0, "water height is not positive")
    g = 1.0 if "cylindrical" in case["key"] else 9.812
    require(benchmark.gravitational_acceleration == g, "gravity", actual=benchmark.gravitational_acceleration)
    if case["key"].startswith(("lake-at-rest", "moving")) and "perturbation" not in case["key"]:
        close(np.asarray(benchmark.exact_solution(x, t), dtype=float), value, 0, "steady exact solution")
        close(np.asarray(benchmark.exact_solution_at_end_time(x), dtype=float), value, 0, "steady exact solution")
        # discharge and energy head (or level for water at rest) are constant
        q = value[1]
        head = (q / value[0]) ** 2 / (2 * g) + value[0] + bottom(x)
        other = np.asarray(benchmark.initial_data(a), dtype=float)
        close(head, (other[1] / other[0]) ** 2 / (2 * g) + other[0] + bottom(a), 1e-13, "energy head of a steady state")
        close(q, other[1], 0, "discharge of a steady state")
    else:
        raises(AttributeError, lambda: benchmark.exact_solution(x, t), "exact solution is offered")
    if case["key"] == "sinus-inflow":
        close(benchmark.inflow_left(t), [2 + 0.2 * math.sin(t), 0.0], 1e-14, "inflow")
        close(benchmark.inflow_left(0.0), benchmark.initial_data(a), 1e-14, "inflow at the start")
    else:
        raises(AttributeError, lambda: benchmark.inflow_left(t), "inflow is offered")
    raises(AttributeError, lambda: benchmark.inflow_right(t), "inflow is offered")
    return t > 0, [case["key"]]


@st.composite
def bump_cases(draw):
    return {
        "key": "moving-water-bump-bathymetry",
        "x": draw(st.one_of(gen.signed(2, 256), gen.rough(-0.12, 0.12), st.sampled_from([-0.1, 0.1, 0.0]))),
        "t": draw(gen.grid_float(0, 10)),
        "parameters": draw(st.one_of(st.just({}), st.fixed_dictionaries({"K1": gen.grid_float(0.125, 3, 8), "K2": gen.grid_float(22, 40, 2)}))),
        "end": draw(st.one_of(st.none(), gen.grid_float(0.125, 3, 8))),
    }


@check.facet("moving water over a bump", bump_cases(), quick=2000, thorough=40000, rule="the point lies on the bump")
def moving_bump(case):
    benchmark = make(swe.BENCHMARKS, case, **case["parameters"])
    common(benchmark, "shallow_water", case, 100.0)
    require(benchmark.domain == Interval(-2, 2) and benchmark.boundary_conditions == ("periodic",), "domain and boundary")
    x, g = case["x"], 9.812
    bottom = (math.cos(10 * math.pi * (x + 1)) + 1) / 4 if -0.1 <= x <= 0.1 else 0.0
    close(float(benchmark.bathymetry(x)), bottom, 1e-13, "bottom")
    k1, k2 = case["parameters"].get("K1", 1.0), case["parameters"].get("K2", 25.0)
    h, q = benchmark.initial_data(x)
    require(h > 0, "water height is not positive")
    close(q, k1, 1e-14, "discharge of a steady state")
    close(k1**2 / (2 * h**2) + g * (h + bottom), k2, 1e-6, "energy of a steady state")
    require(k1 / h < math.sqrt(g * h), "the flow is not subcritical", height=h)
    close(benchmark.exact_solution(x, case["t"]), [h, q], 0, "steady exact solution")
    close(benchmark.initial_data(-2.0), benchmark.initial_data(2.0), 1e-13, "periodic boundary")
    return abs(x) < 0.1


NAMES = (
    "height_average", "height_amplitude", "height_phase_shift", "height_wave_number",
    "velocity_average", "velocity_amplitude", "velocity_phase_shift", "velocity_wave_number",
)
DEFAULTS = dict(zip(NAMES, (2.0, 0.2, 0.0, 3, 1.0, 0.5, math.pi / 2, 1)))
PRESETS = {
    "b1": {"height_wave_number": 1, "velocity_amplitude": 0.0},
    "b2": {"height_amplitude": 0.0, "velocity_phase_shift": 0.0},
    "b3": {"height_wave_number": 3, "velocity_amplitude": 0.0},
    "b4": dict(zip(NAMES, (2.0, 0.45, 2.78, 4, 1.1, 0.5, 4.5, 3))),
    "b5": dict(zip(NAMES, (2.0, 0.45, 2.78, 3, 1.1, 0.5, 4.5, 4))),
    "oscillation": {},
}


@st.composite
def oscillation_cases(draw):
    given = {}
    key = draw(st.sampled_from(sorted(PRESETS)))
    if key == "oscillation":
        values = {
            "height_average": gen.grid_float(1, 4), "height_amplitude": gen.grid_float(0, 0.75),
            "height_phase_shift": gen.signed(7), "height_wave_number": st.integers(0, 8),
            "velocity_average": gen.signed(3), "velocity_amplitude": gen.grid_float(0, 2),
            "velocity_phase_shift": gen.signed(7), "velocity_wave_number": st.integers(0, 8),
        }
        for name in NAMES:
            if draw(st.booleans()):
                given[name] = draw(values[name])
    return {
        "key": key, "given": given, "x": draw(st.one_of(gen.grid_float(0, 100, 16), gen.rough(0.0, 100.0))),
        "end": draw(st.one_of(st.none(), gen.grid_float(0.125, 100, 8))),
    }


@check.facet("oscillations", oscillation_cases(), quick=3000, thorough=60000, rule="height or velocity oscillates")
def oscillations(case):
    benchmark = make(swe.BENCHMARKS, case, **case["given"])
    common(benchmark, "shallow_water", case, 40)
    parameters = DEFAULTS | PRESETS[case["key"]] | case["given"]
    for name in NAMES:
        require(getattr(benchmark, name) == parameters[name], "parameter", name=name, actual=getattr(benchmark, name))
    p = [parameters[name] for name in NAMES]
    x = case["x"]
    h = p[0] + p[1] * math.sin(TWO_PI * p[3] * x / 100 + p[2])
    v = p[4] + p[5] * math.sin(TWO_PI * p[7] * x / 100 + p[6])
    value = benchmark.initial_data(x)
    close(value, [h, h * v], 1e-12 * 20, "oscillating initial data")
    require(value[0] > 0, "water height is not positive")
    require(benchmark.domain == Interval(0, 100) and benchmark.boundary_conditions == ("periodic",), "domain and boundary")
    require(float(benchmark.bathymetry(x)) == 0.0, "bottom")
    close(benchmark.initial_data(0.0), benchmark.initial_data(100.0), 1e-11, "periodic boundary")
    # average and amplitude of the configured oscillation
    samples = np.array([benchmark.initial_data(100 * i / 64) for i in range(64)])
    if 0 < p[3] < 8:
        close(samples[:, 0].mean(), p[0], 1e-12 * 10, "average height")
        close(math.sqrt(2 * ((samples[:, 0] - p[0]) ** 2).mean()), p[1], 1e-10, "amplitude of the height")
    record = benchmark.as_dict()
    require([record[k] for k in ("h0", "Ah", "ph", "kh", "v0", "Av", "pv", "kv")] == p, "recorded parameters", actual=record)
    raises(AttributeError, lambda: benchmark.exact_solution(x, 1.0), "exact solution is offered")
    return p[1] * p[3] > 0 or p[5] * p[7] > 0, [case["key"]]


@st.composite
def dam_cases(draw):
    default = draw(st.integers(0, 5)) == 0
    left = draw(gen.log_float(0.1, 20))
    parameters = {} if default else {
        "h_left": left,
        "h_right": left * draw(st.one_of(gen.grid_float(0.0625, 0.9375, 16), gen.log_float(1e-3, 0.99))),
        "g": draw(st.one_of(st.just(9.812), st.just(1.0), gen.grid_float(0.5, 20, 8))),
        "L": draw(st.sampled_from([1.0, 4.0, 100.0])),
    }
    if parameters:
        parameters["x_dam"] = parameters["L"] * draw(gen.grid_float(0.25, 0.75, 16))
        parameters["h_right"] = max(parameters["h_right"], 0.05)
    return {
        "key": "damm-break", "parameters": parameters, "t": draw(st.one_of(st.just(0.0), gen.grid_float(0.0625, 2))),
        "points": draw(st.lists(gen.grid_float(-0.5, 1.5, 128), min_size=1, max_size=6)),
        "end": draw(st.one_of(st.none(), gen.grid_float(0.125, 3, 8))),
    }


def stoker(hl, hr, g, s):
    """Dam break solution at similarity coordinate S, the speeds of its waves."""
    cl = math.sqrt(g * hl)
    hm = brentq(
        lambda h: 2 * (cl - math.sqrt(g * h)) - (h - hr) * math.sqrt(g / 2 * (1 / h + 1 / hr)), hr, hl, xtol=1e-15, rtol=1e-13
    )
    um = 2 * (cl - math.sqrt(g * hm))
    shock = hm * um / (hm - hr)
    waves = (-cl, um - math.sqrt(g * hm), shock)
    if s <= waves[0]:
        return (hl, 0.0), waves
    if s <= waves[1]:
        c = (2 * cl - s) / 3
        return (c * c / g, c * c / g * 2 * (cl - c)), waves
    if s <= waves[2]:
        return (hm, hm * um), waves
    return (hr, 0.0), waves


@check.facet("dam break", dam_cases(), quick=3000, thorough=60000)
def dam_break(case):
    parameters = case["parameters"]
    hl, hr = parameters.get("h_left", 1.0), parameters.get("h_right", 0.1)
    if not hl > hr * 1.0001:
        raises(AssertionError, lambda: swe.DammBreakBenchmark(h_left=1.0, h_right=1.0), "equal heights are accepted")
        return False
    benchmark = make(swe.BENCHMARKS, case, **parameters)
    common(benchmark, "shallow_water", case, 0.3)
    g, dam, length = parameters.get("g", 1.0), parameters.get("x_dam", 0.5), parameters.get("L", 1.0)
    require(benchmark.domain == Interval(0, length), "domain")
    require(benchmark.boundary_conditions == ("outflow", "outflow"), "boundary conditions")
    require(benchmark.gravitational_acceleration == g, "gravity")
    require(float(benchmark.bathymetry(0.3)) == 0.0, "bottom")
    t = case["t"]
    size = np.array([hl, hl * math.sqrt(g * hl)])
    for point in case["points"]:
        x = point * length
        close(benchmark.initial_data(x), [hl if x <= dam else hr, 0.0], 0, "initial data")
        if t == 0:
            close(benchmark.exact_solution(x, 0.0), benchmark.initial_data(x), 0, "exact solution at the start")
            continue
        expected, waves = stoker(hl, hr, g, (x - dam) / t)
        if min(abs((x - dam) / t - w) for w in waves) > 1e-4 * math.sqrt(g * hl):
            close(benchmark.exact_solution(x, t), expected, 2e-5 * size, "exact solution of the dam break", x=x, t=t)
        if abs((x - dam) / benchmark.end_time - waves[2]) > 1e-4 * math.sqrt(g * hl):
            expected, _ = stoker(hl, hr, g, (x - dam) / benchmark.end_time)
            close(benchmark.exact_solution_at_end_time(x), expected, 1e-4 * size, "exact solution at the end time")
    # the shock satisfies the jump conditions
    close(benchmark.v * (benchmark.h_mid - hr), benchmark.h_mid * benchmark.u_mid, 1e-10 * size[1], "mass across the shock")
    momentum = benchmark.h_mid * benchmark.u_mid**2 + g * (benchmark.h_mid**2 - hr**2) / 2
    close(benchmark.v * benchmark.h_mid * benchmark.u_mid, momentum, 1e-4 * g * hl * hl, "momentum across the shock")
    require(benchmark.h_mid > hr and benchmark.h_mid < hl, "the shock is not admissible", h_mid=benchmark.h_mid)
    return t > 0, ["default" if not parameters else "parameters"]
