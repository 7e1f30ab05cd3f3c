"""Physical fluxes, wave speeds, entropy variables and Riemann averages."""
import math

import numpy as np
from hypothesis import strategies as st

import finite_volume.shallow_water as swe
import finite_volume.scalar as scalar
from pbt import bench, gen
from pbt.runner import Check, close, raises, require

check = Check(
    "C10",
    rule="A case is a list of states and a gravity (or a scalar problem). Non-trivial: at least one moving state or"
    " two different states.",
    assumptions=["heights are either zero with zero discharge or at least 1e-14", "a face between two dry cells is undefined"],
)

DEFAULT_GRAVITY = 9.812


def heights():
    return st.one_of(gen.height(), gen.log_float(1e-14, 1e-3), gen.log_float(1e-6, 1e4))


@st.composite
def state(draw, dry=True):
    if dry and draw(st.integers(0, 9)) == 0:
        return [0.0, 0.0]
    h = draw(heights())
    return [h, h * draw(st.one_of(gen.velocity(), gen.signed(60, 4)))]


@st.composite
def state_lists(draw):
    n = draw(st.integers(1, 6))
    return {
        "values": draw(st.lists(state(), min_size=n, max_size=n)),
        "bottom": draw(st.lists(gen.bottom(), min_size=n, max_size=n)),
        "g": draw(st.one_of(st.none(), gen.gravity())),
    }


def moving(case):
    return any(q != 0 for _, q in case["values"])


def flux(h, q, g):
    return [0.0, 0.0] if h == 0 else [q, q * q / h + g * h * h / 2]


@check.facet("formulas", state_lists(), quick=6000, thorough=200000)
def formulas(case):
    g = case["g"] or DEFAULT_GRAVITY
    given = case["g"]
    values = np.array(case["values"])
    original = values.copy()
    bottom = np.array(case["bottom"])
    h, q = values.T
    u = np.array([b / a if a > 0 else 0.0 for a, b in case["values"]])
    size = g * h + u**2 + 1e-300
    flux_size = np.array([np.abs(q), np.abs(q * u) + g * h**2]).T + 1e-300

    def same(actual, expected, scale, message):
        close(actual, expected, 1e-12 * scale, message)
        require(np.array_equal(values, original), message + ": modifies its input")

    expected_flux = [flux(a, b, g) for a, b in case["values"]]
    same(swe.Flux(given)(values), expected_flux, flux_size, "flux")
    jacobian = [
        [[0.0, 1.0], [2 * v, -v * v + g * a] if a > 0 else [0.0, 0.0]] for a, v in zip(h, u)
    ]
    zero = np.zeros_like(u)
    same(swe.FluxJacobian(given)(values), jacobian, np.array([[zero, zero], [size, np.abs(u)]]).transpose(2, 0, 1), "Jacobian")
    close(swe.get_velocity(values), u, 1e-13 * np.abs(u), "velocity")
    entropy = np.array([g * (h + bottom) - u**2 / 2, u]).T
    tolerance = 1e-12 * np.array([size + g * np.abs(bottom), np.abs(u)]).T
    close(swe.Entropy(given)(values, bottom), entropy, tolerance, "entropy variables")
    entropy[:, 0] = g * h - u**2 / 2
    close(swe.Entropy(given)(values), entropy, tolerance, "entropy variables without bottom")
    close(swe.Potential(given)(values), g / 2 * h**2 * u, 1e-12 * g * h**2 * np.abs(u), "potential")
    close(swe.get_height(values), h, 0, "height")
    close(swe.get_discharge(values), q, 0, "discharge")
    swe.get_height(values)[:] = -1.0
    swe.get_discharge(values)[:] = -1.0
    require(np.array_equal(values, original), "heights and discharges are views")

    # single states
    single = values[0]
    close(swe.Flux(given)(single), expected_flux[0], 1e-12 * flux_size[0], "flux of a single state")
    close(swe.get_velocity(single), u[0], 1e-13 * abs(u[0]), "velocity of a single state")
    close(
        swe.Entropy(given)(single, bottom[0]), [g * (h[0] + bottom[0]) - u[0] ** 2 / 2, u[0]], tolerance[0],
        "entropy variables of a single state",
    )
    close(swe.Potential(given)(single), g / 2 * h[0] ** 2 * u[0], 1e-12 * g * h[0] ** 2 * abs(u[0]), "potential of a single state")
    require(np.array_equal(values, original), "single state is modified")

    if len(values) > 1:
        average = swe.get_average(values[:-1], values[1:])
        close(average, (values[:-1] + values[1:]) / 2, 1e-15 * np.abs(values).max(), "average")
    tags = ["dry"] if (h == 0).any() else []
    if ((h > 0) & (h < 1e-4)).any():
        tags.append("nearly dry")
    return moving(case), tags


@st.composite
def negative_cases(draw):
    case = draw(state_lists())
    case["cell"] = draw(st.integers(0, len(case["values"]) - 1))
    case["height"] = -draw(st.one_of(gen.log_float(1e-15, 1e-3), gen.log_float(1e-300, 1e-14), gen.height()))
    return case


@check.facet("negative heights", negative_cases(), quick=1500, thorough=40000,
             rule="one state of the list has a negative height")
def negative(case):
    values = np.array(case["values"])
    values[case["cell"], 0] = case["height"]
    raises(ValueError, lambda: swe.Flux(case["g"])(values), "flux accepts a negative height")
    raises(ValueError, lambda: swe.FluxJacobian(case["g"])(values), "Jacobian accepts a negative height")
    raises(ValueError, lambda: swe.Flux(case["g"])(values[case["cell"]]), "flux accepts a single negative height")
    return True


@st.composite
def pairs(draw):
    n = draw(st.integers(1, 5))
    left = draw(st.lists(state(), min_size=n, max_size=n))
    right = []
    for l in left:
        kind = draw(st.integers(0, 4))
        if kind == 0 and l[0] > 0:
            right.append(list(l))
        elif kind == 1 and l[0] > 0:
            right.append([l[0], -l[1]])
        else:
            right.append(draw(state(dry=l[0] > 0)))
    return {
        "left": left,
        "right": right,
        "g": draw(gen.gravity()),
        "speed": draw(st.sampled_from(["default", "maximum", "two-sided"])),
    }


def characteristic(values, g):
    h, q = values.T
    u = np.where(h > 0, q / np.where(h > 0, h, 1.0), 0.0)
    c = np.sqrt(g * h)
    return u - c, u + c


@check.facet("wave speeds and Riemann averages", pairs(), quick=6000, thorough=200000)
def riemann(case):
    g = case["g"]
    left, right = np.array(case["left"]), np.array(case["right"])
    originals = left.copy(), right.copy()
    slow_l, fast_l = characteristic(left, g)
    slow_r, fast_r = characteristic(right, g)
    scale = np.max(np.abs([slow_l, fast_l, slow_r, fast_r]), axis=0)
    speeds = {
        "default": None, "maximum": swe.MaximumWaveSpeed(g), "two-sided": swe.WaveSpeed(g),
    }[case["speed"]]
    if case["speed"] == "two-sided":
        expected_left = np.minimum(np.minimum(slow_l, slow_r), 0)
        expected_right = np.maximum(np.maximum(fast_l, fast_r), 0)
    else:
        expected_right = np.maximum(np.maximum(-slow_l, fast_l), np.maximum(-slow_r, fast_r))
        expected_left = -expected_right
    if speeds is not None:
        a, b = speeds(left, right)
        close(a, expected_left, 1e-13 * scale, "left wave speed")
        close(b, expected_right, 1e-13 * scale, "right wave speed")
        a, b = speeds(left[0], right[0])
        close(a, expected_left[0], 1e-13 * scale[0], "left wave speed of single states")
        close(b, expected_right[0], 1e-13 * scale[0], "right wave speed of single states")

    solver = swe.RiemannSolver(g, speeds)
    face_flux, average = solver.solve(left, right)
    flux_left = np.array([flux(h, q, g) for h, q in left])
    flux_right = np.array([flux(h, q, g) for h, q in right])
    s_left, s_right = solver.wave_speed_left, solver.wave_speed_right
    close(s_left, expected_left, 1e-13 * scale, "left wave speed of the solver")
    close(s_right, expected_right, 1e-13 * scale, "right wave speed of the solver")
    slack = 1e-13 * scale
    require(
        np.all(s_left <= np.minimum(slow_l, slow_r) + slack) and np.all(s_right >= np.maximum(fast_l, fast_r) - slack),
        "a characteristic speed exceeds the wave speeds",
        left=s_left.tolist(), right=s_right.tolist(),
    )
    close(solver.flux_left, flux_left, 1e-12 * (np.abs(flux_left) + 1e-300), "left flux of the solver")
    close(solver.flux_right, flux_right, 1e-12 * (np.abs(flux_right) + 1e-300), "right flux of the solver")

    size = np.abs(flux_left) + np.abs(flux_right) + scale[:, None] * (np.abs(left) + np.abs(right))
    # rounding of the averaged state with a small denominator
    factor = np.maximum(1.0, scale / (expected_right - expected_left))[:, None]
    tolerance = 1e-12 * size * factor
    s_left, s_right = s_left[:, None], s_right[:, None]
    close(face_flux, flux_left - s_left * (left - average), tolerance, "flux across the left wave")
    close(face_flux, flux_right - s_right * (right - average), tolerance, "flux across the right wave")
    close(
        (s_right - s_left) * average, s_right * right - s_left * left - (flux_right - flux_left), tolerance,
        "integral conservation of the intermediate state",
    )
    require(
        average[:, 0].min() >= -1e-12 * (left[:, 0] + right[:, 0]).max() * factor.max(),
        "negative intermediate height", height=average[:, 0].min(),
    )
    # single states
    single_flux, single_average = swe.RiemannSolver(g, speeds).solve(left[0], right[0])
    close(single_flux, face_flux[0], tolerance[0], "flux of single states")
    close(single_average, average[0], tolerance[0] / (s_right - s_left)[0], "average of single states")
    require(
        np.array_equal(left, originals[0]) and np.array_equal(right, originals[1]), "Riemann solver modifies its input"
    )
    tags = [case["speed"]]
    if (left[:, 0] == 0).any() or (right[:, 0] == 0).any():
        tags.append("dry side")
    return bool((left != right).any()), tags


@st.composite
def scalar_pairs(draw):
    n = draw(st.integers(1, 6))
    return {
        "problem": draw(st.sampled_from(["advection", "burgers"])),
        "left": draw(st.lists(gen.scalar_value(), min_size=n, max_size=n)),
        "right": draw(st.lists(gen.scalar_value(), min_size=n, max_size=n)),
    }


@check.facet("scalar problems", scalar_pairs(), quick=3000, thorough=100000)
def scalar_formulas(case):
    problem = case["problem"]
    left, right = np.array(case["left"]), np.array(case["right"])
    originals = left.copy(), right.copy()
    prime = (lambda u: np.ones(len(u))) if problem == "advection" else (lambda u: u)
    physical = (lambda u: u) if problem == "advection" else (lambda u: u * u / 2)
    function = scalar.get_flux(problem)
    close(function(left), physical(left), 1e-14 * (np.abs(left) + left**2), "flux")
    for u in case["left"]:
        close(function(u), physical(np.array(u)), 1e-14 * (abs(u) + u * u), "flux of a number")

    a, b = scalar.get_wave_speed(problem)(left, right)
    bound = np.maximum(np.abs(prime(left)), np.abs(prime(right)))
    require(np.all(b >= bound) and np.all(-a >= bound), "wave speed below a characteristic speed")
    # exact up to a positive floor
    close(b, bound, 1e-14 * bound + np.where(bound < 1e-10, 1e-10, 0), "right wave speed")
    close(-a, b, 0, "left wave speed")
    require(np.all(b > 0), "vanishing wave speed")

    solver = scalar.get_riemann_solver(problem)
    face_flux, average = solver.solve(left, right)
    speed = solver.wave_speed_right
    fl, fr = physical(left), physical(right)
    size = np.abs(fl) + np.abs(fr) + speed * (np.abs(left) + np.abs(right)) + 1e-300
    close(face_flux, fl - solver.wave_speed_left * (left - average), 1e-12 * size, "flux across the left wave")
    close(face_flux, fr - speed * (right - average), 1e-12 * size, "flux across the right wave")
    close(face_flux, (fl + fr) / 2 - speed * (right - left) / 2, 1e-12 * size, "local Lax-Friedrichs flux")
    low, high = np.minimum(left, right), np.maximum(left, right)
    slack = 1e-12 * (np.abs(left) + np.abs(right))
    require(
        np.all(average >= low - slack) and np.all(average <= high + slack),
        "intermediate state is not between its neighbours",
    )
    require(
        np.array_equal(left, originals[0]) and np.array_equal(right, originals[1]), "Riemann solver modifies its input"
    )
    return bool((left != right).any()), [problem]


@st.composite
def fix_cases(draw):
    n = draw(st.integers(1, 6))
    return {
        "bar": draw(st.lists(st.one_of(st.just(0.0), gen.height()), min_size=n, max_size=n)),
        "step": draw(st.lists(gen.bottom(), min_size=n, max_size=n)),
        "values": draw(st.lists(st.lists(st.sampled_from([0.0, 1e-14, -1e-14, 1e-13, 1.0, -1.0, 1e-3]), min_size=2, max_size=2), min_size=n, max_size=n)),
    }


@check.facet("helpers", fix_cases(), quick=1500, thorough=40000, rule="a bottom step differs from zero")
def helpers(case):
    bar, step = np.array(case["bar"]), np.array(case["step"])
    fix = swe.get_height_positivity_fix(bar, step)
    expected = [math.copysign(min(abs(s) / 2, b), s) if s else 0.0 for b, s in zip(case["bar"], case["step"])]
    close(fix, expected, 0, "positivity fix")
    values = np.array(case["values"])
    expected = [[h if h > 1e-12 else 0.0, q if h > 1e-12 and abs(q) > 1e-12 else 0.0] for h, q in case["values"]]
    close(swe.nullify(values, eps=1e-12), expected, 0, "nullified states")
    require(
        bool(swe.is_constant(step, eps=1e-12)) == (max(abs(s - step[0]) for s in step) < 1e-12),
        "constant bottom is not recognised", bottom=case["step"],
    )
    states = np.array(case["values"], dtype=float)
    for name, function, wanted in (
        ("heights", swe.get_heights, (states[:, 0], 2 * states[::-1, 0])),
        ("discharges", swe.get_discharges, (states[:, 1], 2 * states[::-1, 1])),
    ):
        actual = function(states, 2 * states[::-1])
        require(len(actual) == 2, f"number of {name}")
        close(actual[0], wanted[0], 0, f"first {name}")
        close(actual[1], wanted[1], 0, f"second {name}")
    pair = swe.get_height_and_discharge(states)
    close(pair[0], states[:, 0], 0, "heights of states")
    close(pair[1], states[:, 1], 0, "discharges of states")
    # a bottom is accepted as constant if the averages in the cells coincide
    bottom = np.array(case["step"])
    data = {"problem": "shallow_water", "values": [[1.0, 0.0]] * len(bottom), "bottom": bottom.tolist(), "a": 0.0, "L": 1.0, "bc": ["periodic"], "g": 1.0}
    benchmark = bench.make_benchmark(data, 1.0)
    spread = np.max(np.abs(bottom - bottom[0]))
    if spread == 0:
        swe.assert_constant_bathymetry(benchmark, len(bottom))
    elif spread > 1e-9:
        raises(AssertionError, lambda: swe.assert_constant_bathymetry(benchmark, len(bottom)), "a varying bottom is accepted as constant")
    return bool(step.any())
