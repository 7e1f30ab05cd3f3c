"""Strategies for cases, which consist of numbers, strings, lists and dicts only."""
import math

from hypothesis import strategies as st


def grid_float(low, high, denominator=64):
    """Floats with a short binary representation, which shrink well."""
    return st.integers(math.ceil(low * denominator), math.floor(high * denominator)).map(
        lambda i: i / denominator
    )


def signed(high, denominator=64):
    return grid_float(-high, high, denominator)


def rough(low, high):
    """Arbitrary floats of an interval."""
    floats = st.floats(low, high, allow_nan=False, allow_infinity=False, width=64)
    return floats.map(lambda x: x if abs(x) > 1e-30 or low > 0 else 0.0)


def log_float(low, high):
    """Positive floats spread over orders of magnitude."""
    return st.floats(math.log(low), math.log(high)).map(lambda e: min(max(math.exp(e), low), high))


def mixed(low, high, denominator=64):
    return st.one_of(grid_float(low, high, denominator), rough(low, high))


def domain():
    """Left end and length."""
    return st.tuples(
        st.one_of(st.just(0.0), signed(20, 8), rough(-50, 50)),
        st.one_of(st.just(1.0), st.sampled_from([0.5, 2.0, 4.0, 100.0]), log_float(0.05, 200)),
    ).map(lambda t: {"a": t[0], "L": t[1]})


def gravity():
    return st.one_of(st.just(9.812), st.just(1.0), grid_float(0.125, 20, 8), log_float(0.01, 50))


def velocity():
    return st.one_of(st.just(0.0), signed(2), signed(12, 8), rough(-5, 5))


def height():
    return st.one_of(grid_float(0.25, 4), grid_float(1 / 64, 12), log_float(1e-4, 1000), rough(0.5, 3))


def bottom():
    return st.one_of(st.just(0.0), signed(1, 16), signed(4, 16), rough(-2, 2))


@st.composite
def lists(draw, element, n):
    """List of N elements with plateaus, jumps and smooth parts."""
    kind = draw(st.integers(0, 3))
    if kind == 0 and n > 1:
        first, second = draw(element), draw(element)
        cut = draw(st.integers(1, n - 1))
        return [first] * cut + [second] * (n - cut)
    if kind == 1 and n > 1:
        base, other = draw(element), draw(element)
        position = draw(st.integers(0, n - 1))
        return [other if i == position else base for i in range(n)]
    return draw(st.lists(element, min_size=n, max_size=n))


@st.composite
def smooth(draw, n, low, high):
    """Values of a trigonometric polynomial within LOW and HIGH."""
    k = draw(st.integers(1, 2))
    phase = draw(st.integers(0, 31)) / 32
    mean = (low + high) / 2
    amplitude = (high - low) / 2 * draw(st.integers(1, 16)) / 16
    return [mean + amplitude * math.sin(2 * math.pi * (k * (i + 0.5) / n + phase)) for i in range(n)]


@st.composite
def swe_state(draw, n, heights=None, velocities=None):
    """List of [height, discharge]."""
    heights = heights if heights is not None else height()
    velocities = velocities if velocities is not None else velocity()
    kind = draw(st.integers(0, 7))
    if kind == 0:
        h = draw(smooth(n, 0.5, 3.0))
        u = draw(smooth(n, -2.0, 2.0))
    else:
        h = draw(lists(heights, n))
        u = draw(lists(velocities, n))
    return [[a, a * b] for a, b in zip(h, u)]


@st.composite
def swe_boundary(draw, n, allowed=("periodic", "outflow", "wall", "inflow")):
    """Boundary conditions and inflow data q0 + q1 * t."""
    kind = draw(st.sampled_from(allowed))
    if kind == "periodic":
        return {"bc": ["periodic"]}
    others = [b for b in allowed if b != "periodic"]
    left, right = kind, draw(st.sampled_from(others))
    result = {"bc": [left, right]}
    for side, condition in (("left", left), ("right", right)):
        if condition == "inflow":
            h = draw(grid_float(0.25, 4))
            result[side] = [[h, h * draw(velocity())], [draw(grid_float(0, 0.5)), draw(signed(1))]]
    return result


@st.composite
def scalar_boundary(draw, allowed=("periodic", "outflow", "inflow")):
    kind = draw(st.sampled_from(allowed))
    if kind == "periodic":
        return {"bc": ["periodic"]}
    others = [b for b in allowed if b != "periodic"]
    left, right = kind, draw(st.sampled_from(others))
    result = {"bc": [left, right]}
    for side, condition in (("left", left), ("right", right)):
        if condition == "inflow":
            result[side] = [draw(signed(3)), draw(signed(1))]
    return result


@st.composite
def bathymetry(draw, n, periodic):
    values = draw(st.one_of(st.just([0.0] * n), lists(bottom(), n), lists(bottom(), n), smooth(n, -1.0, 1.0)))
    if periodic:
        values = list(values)
        values[-1] = values[0]
    return values


def mesh_size(low=2, high=12, large=30):
    return st.one_of(st.integers(low, high), st.integers(low, high), st.integers(low, large))


@st.composite
def swe_problem(draw, low=2, high=12, large=30, boundaries=("periodic", "outflow", "wall", "inflow"),
                heights=None, velocities=None, flat=None, gravities=None):
    n = draw(mesh_size(low, high, large))
    boundary = draw(swe_boundary(n, boundaries))
    periodic = boundary["bc"] == ["periodic"]
    is_flat = flat if flat is not None else draw(st.integers(0, 3)) == 0
    bottom_values = (
        [draw(st.sampled_from([0.0, 0.0, 1.5]))] * n if is_flat else draw(bathymetry(n, periodic))
    )
    return {
        "problem": "shallow_water",
        "values": draw(swe_state(n, heights, velocities)),
        "bottom": bottom_values,
        "g": draw(gravities if gravities is not None else gravity()),
        "start": draw(st.sampled_from([0.0, 0.0, 1.5, -2.0])),
        **draw(domain()),
        **boundary,
    }


def scalar_value():
    return st.one_of(st.just(0.0), signed(2), signed(10, 8), rough(-3, 3))


@st.composite
def scalar_values(draw, n, element=None):
    element = element if element is not None else scalar_value()
    if draw(st.integers(0, 5)) == 0:
        return draw(smooth(n, -1.0, 2.0))
    return draw(lists(element, n))


@st.composite
def scalar_problem(draw, low=2, high=12, large=30, boundaries=("periodic", "outflow", "inflow"), element=None):
    n = draw(mesh_size(low, high, large))
    return {
        "problem": draw(st.sampled_from(["advection", "burgers"])),
        "values": draw(scalar_values(n, element)),
        "start": draw(st.sampled_from([0.0, 0.0, 1.5, -2.0])),
        **draw(domain()),
        **draw(scalar_boundary(boundaries)),
    }


def enlarge(case, n, seed):
    """Data of N cells made of those of a small case: repeated, tiled, picked at
    random or as exceptions of a uniform state, and perturbed.

    """
    import numpy as np

    rng = np.random.default_rng(seed)
    m = len(case["values"])
    mode = int(rng.integers(4))
    if mode == 0:
        indices = np.arange(n) * m // n
    elif mode == 1:
        indices = np.arange(n) % m
    elif mode == 2:
        indices = rng.integers(m, size=n)
    else:
        indices = np.zeros(n, dtype=int)
        indices[rng.integers(n, size=m)] = rng.integers(m, size=m)
    factors = 1.0 + 0.2 * rng.uniform(-1, 1, size=n) * int(rng.integers(2))
    if int(rng.integers(2)):
        factors = factors * (1.0 + 0.25 * np.sin(2 * np.pi * (np.arange(n) / n * int(rng.integers(1, 8)) + rng.uniform())))
    result = dict(case)
    if case.get("problem") == "shallow_water":
        result["values"] = [[v * f for v in case["values"][i]] for i, f in zip(indices.tolist(), factors.tolist())]
        bottom = [case["bottom"][i] for i in indices.tolist()]
        if len(set(case["bottom"])) > 1 and case["bc"] == ["periodic"]:
            bottom[-1] = bottom[0]
        result["bottom"] = bottom
    else:
        result["values"] = [case["values"][i] * f for i, f in zip(indices.tolist(), factors.tolist())]
    return result


@st.composite
def large(draw, strategy, low=31, high=300, divisor=1):
    """Cases of STRATEGY on larger meshes."""
    case = draw(strategy)
    if case.get("scheme", "").startswith("coarse"):
        divisor = int(case["scheme"].split(":")[1])
    n = draw(st.integers(-(-low // divisor), high // divisor)) * divisor
    return enlarge(case, n, draw(st.integers(0, 2**20)))
