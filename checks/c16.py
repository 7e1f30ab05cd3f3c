"""Gauss quadrature, cell averages and interpolation."""
import numpy as np
from hypothesis import strategies as st

import core
import finite_element
import finite_volume
import finite_volume.shallow_water as shallow_water
from benchmark.shallow_water import ShallowWaterBenchmark
from pbt import bench, feref, gen
from pbt.runner import Check, close, require

check = Check(
    "C16",
    rule="A case is a quadrature with a polynomial, a mesh with a function, data with old and new points, or a solver with"
    " polynomial initial data."
    " Non-trivial: the polynomial is not constant, the data are not constant.",
    assumptions=["quadratures with up to 20 nodes", "new points are compared with the piecewise linear interpolant"],
)


def intervals():
    ends = st.tuples(
        st.one_of(st.just(0.0), st.just(-1.0), gen.signed(20), gen.rough(-1000, 1000)),
        st.one_of(st.just(1.0), st.just(2.0), gen.grid_float(1 / 64, 8), gen.log_float(1e-3, 1e3)),
    )
    return ends.map(lambda t: {"a": t[0], "L": t[1]})


def value_of(coefficients, x):
    return sum(c * x**k for k, c in enumerate(coefficients))


def mean_of(coefficients):
    """Mean on [-1, 1]."""
    return sum(c / (k + 1) for k, c in enumerate(coefficients) if k % 2 == 0)


@st.composite
def quadrature_cases(draw):
    n = draw(st.one_of(st.integers(1, 6), st.integers(1, 20)))
    return {
        **draw(intervals()),
        "n": n,
        "kind": draw(st.sampled_from(["interval", "interval", "standard", "symmetric"])),
        "coefficients": draw(st.lists(gen.signed(2, 4), min_size=2 * n, max_size=2 * n)),
    }


@check.facet("Gauss rules", quadrature_cases(), quick=6000, thorough=150000)
def quadratures(case):
    n, kind = case["n"], case["kind"]
    if kind == "standard":
        rule, a, length = core.LocalElementQuadrature(n), 0.0, 1.0
    elif kind == "symmetric":
        rule, a, length = core.SpecificGaussianQuadrature(n), -1.0, 2.0
    else:
        a = case["a"]
        b = a + case["L"]
        length = b - a
        rule = core.GaussianQuadrature(n, core.Interval(a, b))
    b = a + length
    nodes, weights = np.array(rule.nodes), np.array(rule.weights)
    require(len(nodes) == n and len(weights) == n, "number of nodes", actual=len(nodes))
    require(rule.degree == n, "degree", actual=rule.degree)
    close([rule.domain.a, rule.domain.b], [a, b], 0, "domain of the quadrature")
    require(np.all(weights > 0), "weight is not positive", weights=weights.tolist())
    close(weights.sum(), length, 1e-14 * n * length, "sum of the weights")
    require(np.all(np.diff(nodes) > 0), "nodes are not sorted", nodes=nodes.tolist())
    require(nodes[0] > a and nodes[-1] < b, "node outside of the interval", nodes=nodes.tolist())
    offset = 1e-16 * (abs(a) + abs(b)) / length
    reference_nodes, reference_weights = np.polynomial.legendre.leggauss(n)
    close((nodes - (a + b) / 2) / (length / 2), reference_nodes, 2e-15 * (n + 2) + 10 * offset, "nodes")
    close(weights, reference_weights * length / 2, 2e-15 * (n + 2) * length, "weights")

    coefficients = case["coefficients"]
    middle, half = (a + b) / 2, length / 2
    integral = rule.integrate(lambda x: value_of(coefficients, (x - middle) / half))
    size = sum(map(abs, coefficients))
    close(
        integral, length * mean_of(coefficients), length * size * (1e-14 * (n + 2) + 10 * offset * 2 * n),
        "polynomial is not integrated exactly",
    )
    # symmetric about the center
    odd = rule.integrate(lambda x: ((x - middle) / half) ** (2 * n + 1))
    close(odd, 0.0, length * (1e-14 * (n + 2) + 20 * offset * n), "odd function")
    return any(coefficients[1:]), [kind]


@st.composite
def function_cases(draw):
    degree = draw(st.integers(1, 5))
    components = draw(st.one_of(st.none(), st.integers(1, 3)))
    coefficients = st.lists(gen.signed(2, 4), min_size=1, max_size=2 * degree)
    return {
        **draw(intervals()),
        "n": draw(st.one_of(st.integers(2, 12), st.integers(2, 12), st.integers(2, 80))),
        "degree": degree,
        "coefficients": draw(st.lists(coefficients, min_size=components or 1, max_size=components or 1)),
        "vector": components is not None,
        "nodes": draw(st.lists(gen.signed(10), min_size=1, max_size=6)),
        "integer": draw(st.booleans()),
    }


@check.facet("cell averages and nodal values", function_cases(), quick=3000, thorough=80000)
def interpolators(case):
    a, n = case["a"], case["n"]
    b = a + case["L"]
    mesh = core.UniformMesh(core.Interval(a, b), n)
    middle, half = (a + b) / 2, (b - a) / 2

    def component(i, x):
        return value_of(case["coefficients"][i], min(max((x - middle) / half, -2.0), 2.0))

    count = len(case["coefficients"])
    if case["vector"]:
        function = lambda x: np.array([component(i, x) for i in range(count)])
    else:
        function = lambda x: float(component(0, x))

    def antiderivative(i, s):
        return sum(c * s ** (k + 1) / (k + 1) for k, c in enumerate(case["coefficients"][i]))

    edges = np.linspace(-1, 1, n + 1)
    expected = np.array(
        [
            [(antiderivative(i, edges[j + 1]) - antiderivative(i, edges[j])) / (edges[j + 1] - edges[j]) for j in range(n)]
            for i in range(count)
        ]
    )
    size = max(sum(map(abs, c)) for c in case["coefficients"]) * 10
    offset = 1e-16 * (abs(a) + abs(b)) / half
    actual = core.CellAverageInterpolator(mesh, case["degree"]).interpolate(function)
    close(actual, expected.T if case["vector"] else expected[0], size * (1e-12 + 100 * n * offset), "cell averages")

    nodes = [middle + half * s / 10 for s in case["nodes"]]
    actual = core.NodeValuesInterpolator(*nodes).interpolate(function)
    close(actual, np.array([function(x) for x in nodes]), 0, "nodal values")
    if not case["vector"] and case["integer"]:
        constant = core.CellAverageInterpolator(mesh, case["degree"]).interpolate(lambda x: 3)
        close(constant, [3.0] * n, 1e-12, "averages of an integer valued function")
        close(core.NodeValuesInterpolator(*nodes).interpolate(lambda x: 2), [2.0] * len(nodes), 0, "integer nodal values")
    return any(any(c[1:]) for c in case["coefficients"]), ["vector" if case["vector"] else "scalar"]


@st.composite
def jump_cases(draw):
    n = draw(st.one_of(st.integers(2, 10), st.integers(2, 10), st.integers(2, 40)))
    return {
        **draw(intervals()),
        "n": n,
        "degree": draw(st.integers(1, 4)),
        "values": draw(st.lists(gen.signed(4), min_size=n, max_size=n)),
    }


@check.facet("averages of piecewise constant functions", jump_cases(), quick=1500, thorough=40000)
def averages_of_jumps(case):
    a, b, n = case["a"], case["a"] + case["L"], case["n"]
    mesh = core.UniformMesh(core.Interval(a, b), n)
    function = lambda x: float(case["values"][min(max(int((x - a) / (b - a) * n), 0), n - 1)])
    actual = core.CellAverageInterpolator(mesh, case["degree"]).interpolate(function)
    close(actual, case["values"], 1e-12 * (1 + max(map(abs, case["values"]))), "averages")
    return len(set(case["values"])) > 1


################################################################################
# interpolation in time and space
################################################################################
@st.composite
def increasing(draw, low=1, high=8):
    steps = draw(st.lists(gen.grid_float(1 / 16, 2, 16), min_size=low - 1, max_size=high - 1))
    points = [draw(gen.signed(4, 16))]
    for step in steps:
        points.append(points[-1] + step)
    return points


@st.composite
def interpolation_cases(draw):
    old = draw(increasing())
    extra = draw(st.lists(st.one_of(gen.signed(12, 32), gen.rough(-10, 15)), max_size=6))
    common = draw(st.lists(st.sampled_from(old), max_size=4))
    new = sorted(set(extra + common)) or [0.0]
    shape = draw(st.lists(st.integers(1, 3), max_size=2))
    times = draw(st.integers(1, 3))
    return {
        "old": old,
        "new": new,
        "shape": shape,
        "times": times,
        "seed": draw(st.integers(0, 10**6)),
        "constant": draw(st.integers(0, 5)) == 0,
    }


def linear(old, values, x):
    """Piecewise linear interpolant with constant extension."""
    if x <= old[0]:
        return values[0]
    if x >= old[-1]:
        return values[-1]
    i = max(j for j in range(len(old)) if old[j] <= x)
    weight = (x - old[i]) / (old[i + 1] - old[i])
    return (1 - weight) * values[i] + weight * values[i + 1]


def data(case, *dimensions):
    generator = np.random.default_rng(case["seed"])
    values = generator.integers(-64, 64, size=dimensions) / 16
    return np.ones(dimensions) if case["constant"] else values


@check.facet("interpolation in time", interpolation_cases(), quick=3000, thorough=80000)
def temporal(case):
    old, new = np.array(case["old"]), np.array(case["new"])
    values = data(case, len(old), *(case["shape"] or [2]))
    copies = old.copy(), new.copy(), values.copy()
    actual = core.TemporalInterpolator()(old, values, new)
    expected = np.array([linear(case["old"], values, x) for x in case["new"]])
    close(actual, expected, 1e-13 * 10, "interpolation in time")
    for x, value in zip(case["new"], actual):
        if x in case["old"]:
            close(value, values[case["old"].index(x)], 1e-14, "value at a common time")
    require(
        all(np.array_equal(a, b) for a, b in zip(copies, (old, new, values))), "interpolation modifies its input"
    )
    return not case["constant"] and len(old) > 1


@check.facet("interpolation in space", interpolation_cases(), quick=3000, thorough=80000)
def spatial(case):
    old, new = np.array(case["old"]), np.array(case["new"])
    values = data(case, case["times"], len(old), *case["shape"])
    copies = old.copy(), new.copy(), values.copy()
    actual = core.SpatialInterpolator()(old, values, new)
    expected = np.array([[linear(case["old"], v, x) for x in case["new"]] for v in values])
    close(actual, expected, 1e-13 * 10, "interpolation in space")
    require(
        all(np.array_equal(a, b) for a, b in zip(copies, (old, new, values))), "interpolation modifies its input"
    )
    return not case["constant"] and len(old) > 1


################################################################################
# many rules and fine meshes
################################################################################
@st.composite
def nearby_rules(draw):
    base = draw(intervals())
    moves = draw(st.lists(
        st.fixed_dictionaries({
            "shift": st.sampled_from([0.0, 0.0, 2.0**-4, 2.0**-10, 2.0**-18, 2.0**-26, 1.0, -1.0]),
            "factor": st.sampled_from([1.0, 1.0, 1 + 2.0**-10, 1 + 2.0**-20, 2.0, 0.5, 2.0**-8, 2.0**-12]),
            "n": st.integers(1, 5),
            "symmetric": st.booleans(),
        }), min_size=2, max_size=6,
    ))
    return {**base, "moves": moves, "coefficients": draw(st.lists(gen.signed(2, 4), min_size=10, max_size=10))}


@check.facet(
    "sequences of rules", nearby_rules(), quick=1500, thorough=40000,
    rule="rules on several, often nearly equal or tiny, intervals which are used in turns",
)
def sequences(case):
    a, b = case["a"], case["a"] + case["L"]
    rules = []
    for move in case["moves"]:
        length = (b - a) * move["factor"]
        if length < 1e-6 * (1 + abs(a)):
            # intervals must not vanish by rounding
            length = case["L"]
        a = a + move["shift"] * length
        b = a + length
        rules.append((core.GaussianQuadrature(move["n"], core.Interval(a, b)), a, b, move["n"]))
        if move["symmetric"]:
            rules.append((core.SpecificGaussianQuadrature(move["n"]), -1.0, 1.0, move["n"]))
            rules.append((core.LocalElementQuadrature(move["n"]), 0.0, 1.0, move["n"]))
    for rule, a, b, n in rules + rules[::-1]:
        length, middle = b - a, (a + b) / 2
        offset = 1e-16 * (abs(a) + abs(b)) / length
        coefficients = case["coefficients"][: 2 * n]
        size = sum(map(abs, coefficients))
        reference, weights = np.polynomial.legendre.leggauss(n)
        close((np.array(rule.nodes) - middle) / (length / 2), reference, 1e-13 + 20 * offset, "nodes of one of several rules")
        close(rule.weights, weights * length / 2, 1e-13 * length, "weights of one of several rules")
        close(
            rule.integrate(lambda x: value_of(coefficients, (x - middle) / (length / 2))), length * mean_of(coefficients),
            length * size * (1e-13 + 100 * n * offset), "polynomial is not integrated exactly by one of several rules",
        )
        close([rule.domain.a, rule.domain.b], [a, b], 0, "domain of one of several rules")
    return len({(a, b) for _, a, b, _ in rules}) > 1


SCHEMES = {
    "shallow_water": ["llf", "lw", "low-order", "central", "es", "es1", "reduced-llf", "mcl", "mcl:es", "antidiffusion", "coarse:2", "coarse:3:es"],
    "scalar": list(bench.SCALAR_FV),
    "element": feref.SCHEMES,
}


@st.composite
def initial_cases(draw):
    kind = draw(st.sampled_from(["shallow_water", "scalar", "element"]))
    scheme = draw(st.sampled_from(SCHEMES[kind]))
    n = draw(st.one_of(st.integers(4, 16), st.integers(4, 60) if kind == "element" else st.integers(17, 300)))
    if scheme.startswith("coarse"):
        n = n // 6 * 6 + 6
    polynomials = st.lists(gen.signed(1, 8), min_size=4, max_size=4)
    return {
        **draw(intervals()), "kind": kind, "scheme": scheme, "n": n, "degree": draw(st.integers(1, 4)),
        "problem": "shallow_water" if kind == "shallow_water" else draw(st.sampled_from(["advection", "burgers"])),
        "data": draw(st.lists(st.tuples(polynomials, polynomials, polynomials).map(list), min_size=2, max_size=2)),
        "start": draw(st.sampled_from([0.0, 0.0, 1.5, -2.0])), "history": draw(st.booleans()),
        "bare": draw(st.booleans()),
    }


@check.facet(
    "discretised data", initial_cases(), quick=1200, thorough=30000,
    rule="initial data and bottom are cubic polynomials; cell averages and nodal values on meshes of up to 300 cells"
    " which solvers start with, at first and after reinitialising",
)
def initial(case):
    a, b, n, kind = case["a"], case["a"] + case["L"], case["n"], case["kind"]
    middle, half = (a + b) / 2, (b - a) / 2
    offset = 1e-16 * (abs(a) + abs(b)) / half
    local = lambda x: min(max((x - middle) / half, -2.0), 2.0)

    def averages(polynomial, cells):
        edges = np.linspace(-1, 1, cells + 1)
        antiderivative = sum(c * edges ** (k + 1) / (k + 1) for k, c in enumerate(polynomial))
        return np.diff(antiderivative) / np.diff(edges)

    def benchmark(data):
        first, second, bottom = data

        class Cubic(ShallowWaterBenchmark if kind == "shallow_water" else core.Benchmark):
            problem = case["problem"]
            domain = core.Interval(a, b)
            start_time = case["start"]
            _boundary_conditions = "periodic" if "reduced" in case["scheme"] or kind == "element" else "outflow"

            def __init__(self, end_time=case["start"] + 1.0):
                self.end_time = end_time

            def initial_data(self, x):
                value = value_of(first, local(x))
                return np.array([10.0 + value, value_of(second, local(x))]) if kind == "shallow_water" else float(value)

            def bathymetry(self, x):
                return float(value_of(bottom, local(x)))

        if case["scheme"] == "lw" or "reduced" in case["scheme"]:
            Cubic.bathymetry = lambda self, x: 1.0
        if kind == "shallow_water":
            Cubic.gravitational_acceleration = 9.81
        return Cubic()

    def expected(data):
        first, second, _ = data
        if kind == "element":
            return np.array([value_of(first, local(a + (b - a) * i / (n * case["degree"]))) for i in range(n * case["degree"])])
        cells = n // int(case["scheme"].split(":")[1]) if case["scheme"].startswith("coarse") else n
        if kind == "scalar":
            return averages(first, cells)
        return np.array([averages([10.0 + first[0], *first[1:]], cells), averages(second, cells)]).T

    def verify(solution, data, label):
        close(solution.value, expected(data), 1e-10 + 1e4 * n * offset, label)
        require(solution.time == case["start"], f"{label}: time", actual=solution.time)
        if case["history"]:
            close(solution.value_history, [expected(data)], 1e-10 + 1e4 * n * offset, f"{label}: history")

    start, other = case["data"]
    if case["bare"] and kind == "element":
        verify(finite_element.get_finite_element_solution(benchmark(start), n, case["degree"], case["history"]), start, "nodal values")
    elif case["bare"] and not case["scheme"].startswith("coarse"):
        verify(finite_volume.get_finite_volume_solution(benchmark(start), n, case["history"]), start, "cell averages")
    if kind == "shallow_water" and case["scheme"] != "lw" and "reduced" not in case["scheme"]:
        actual = shallow_water.build_bathymetry_discretization(benchmark(start), n)
        close(actual, averages(start[2], n), 1e-10 + 1e4 * n * offset, "averages of the bottom")
    arguments = {"mesh_size": n, "save_history": case["history"]}
    if kind == "element":
        solver = feref.SOLVERS[case["scheme"]](benchmark(start), polynomial_degree=case["degree"], **arguments)
    else:
        solver = bench.solver_class(case["problem"], case["scheme"])(benchmark(start), **arguments)
    verify(solver.solution, start, "initial data of a solver")
    solver.reinitialize(benchmark(other))
    verify(solver.solution, other, "data of a reinitialised solver")
    return any(start[0][1:]), [kind, case["scheme"].split(":")[0], "many cells" if n > 64 else "few cells"]
