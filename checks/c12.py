"""Explicit Runge-Kutta methods."""
import functools
import math

import numpy as np
from hypothesis import strategies as st

import core
from finite_element.ode_solver import build_optimal_ode_solver
from pbt import gen
from pbt.runner import Check, close, require

check = Check(
    "C12",
    rule="A case is a method, a right hand side a0 + a1 t + a2 x + a3 t x + a4 x^2 + mixing of neighboured entries, a state"
    " (number, vector or matrix) and a sequence of steps, resets and modifications of the caller's data. Non-trivial:"
    " at least one step with a right hand side depending on time or state.",
)

METHODS = {
    "euler": (core.ForwardEuler, 1),
    "heun": (core.Heun, 2),
    "ssp3": (core.StrongStabilityPreservingRungeKutta3, 3),
    "rk8": (core.RungeKutta8, 8),
}
TABLEAUS = {
    "euler": ([[0.0]], [1.0], [0.0]),
    "heun": ([[0.0, 0.0], [1.0, 0.0]], [0.5, 0.5], [0.0, 1.0]),
    "ssp3": ([[0, 0, 0], [1, 0, 0], [0.25, 0.25, 0]], [1 / 6, 1 / 6, 2 / 3], [0.0, 1.0, 0.5]),
}


################################################################################
# coefficients and order conditions
################################################################################
def tableau(method, stages, dt, start):
    """Coefficients of METHOD read off from a probing right hand side, which
    returns the n-th unit vector for the n-th stage.

    """
    calls = []

    def probe(time, value):
        unit = np.zeros(stages)
        if len(calls) < stages:
            unit[len(calls)] = 1.0
        calls.append(time)
        return unit

    solver = method(probe, np.zeros(stages), initial_time=start)
    solver.execute(dt)
    require(len(calls) == stages, "number of stages", calls=len(calls))
    matrix = np.array(solver.stage_values) / dt
    weights = np.array(solver.solution) / dt
    nodes = (np.array(solver.time_nodes) - start) / dt
    close(calls, solver.time_nodes, 0, "right hand side is evaluated at other times than reported")
    return matrix, weights, nodes


@functools.lru_cache(None)
def trees(order):
    """Rooted trees as nested sorted tuples."""
    if order == 1:
        return [()]
    result = set()

    def forests(remaining, largest, forest):
        if remaining == 0:
            result.add(tuple(sorted(forest)))
            return
        for size in range(1, min(remaining, largest) + 1):
            for tree in trees(size):
                forests(remaining - size, size, forest + [tree])

    forests(order - 1, order - 1, [])
    return sorted(result)


def size_and_density(tree):
    size, density = 1, 1
    for child in tree:
        n, gamma = size_and_density(child)
        size += n
        density *= gamma
    return size, density * size


def weight_vector(tree, matrix):
    vector = np.ones(len(matrix))
    for child in tree:
        vector = vector * (matrix @ weight_vector(child, matrix))
    return vector


def order_of(matrix, weights, highest=8):
    """Largest order whose conditions are all satisfied."""
    for order in range(1, highest + 1):
        for tree in trees(order):
            _, density = size_and_density(tree)
            if abs(weights @ weight_vector(tree, matrix) - 1 / density) > 1e-11:
                return order - 1
    return highest


STAGES = {"euler": 1, "heun": 2, "ssp3": 3, "rk8": 11}

order_cases = st.fixed_dictionaries(
    {
        "method": st.sampled_from(list(METHODS)),
        "dt": st.sampled_from([1.0, 0.5, 0.125, 2.0]),
        "start": st.sampled_from([0.0, 0.0, 1.0, -2.0]),
        "degree": st.integers(1, 7),
        "n": st.integers(3, 6),
    }
)


@check.facet("order conditions", order_cases, quick=160, thorough=1600,
             rule="every case (all rooted trees up to the order are decided)")
def orders(case):
    method, order = METHODS[case["method"]]
    matrix, weights, nodes = tableau(method, STAGES[case["method"]], case["dt"], case["start"])
    require(np.all(np.triu(matrix) == 0), "method is not explicit")
    close(nodes, matrix.sum(axis=1), 1e-13, "stage times are not the row sums of the tableau", method=case["method"])
    actual = order_of(matrix, weights, order)
    require(actual >= order, "order of " + case["method"], actual=actual, expected=order)
    if case["method"] in TABLEAUS:
        expected = TABLEAUS[case["method"]]
        close(matrix, expected[0], 1e-14, "coefficients of " + case["method"])
        close(weights, expected[1], 1e-14, "weights of " + case["method"])
        close(nodes, expected[2], 1e-14, "nodes of " + case["method"])

    # the method chosen for finite elements matches their order
    space = finite_element_space(case["n"], case["degree"])
    chosen = build_optimal_ode_solver(space)
    names = [n for n, (m, _) in METHODS.items() if m is chosen]
    require(names, "unknown method", degree=case["degree"])
    require(
        METHODS[names[0]][1] >= case["degree"] + 1, "order of the method for finite elements", degree=case["degree"],
        method=names[0],
    )
    return True, [case["method"]]


def finite_element_space(n, degree):
    import finite_element

    return finite_element.LagrangeSpace(core.UniformMesh(core.Interval(0, 1), n), degree)


################################################################################
# histories
################################################################################
def value_strategy(shape):
    number = st.one_of(gen.signed(2), gen.rough(-2, 2))
    if shape == "number":
        return number
    if isinstance(shape, int):
        return st.lists(number, min_size=shape, max_size=shape)
    return st.lists(st.lists(number, min_size=shape[1], max_size=shape[1]), min_size=shape[0], max_size=shape[0])


@st.composite
def histories(draw):
    shape = draw(st.one_of(st.just("number"), st.integers(1, 4), st.tuples(st.integers(1, 3), st.integers(1, 3))))
    step = st.tuples(st.just("step"), st.one_of(st.sampled_from([0.5, 0.25, 0.125, 1.0]), gen.log_float(1e-6, 1)))
    again = st.tuples(st.just("reinitialize"), value_strategy(shape), st.one_of(st.just(0.0), st.none(), gen.signed(3)))
    modify = st.tuples(st.just("modify"), gen.signed(2))
    return {
        "method": draw(st.sampled_from(list(METHODS))),
        "value": draw(value_strategy(shape)),
        "start": draw(st.one_of(st.none(), st.just(0.0), gen.signed(3))),
        "coefficients": draw(st.lists(gen.signed(1), min_size=6, max_size=6)),
        "operations": draw(st.lists(st.one_of(step, step, step, again, modify), min_size=1, max_size=8)),
    }


def right_hand_side(coefficients, log=None):
    a = coefficients

    def rhs(t, x):
        if log is not None:
            log.append((t, np.array(x, dtype=float)))
        mixing = np.roll(x, 1, axis=0) if isinstance(x, np.ndarray) else x
        return a[0] + a[1] * t + a[2] * x + a[3] * t * x + a[4] * x * x / 4 + a[5] * mixing

    return rhs


class Model:
    def __init__(self, name, value, start, rhs):
        self.matrix, self.weights, self.nodes = coefficients_of(name)
        self.rhs = rhs
        self.reset(value, start)

    def reset(self, value, start):
        self.value = np.array(value, dtype=float)
        self.time = start
        self.size = np.abs(self.value) + 1e-300

    def step(self, dt):
        stages, self.stage_values, self.time_nodes = [], [], []
        for row, node in zip(self.matrix, self.nodes):
            x = self.value + dt * sum((a * k for a, k in zip(row, stages)), 0 * self.value)
            self.stage_values.append(x)
            self.time_nodes.append(self.time + node * dt)
            stages.append(np.asarray(self.rhs(self.time_nodes[-1], x)))
            self.size = np.maximum(self.size, np.abs(x))
            self.size = self.size + dt * np.abs(stages[-1])
        self.value = self.value + dt * sum(b * k for b, k in zip(self.weights, stages))
        self.time += dt


@functools.lru_cache(None)
def coefficients_of(name):
    if name in TABLEAUS:
        return TABLEAUS[name]
    matrix, weights, nodes = tableau(METHODS[name][0], STAGES[name], 1.0, 0.0)
    return matrix.tolist(), weights.tolist(), nodes.tolist()


def to_state(value):
    return float(value) if not isinstance(value, list) else np.array(value, dtype=float)


@check.facet("histories", histories(), quick=4000, thorough=120000)
def history(case):
    log = []
    rhs = right_hand_side(case["coefficients"], log)
    name = case["method"]
    value = to_state(case["value"])
    arguments = {} if case["start"] is None else {"initial_time": case["start"]}
    solver = METHODS[name][0](rhs, value, **arguments)
    model = Model(name, value, case["start"] or 0.0, right_hand_side(case["coefficients"]))
    passed = value
    executed = False
    fresh = True
    for operation in case["operations"]:
        if operation[0] == "step":
            dt = operation[1]
            snapshot = np.copy(passed)
            log.clear()
            solver.execute(dt)
            model.step(dt)
            executed = True
            if not np.all(model.size < 1e6):
                return False, ["blow up"]
            growth = (1 + float(np.max(model.size))) ** 2
            tolerance = 1e-12 * float(np.max(model.size)) * growth
            require(len(solver.stage_values) == len(model.stage_values), "number of stage values")
            for i, (a, b) in enumerate(zip(solver.stage_values, model.stage_values)):
                close(a, b, tolerance, f"stage {i} of {name}")
            close(solver.time_nodes, model.time_nodes, 1e-13 * (abs(model.time) + dt), "time nodes of " + name)
            require(np.array_equal(passed, snapshot), "data of the caller is modified by a step")
            require(len(log) == len(model.stage_values), "number of evaluations", actual=len(log))
            for (t, x), node, stage in zip(log, model.time_nodes, model.stage_values):
                close(t, node, 1e-13 * (abs(model.time) + dt), "time of an evaluation")
                close(x, stage, tolerance, "state of an evaluation")
            fresh = False
        elif operation[0] == "reinitialize":
            passed = to_state(operation[1])
            if operation[2] is None:
                solver.reinitialize(passed)
            else:
                solver.reinitialize(passed, operation[2])
            model.reset(passed, operation[2] or 0.0)
            fresh = True
        elif isinstance(passed, np.ndarray):
            passed += operation[1]
        require(solver.time == model.time, "time", actual=solver.time, expected=model.time)
        growth = (1 + float(np.max(model.size))) ** 2
        close(solver.solution, model.value, 0 if fresh else 1e-12 * float(np.max(model.size)) * growth, "solution of " + name)
    depends = any(case["coefficients"][1:])
    kind = "number" if not isinstance(case["value"], list) else str(np.ndim(case["value"])) + "d"
    return executed and depends, [name, kind]


################################################################################
# exactness
################################################################################
@st.composite
def polynomial_cases(draw):
    name = draw(st.sampled_from(list(METHODS)))
    degree = METHODS[name][1] - 1
    return {
        "method": name,
        "coefficients": draw(st.lists(gen.signed(4), min_size=degree + 1, max_size=degree + 1)),
        "start": draw(gen.signed(1)),
        "value": draw(gen.signed(4)),
        "steps": draw(st.lists(gen.grid_float(1 / 16, 1, 16), min_size=1, max_size=6)),
    }


@check.facet("polynomials in time", polynomial_cases(), quick=1600, thorough=40000,
             rule="the polynomial is not constant or has degree zero for Euler's method")
def polynomials(case):
    polynomial = np.polynomial.Polynomial(case["coefficients"])
    integral = polynomial.integ()
    solver = METHODS[case["method"]][0](lambda t, x: polynomial(t), case["value"], initial_time=case["start"])
    time = case["start"]
    size = abs(case["value"])
    for dt in case["steps"]:
        solver.execute(dt)
        time += dt
        size += sum(abs(c) * max(1, abs(time)) ** (i + 1) for i, c in enumerate(case["coefficients"]))
        close(
            solver.solution, case["value"] + integral(time) - integral(case["start"]), 1e-12 * size,
            "integral of a polynomial with " + case["method"],
        )
    return any(case["coefficients"][1:]) or case["method"] == "euler", [case["method"]]


@st.composite
def linear_cases(draw):
    return {
        "method": draw(st.sampled_from(list(METHODS))),
        "real": draw(gen.signed(2)),
        "imaginary": draw(gen.signed(2)),
        "dt": draw(gen.grid_float(1 / 32, 1, 32)),
    }


@check.facet("linear systems", linear_cases(), quick=1600, thorough=40000, rule="the eigenvalue does not vanish")
def linear(case):
    """The stability function agrees with the exponential series up to the order
    and is a polynomial of the number of stages.

    """
    a, b, dt = case["real"], case["imaginary"], case["dt"]
    matrix = np.array([[a, -b], [b, a]])
    solver = METHODS[case["method"]][0](lambda t, x: matrix @ x, np.array([1.0, 0.0]))
    solver.execute(dt)
    z = complex(a, b) * dt
    order, stages = METHODS[case["method"]][1], STAGES[case["method"]]
    series = sum(z**k / math.factorial(k) for k in range(order + 1))
    actual = complex(*solver.solution)
    # the remaining coefficients of the eighth order method are below those of exp
    bound = sum(abs(z) ** k for k in range(order + 1, stages + 1)) / math.factorial(order)
    require(
        abs(actual - series) <= 1e-12 * (1 + abs(z)) ** stages + bound,
        "stability function of " + case["method"], actual=str(actual), expected=str(series),
    )
    return z != 0, [case["method"]]
