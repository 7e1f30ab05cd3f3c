"""Sparse system matrices against dense ones."""
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.sparse import csc_matrix, csr_matrix, issparse, lil_matrix

import core
from pbt import gen
from pbt.runner import Check, close, require

check = Check(
    "C30",
    rule="A case is a sequence of operations on two system matrices of the same dimension with a dense model of each."
    " Non-trivial: values changed after a product, sum or solve and one of them was evaluated again.",
    assumptions=["solves are compared for condition numbers below 1e7"],
)

WRITES = ("entry", "add_entry", "slice", "values", "values", "refresh", "refresh", "refresh", "factorise", "factorise")
READS = ("dot", "solve", "solve", "sum", "difference", "rows", "columns", "get", "call", "repr")


def entries():
    return st.one_of(st.just(0.0), gen.signed(4, 8), gen.rough(-10, 10))


@st.composite
def matrices(draw, n):
    kind = draw(st.integers(0, 3))
    values = [[0.0] * n for _ in range(n)]
    if kind == 0:
        values = [[draw(entries()) for _ in range(n)] for _ in range(n)]
    else:
        for _ in range(draw(st.integers(0, 2 * n))):
            values[draw(st.integers(0, n - 1))][draw(st.integers(0, n - 1))] = draw(entries())
    if kind != 3:
        for i in range(n):
            values[i][i] = draw(st.sampled_from([-1.0, 1.0])) * (1.0 + sum(abs(v) for v in values[i]))
    return values


@st.composite
def sequences(draw):
    n = draw(st.integers(1, 7))
    vector = st.lists(entries(), min_size=n, max_size=n)
    operations = []
    for _ in range(draw(st.integers(1, 14))):
        kind = draw(st.sampled_from(WRITES + READS))
        operation = [kind, draw(st.integers(0, 1))]
        if kind in ("entry", "add_entry"):
            operation += [draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1)), draw(entries())]
        elif kind == "slice":
            operation += [draw(st.integers(0, n - 1)), draw(vector)]
        elif kind == "values":
            operation += [draw(matrices(n)), draw(st.sampled_from(["array", "csr", "lil", "csc"]))]
        elif kind in ("dot", "solve", "rows", "columns"):
            operation += [draw(vector)]
        elif kind == "get":
            operation += [draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))]
        operations.append(operation)
    return {"n": n, "first": draw(matrices(n)), "second": draw(matrices(n)), "operations": operations}


def dense(matrix):
    return np.asarray(matrix.toarray() if issparse(matrix) else matrix)


class Model:
    """Dense values and the ones of the last refresh."""

    def __init__(self, n, values):
        self.matrix = core.SystemMatrix(n)
        require(self.matrix.dimension == n, "dimension")
        require(not dense(self.matrix()).any(), "a new matrix does not vanish")
        self.current = np.array(values, dtype=float)
        self.matrix.set_values(np.array(values, dtype=float))
        self.refreshed = self.current.copy()

    @property
    def stale(self):
        """Entries have been assigned since the last refresh. Until the next one, products, sums and solves may use
        the old or the new values."""
        return not np.array_equal(self.current, self.refreshed)

    def compare(self, message):
        close(dense(self.matrix()), self.current, 0, message + ": values")


CONTAINERS = {"array": np.array, "csr": csr_matrix, "lil": lil_matrix, "csc": csc_matrix}


@check.facet(
    "sequences",
    sequences(),
    quick=5000,
    thorough=150000,
    examples=[
        {
            "n": 2,
            "first": [[2.0, 1.0], [0.0, 4.0]],
            "second": [[1.0, 0.0], [0.0, 1.0]],
            "operations": [
                ["factorise", 0], ["solve", 0, [1.0, 2.0]], ["entry", 0, 0, 0, 8.0], ["solve", 0, [1.0, 2.0]],
                ["refresh", 0], ["solve", 0, [1.0, 2.0]], ["factorise", 0], ["values", 0, [[1.0, 2.0], [3.0, 4.0]], "array"],
                ["solve", 0, [1.0, 2.0]],
            ],
        }
    ],
)
def sequences_of_operations(case):
    n = case["n"]
    models = [Model(n, case["first"]), Model(n, case["second"])]
    read = written = nontrivial = False
    tags = set()
    for operation in case["operations"]:
        kind, index, *arguments = operation
        model, other = models[index], models[1 - index]
        matrix = model.matrix
        tags.add(kind)
        if kind in ("entry", "add_entry"):
            i, j, value = arguments
            if kind == "entry":
                matrix[i, j] = value
                model.current[i, j] = value
            else:
                matrix[i, j] += value
                model.current[i, j] += value
        elif kind == "nudge":
            i, j, power = arguments
            value = model.current[i, j] * (1 + 2.0**power)
            matrix[i, j] = value
            model.current[i, j] = value
        elif kind in ("roll", "mirror", "transpose"):
            values = {
                "roll": lambda m: np.roll(m, 1, axis=1), "mirror": lambda m: m[::-1, ::-1], "transpose": np.transpose
            }[kind](model.current).copy()
            for i in range(n):
                matrix[i, :] = values[i]
            model.current = values
        elif kind == "slice":
            matrix[arguments[0], :] = np.array(arguments[1])
            model.current[arguments[0], :] = arguments[1]
        elif kind == "values":
            values = CONTAINERS[arguments[1]](np.array(arguments[0], dtype=float))
            matrix.set_values(values)
            close(dense(values), np.array(arguments[0]), 0, "assigned values are changed")
            if arguments[1] == "array":
                values[:] = 17.0  # the matrix owns its values
            model.current = np.array(arguments[0], dtype=float)
            model.refreshed = model.current.copy()
        elif kind == "refresh":
            matrix.update_csr_values()
            model.refreshed = model.current.copy()
        elif kind == "factorise":
            if model.stale:
                matrix.update_csr_values()
                model.refreshed = model.current.copy()
            if np.linalg.cond(model.refreshed) > 1e7:
                continue
            matrix.build_inverse()
        elif kind in ("dot", "solve") and model.stale or kind in ("sum", "difference") and (model.stale or other.stale):
            tags.add("stale")
            continue
        elif kind == "dot":
            vector = np.array(arguments[0])
            product = matrix.dot(vector)
            scale = np.abs(model.refreshed) @ np.abs(vector)
            close(product, model.refreshed @ vector, 1e-14 * n * (scale + 1e-300), "product")
            close(vector, arguments[0], 0, "the product changes the vector")
            product[:] = -3.0
        elif kind == "solve":
            condition = np.linalg.cond(model.refreshed)
            if not condition < 1e7:
                continue
            vector = np.array(arguments[0])
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                solution = np.asarray(matrix.inverse(vector))
            expected = np.linalg.solve(model.refreshed, vector)
            size = 1e-14 * n * condition * (np.abs(expected).max() + 1e-300)
            close(solution, expected, size * 10, "solution of the linear system")
            close(vector, arguments[0], 0, "solving changes the vector")
        elif kind == "sum":
            total = matrix + other.matrix
            close(dense(total), model.refreshed + other.refreshed, 0, "sum")
            if issparse(total):
                total.data[:] = 5.0
        elif kind == "difference":
            total = matrix - other.matrix
            close(dense(total), model.refreshed - other.refreshed, 0, "difference")
            if issparse(total):
                total.data[:] = 5.0
        elif kind == "rows":
            vector = np.array(arguments[0])
            close(dense(matrix.multiply_row(vector)), model.current * vector[None, :], 0, "rows times a vector")
            close(vector, arguments[0], 0, "multiplying rows changes the vector")
        elif kind == "columns":
            vector = np.array(arguments[0])
            close(dense(matrix.multiply_column(vector)), model.current * vector[:, None], 0, "columns times a vector")
            close(vector, arguments[0], 0, "multiplying columns changes the vector")
        elif kind == "get":
            i, j = arguments
            require(matrix[i, j] == model.current[i, j], "entry", actual=matrix[i, j], expected=model.current[i, j])
        elif kind == "repr":
            require(repr(matrix) == repr(model.current), "representation", actual=repr(matrix))
        if kind in READS:
            nontrivial = nontrivial or (read and written)
            read = True
        elif read:
            written = True
        for number, m in enumerate(models):
            m.compare(f"after {kind} on matrix {index}, matrix {number}")
            if not m.stale:
                close(m.matrix.dot(np.ones(n)), m.refreshed @ np.ones(n), 1e-14 * n * np.abs(m.refreshed).sum() + 1e-300,
                      f"row sums after {kind}")
    return nontrivial, sorted(tags)


@st.composite
def rounds(draw):
    """Repeated changes, factorisations and solves of one matrix and uses of another one in between."""
    n = draw(st.integers(1, 4))
    vector = st.lists(gen.signed(4, 8), min_size=n, max_size=n)
    diagonal = gen.grid_float(1, 8, 4)

    def regular():
        values = [[draw(gen.signed(1, 8)) for _ in range(n)] for _ in range(n)]
        for i in range(n):
            values[i][i] = draw(diagonal) + n
        return values

    operations = []
    for _ in range(draw(st.integers(2, 5))):
        index = draw(st.sampled_from([0, 0, 1]))
        change = draw(st.sampled_from(["values", "values", "entry", "nothing"]))
        if change == "values":
            operations.append(["values", index, regular(), draw(st.sampled_from(["array", "csr", "lil", "csc"]))])
        elif change == "entry":
            i = draw(st.integers(0, n - 1))
            operations += [["entry", index, i, i, draw(diagonal) + 2 * n], ["refresh", index]]
        if draw(st.integers(0, 3)):
            operations.append(["factorise", index])
        for _ in range(draw(st.integers(1, 2))):
            operations.append(["solve", draw(st.sampled_from([index, index, 0, 1])), draw(vector)])
    return {"n": n, "first": regular(), "second": regular(), "operations": operations}


@check.facet("repeated factorisations", rounds(), quick=2000, thorough=60000)
def repeated_factorisations(case):
    return sequences_of_operations(case)


@st.composite
def small_changes(draw):
    """Values changing slightly or only moving to other places."""
    n = draw(st.integers(1, 5))
    unit = 2.0 ** draw(st.sampled_from([0, 0, -20, -40, 20]))
    place = st.integers(0, n - 1)
    vector = st.lists(gen.signed(4, 8), min_size=n, max_size=n)

    def scaled():
        return [[unit * v for v in row] for row in draw(matrices(n))]

    operations = []
    for _ in range(draw(st.integers(1, 4))):
        index = draw(st.integers(0, 1))
        for _ in range(draw(st.integers(1, 2))):
            kind = draw(st.sampled_from(["nudge", "nudge", "roll", "mirror", "transpose", "factorise"]))
            operations.append([kind, index])
            if kind == "nudge":
                operations[-1] += [draw(place), draw(place), draw(st.sampled_from([-10, -18, -26, -34]))]
        operations.append(["refresh", index])
        for _ in range(draw(st.integers(1, 2))):
            kind = draw(st.sampled_from(["dot", "solve", "sum", "difference", "rows", "columns"]))
            operations.append([kind, index] + ([draw(vector)] if kind not in ("sum", "difference") else []))
    return {"n": n, "first": scaled(), "second": scaled(), "operations": operations}


@check.facet("small changes", small_changes(), quick=2000, thorough=60000)
def small_changes_of_values(case):
    return sequences_of_operations(case)
