"""Meshes, neighbours, coarsening and local bounds."""
import numpy as np
from hypothesis import strategies as st

import core
import finite_element
import finite_volume
from pbt import gen
from pbt.runner import Check, close, raises, require

check = Check(
    "C17",
    rule="A case is a mesh with points and degrees, or a neighbour map with a vector. Non-trivial: at least three"
    " cells (meshes), non-constant vectors (coarsening, bounds).",
)


@st.composite
def mesh_cases(draw):
    large = draw(st.integers(0, 15)) == 0
    n = draw(st.integers(60, 400) if large else st.one_of(st.integers(1, 12), st.integers(1, 60)))
    return {
        **draw(gen.domain()),
        "n": n,
        "refine": draw(st.integers(1, 4)),
        "coarsen": draw(st.integers(1, 16 if large else 8)),
        "points": draw(st.lists(gen.grid_float(-0.25, 1.25, 64), min_size=1, max_size=6)),
        "cells": draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=4)),
        "local": draw(gen.grid_float(0, 1)),
        "degree": draw(st.integers(1, 4)),
    }


def is_partition(mesh, a, b, n, message):
    require(len(mesh) == n, message + ": number of cells", actual=len(mesh), expected=n)
    cells = list(mesh)
    size = 1e-15 * 4 * (abs(a) + abs(b))
    require(cells[0].a == a and cells[-1].b == b, message + ": ends", ends=(cells[0].a, cells[-1].b))
    require(mesh.domain.a == a and mesh.domain.b == b, message + ": domain")
    for left, right in zip(cells, cells[1:]):
        require(left.b == right.a, message + ": cells are not adjacent", cells=(repr(left), repr(right)))
    lengths = [c.b - c.a for c in cells]
    close(lengths, [(b - a) / n] * n, size, message + ": cell lengths")
    close(mesh.step_length, (b - a) / n, size, message + ": step length")
    close(mesh.space_steps, [(b - a) / n] * n, size, message + ": space steps")
    for i, cell in enumerate(cells):
        require(mesh[i] == cell and mesh.index(cell) == i, message + ": index of a cell", index=i)
        close(cell.length, lengths[i], 0, message + ": length of a cell")
        close(cell.center, (cell.a + cell.b) / 2, 0, message + ": center of a cell")


@check.facet("meshes", mesh_cases(), quick=4000, thorough=100000)
def meshes(case):
    a, b, n = case["a"], case["a"] + case["L"], case["n"]
    domain = core.Interval(a, b)
    mesh = core.UniformMesh(domain, n)
    is_partition(mesh, a, b, n, "mesh")
    is_partition(mesh.refine(case["refine"]), a, b, n * case["refine"], "refined mesh")
    is_partition(mesh.refine(), a, b, n * 2, "refined mesh")
    degree = case["coarsen"]
    space = finite_volume.FiniteVolumeSpace(mesh)
    if n % degree == 0:
        is_partition(mesh.coarsen(degree), a, b, n // degree, "coarsened mesh")
        require(mesh.coarsen(degree) == core.UniformMesh(domain, n // degree), "coarsened mesh differs")
        require(space.coarsen(degree).dimension == n // degree, "coarsened space")
    else:
        raises((AssertionError, ValueError), lambda: mesh.coarsen(degree), "coarsening is accepted", n=n, degree=degree)
        raises((AssertionError, ValueError), lambda: space.coarsen(degree), "coarsening of a space is accepted")
    is_partition(mesh, a, b, n, "mesh after refining and coarsening")
    require(mesh.refine(degree).coarsen(degree) == mesh, "refining and coarsening is not the identity")
    require(mesh == core.UniformMesh(core.Interval(a, b), n), "equal meshes differ")
    require(not mesh == core.UniformMesh(domain, n + 1), "different meshes are equal")
    length = b - a
    for left, right in ((a + length, b + length), (a, b + length), (a - length, b), (a + length / 4, b + length / 4)):
        for size in {n, n * 2}:
            other = core.UniformMesh(core.Interval(left, right), size)
            require(not mesh == other and not other == mesh, "meshes of different domains are equal", other=(left, right, size))

    # spaces
    centers = np.array([(c.a + c.b) / 2 for c in mesh])
    require(space.dimension == n and space.node_number == n, "dimension of the space")
    close(space.grid, centers, 0, "cell centers")
    close(space.refine(case["refine"]).grid, finite_volume.FiniteVolumeSpace(mesh.refine(case["refine"])).grid, 0, "refined space")
    vector = np.arange(n) * 1.5
    element = space.element(vector)
    for i in case["cells"]:
        close(element(i, mesh[i].center), vector[i], 0, "value of a piecewise constant function")

    # point location
    points = [a + p * (b - a) for p in case["points"]] + [mesh[i].a for i in case["cells"]] + [a, b]
    for point in points:
        expected = [i for i, cell in enumerate(mesh) if cell.a <= point <= cell.b]
        require(list(mesh.find_cell_indices(point)) == expected, "cells of a point", point=point, expected=expected)
        require([mesh.index(c) for c in mesh.find_cells(point)] == expected, "cells of a point", point=point)
        require((point in domain) == (a <= point <= b), "point of an interval", point=point)
        require(domain.is_in_inner(point) == (a < point < b), "inner point", point=point)
        require(domain.is_in_boundary(point) == (point in (a, b)), "boundary point", point=point)
    raises((AssertionError, ValueError), lambda: core.Interval(b, a), "interval with reversed ends is accepted")
    raises((AssertionError, ValueError), lambda: core.Interval(a, a), "empty interval is accepted")

    # affine transformation
    transformation = core.AffineTransformation()
    cell = mesh[case["cells"][0]]
    point = transformation(case["local"], cell)
    size = abs(a) + abs(b)
    close(point, cell.a + case["local"] * (cell.b - cell.a), 1e-15 * 4 * size, "affine transformation")
    close(transformation.inverse(point, cell), case["local"], 1e-14 * (1 + size / cell.length), "inverse transformation")
    close(transformation.derivative(cell), cell.length, 0, "derivative of the transformation")
    close(transformation.inverse_derivative(cell) * cell.length, 1.0, 1e-14, "derivative of the inverse transformation")
    return n >= 3, ["coarsened" if n % degree == 0 and degree > 1 else "not coarsened"]


################################################################################
# neighbours and bounds
################################################################################
@st.composite
def neighbour_cases(draw):
    kind = draw(st.sampled_from(["fv", "fv periodic", "fe", "fe periodic"]))
    n = draw(st.one_of(st.integers(1, 6), st.integers(1, 20)))
    degree = draw(st.integers(1, 4)) if "fe" in kind else 1
    dimension = n if "fv" in kind else n * degree + (0 if "periodic" in kind else 1)
    columns = draw(st.one_of(st.none(), st.integers(1, 2)))
    number = gen.scalar_value()
    entry = number if columns is None else st.lists(number, min_size=columns, max_size=columns)
    return {
        "kind": kind,
        "n": n,
        "degree": degree,
        "values": draw(st.lists(entry, min_size=dimension, max_size=dimension)),
    }


@check.facet("neighbours and local bounds", neighbour_cases(), quick=4000, thorough=100000,
             rule="the vector is not constant and there are at least three indices")
def neighbours(case):
    n, kind, degree = case["n"], case["kind"], case["degree"]
    periodic = "periodic" in kind
    values = np.array(case["values"])
    dimension = len(values)
    if "fv" in kind:
        mapping = finite_volume.NeighbourIndicesMapping(n, periodic)
        expected = [set() for _ in range(n)]
        for i in range(n):
            for j in (i - 1, i, i + 1):
                if periodic:
                    expected[i].add(j % n)
                elif 0 <= j < n:
                    expected[i].add(j)
    else:
        mesh = core.UniformMesh(core.Interval(0, 1), n)
        index = finite_element.GlobalIndexMapping(mesh, degree, periodic=periodic)
        require(index.dimension == dimension, "number of degrees of freedom", actual=index.dimension)
        expected = [set() for _ in range(dimension)]
        for cell in range(n):
            members = [(cell * degree + i) % dimension if periodic else cell * degree + i for i in range(degree + 1)]
            actual = [index(cell, i) for i in range(degree + 1)]
            require(actual == members, "global indices of a cell", cell=cell, actual=actual, expected=members)
            for i in members:
                expected[i] |= set(members)
        mapping = finite_element.NeighbourIndicesMapping(index)
        raises((AssertionError, IndexError, ValueError), lambda: index(0, degree + 1), "local index outside of the cell is accepted")

    for i in range(dimension):
        actual = [int(j) for j in mapping(i)]
        require(len(actual) == len(set(actual)), "neighbour is listed twice", index=i, neighbours=actual)
        require(set(actual) == expected[i], "neighbours", index=i, actual=sorted(actual), expected=sorted(expected[i]))
        require(i in actual, "index is not its own neighbour", index=i)
        require(all(i in mapping(j) for j in actual), "neighbours are not symmetric", index=i)
        row = {int(j) for j in mapping.array[i]}
        require(row == expected[i], "array of neighbours", index=i, actual=sorted(row))

    original = values.copy()
    maximum, minimum = core.LocalMaximum(mapping)(values), core.LocalMinimum(mapping)(values)
    close(maximum, np.array([np.max(values[sorted(e)], axis=0) for e in expected]), 0, "local maximum")
    close(minimum, np.array([np.min(values[sorted(e)], axis=0) for e in expected]), 0, "local minimum")
    require(np.array_equal(values, original), "local bounds modify the vector")
    return dimension >= 3 and bool(np.any(values != values[0])), [kind]


################################################################################
# coarsening and elementwise functions
################################################################################
@st.composite
def coarsening_cases(draw):
    degree = draw(st.integers(1, 6))
    blocks = draw(st.integers(1, 6))
    rest = draw(st.sampled_from([0, 0, 0, 1])) * draw(st.integers(0, max(degree - 1, 0)))
    shape = draw(st.lists(st.integers(1, 3), max_size=2))
    return {
        "degree": degree,
        "n": blocks * degree + rest,
        "shape": shape,
        "seed": draw(st.integers(0, 10**6)),
        "cell": draw(st.integers(0, blocks - 1)),
    }


@check.facet("vector coarsening", coarsening_cases(), quick=3000, thorough=80000, rule="degree and block number at least two")
def coarsening(case):
    n, degree = case["n"], case["degree"]
    values = np.random.default_rng(case["seed"]).normal(size=[n] + case["shape"])
    original = values.copy()
    coarsener = core.VectorCoarsener(degree)
    if n % degree:
        raises((ValueError, AssertionError), lambda: coarsener(values), "vector is not divisible")
        raises((ValueError, AssertionError), lambda: core.FineGridIndicesMapping(n, degree), "mesh is not divisible")
        return False, ["refused"]
    coarse = coarsener(values)
    expected = np.array([sum(values[i * degree + k] for k in range(degree)) / degree for i in range(n // degree)])
    close(coarse, expected, 1e-14 * np.abs(values).max() * degree, "block averages")
    close(coarse.mean(axis=0), values.mean(axis=0), 1e-14 * n * np.abs(values).max(), "mean of the coarse vector")
    require(np.array_equal(values, original), "coarsening modifies its input")
    close(core.VectorCoarsener(1)(values), values, 0, "coarsening of degree one")
    first = coarsener(values)
    first += 1.0
    require(np.array_equal(values, original), "coarse vector is a view")
    require(coarsener.coarsening_degree == degree, "coarsening degree")
    mapping = core.FineGridIndicesMapping(n, degree)
    require(
        tuple(mapping(case["cell"])) == tuple(range(case["cell"] * degree, (case["cell"] + 1) * degree)),
        "fine cells of a coarse cell", actual=mapping(case["cell"]),
    )
    return degree > 1 and n > degree, [f"{len(case['shape']) + 1}d"]


@st.composite
def elementwise_cases(draw):
    n = draw(st.integers(1, 6))
    number = st.one_of(st.just(0.0), gen.signed(2), gen.rough(-3, 3))
    return {"vectors": draw(st.lists(st.lists(number, min_size=n, max_size=n), min_size=1, max_size=4))}


@check.facet("elementwise functions", elementwise_cases(), quick=1500, thorough=30000, rule="at least two vectors")
def elementwise(case):
    vectors = [np.array(v) for v in case["vectors"]]
    copies = [v.copy() for v in vectors]
    columns = list(zip(*case["vectors"]))
    close(core.maximum(*vectors), [max(c) for c in columns], 0, "maximum")
    close(core.minimum(*vectors), [min(c) for c in columns], 0, "minimum")
    if len(vectors) > 1:
        expected = [
            0.0 if a * b <= 0 and not (a > 0 and b > 0) and not (a < 0 and b < 0) else (min(a, b) if a > 0 else max(a, b))
            for a, b in zip(*case["vectors"][:2])
        ]
        close(core.minmod(*vectors[:2]), expected, 0, "minmod")
    require(all(np.array_equal(a, b) for a, b in zip(copies, vectors)), "input is modified")
    return len(vectors) > 1
