"""Finite element spaces, functions, matrices and vectors."""
import numpy as np
from hypothesis import strategies as st

import core
import finite_element
from finite_element import space as fe_space
from finite_element.scalar.solver import cg_low
from pbt import feref, gen
from pbt.runner import Check, close, require

check = Check(
    "C18",
    rule="A case is a mesh, a polynomial degree and coefficient vectors. Non-trivial: the coefficients are not"
    " constant.",
    assumptions=["polynomial degrees up to seven, the ones an integrator is available for, and at least three cells"],
)


@st.composite
def space_cases(draw, degrees=(1, 1, 2, 2, 3, 4, 5, 6, 7)):
    case = draw(feref.problem(degrees=degrees, high=9, dofs=30))
    n = len(case["values"])
    case["second"] = draw(gen.scalar_values(n))
    case["change"] = [draw(st.integers(0, n - 1)), draw(gen.signed(4))]
    case["points"] = draw(st.lists(gen.grid_float(0, 1), min_size=1, max_size=4))
    case["quadrature"] = draw(st.integers(1, 5))
    return case


def spaces(case):
    reference = feref.space_of(case)
    mesh = core.UniformMesh(core.Interval(case["a"], case["a"] + case["L"]), reference.cells)
    return reference, finite_element.LagrangeSpace(mesh, case["degree"])


def nontrivial(case):
    return len(set(case["values"])) > 1, [f"degree {case['degree']}", case["problem"]]


def rounding(case, *values):
    """Rounding of the monomial representation of the basis and of the cell lengths."""
    growth = {1: 1, 2: 4, 3: 20, 4: 2e2, 5: 2e3, 6: 2e4, 7: 3e5}[case["degree"]]
    cells = len(case["values"]) // case["degree"]
    length_error = 2e-15 * (abs(case["a"]) + case["L"]) / case["L"] * cells
    return (1e-14 * growth + length_error) * (1e-30 + max(np.max(np.abs(v)) for v in values))


def position_error(reference, case):
    """Error of local coordinates caused by large offsets of the domain."""
    return 1e-15 * 8 * (abs(case["a"]) + case["L"]) / reference.size


@check.facet("elements", space_cases(), quick=1200, thorough=40000)
def elements(case):
    reference, space = spaces(case)
    p, n = case["degree"], reference.n
    size = 1e-14 * (abs(case["a"]) + case["L"])
    require(space.dimension == n, "dimension", actual=space.dimension, expected=n)
    close(space.grid, reference.nodes, size, "grid")
    close(space.basis_nodes, reference.nodes, size, "basis nodes")
    values = np.array(case["values"])
    second = np.array(case["second"])
    element = space.element(values)
    tolerance = rounding(case, values)
    offset = position_error(reference, case)
    basis = fe_space.LocalLagrangeBasis(p)
    require(len(basis) == p + 1 and len(basis.nodes) == p + 1, "size of the local basis")
    close(basis.nodes, np.arange(p + 1) / p, 1e-15, "local nodes")

    fast = fe_space.FastFiniteElement(space)
    fast.set_values(*case["points"])
    fast.set_derivatives(*case["points"])
    quadrature = core.LocalElementQuadrature(case["quadrature"])
    nodes = feref.gauss(case["quadrature"])[0]
    fast_quadrature = fe_space.QuadratureFastElement(space, quadrature)
    fast_quadrature.set_values()
    fast_quadrature.set_derivatives()
    anchors = fe_space.AnchorNodesFastFiniteElement(space)
    anchors.set_values()
    anchors.set_derivatives()
    unit = rounding(case, [1.0])
    for point in case["points"]:
        close([b(point) for b in basis], feref.shape(p, point)[:, 0], unit, "local basis")
        close([b.derivative(point) for b in basis], feref.shape_derivative(p, point)[:, 0], unit * 10 * p,
              "derivatives of the local basis")
    for u, label in ((values, "first"), (second, "second")):
        # the vector of precomputed elements is replaced
        fast.dof_vector = fast_quadrature.dof_vector = anchors.dof_vector = u
        element = space.element(u)
        tolerance = rounding(case, u)
        slope = np.max(np.abs(u)) * 10 * p * p * offset
        for cell in range(reference.cells):
            left = case["a"] + reference.size * cell
            for k, local in enumerate(case["points"]):
                expected = reference.value(u, cell, local)
                derivative = reference.derivative(u, cell, local)
                x = left + local * reference.size
                close(element(cell, x), expected, tolerance + slope, f"element of {label} vector", cell=cell, point=x)
                close(element.derivative(cell, x), derivative, (tolerance + slope * 10) * 10 * p * p / reference.size,
                      f"derivative of {label} vector", cell=cell, point=x)
                close(fast(cell, k), expected, tolerance, "precomputed element", cell=cell, local=local)
                close(fast.derivative(cell, k), derivative, tolerance * 10 * p * p / reference.size,
                      "precomputed derivative", cell=cell, local=local)
            for k, local in enumerate(nodes):
                close(fast_quadrature(cell, k), reference.value(u, cell, local), tolerance, "element at quadrature nodes")
                close(fast_quadrature.derivative(cell, k), reference.derivative(u, cell, local),
                      tolerance * 10 * p * p / reference.size, "derivative at quadrature nodes")
            for k in range(p + 1):
                close(anchors(cell, k), u[reference.dofs[cell][k]], tolerance, "element at its nodes")
                close(anchors.derivative(cell, k), reference.derivative(u, cell, k / p),
                      tolerance * 10 * p * p / reference.size, "derivative at the nodes")
    close(values, case["values"], 0, "evaluation changes the vector")
    return nontrivial(case)


def dense(matrix):
    return np.asarray(matrix().toarray())


def product(matrix, vector):
    return np.asarray(matrix.dot(vector))


@check.facet("matrices", space_cases(degrees=(1, 1, 2, 3, 4, 5)), quick=900, thorough=25000)
def matrices(case):
    reference, space = spaces(case)
    unit = rounding(case, [1.0])
    u = np.array(case["values"])
    mass = finite_element.MassMatrix(space)
    close(dense(mass), reference.mass, unit * reference.size, "mass matrix")
    close(product(mass, u), reference.mass @ u, unit * case["L"] * (1e-30 + np.abs(u).max()), "product with the mass matrix")
    m = dense(mass)
    close(m, m.T, unit * reference.size, "symmetry of the mass matrix")
    close(m.sum(), case["L"], unit * case["L"] + 1e-13 * abs(case["a"]), "total mass")
    require(np.linalg.eigvalsh((m + m.T) / 2)[0] > 0, "the mass matrix is not positive definite")
    solution = np.asarray(mass.inverse(u))
    condition = np.linalg.cond(reference.mass)
    scale = np.linalg.solve(reference.mass, u)
    close(solution, scale, unit * condition * (1e-30 + np.abs(scale).max()), "solution of the mass system")
    lumped = finite_element.LumpedMassVector(space)(u)
    close(lumped, reference.lumped, unit * reference.size * p_factor(case), "lumped mass")
    close(lumped, m.sum(axis=1), unit * reference.size * p_factor(case), "lumped mass and row sums")

    gradient = finite_element.DiscreteGradient(space)
    g = dense(gradient)
    scale = unit * 10 * p_factor(case)
    close(g, reference.gradient, scale, "discrete gradient")
    close(g, -g.T, scale, "skew symmetry of the gradient")
    close(g.sum(axis=1), np.zeros(reference.n), scale, "row sums of the gradient")
    close(product(gradient, u), reference.gradient @ u, scale * (1e-30 + np.abs(u).max()), "product with the gradient")
    return nontrivial(case)


def p_factor(case):
    return (case["degree"] + 1) ** 2


class Function:
    """Function of cell and quadrature node given by values at nodes."""

    def __init__(self, table):
        self.table = table

    def __call__(self, cell, node):
        return self.table[cell][node]


@st.composite
def load_cases(draw):
    case = draw(space_cases(degrees=(1, 2, 3, 4, 5)))
    cells = len(case["values"]) // case["degree"]
    q = case["quadrature"]
    case["table"] = [draw(st.lists(gen.signed(4), min_size=q, max_size=q)) for _ in range(cells)]
    return case


@check.facet("load vectors", load_cases(), quick=900, thorough=25000)
def loads(case):
    reference, space = spaces(case)
    q = case["quadrature"]
    table = case["table"]
    tolerance = rounding(case, np.ravel(table)) * p_factor(case)
    function = Function(table)
    values = lambda cell, x: np.array(table[cell])
    close(finite_element.BasisL2Product(function, space, q)(), reference.load(values, False, q), tolerance * reference.size,
          "products with the basis")
    close(finite_element.BasisGradientL2Product(function, space, q)(), reference.load(values, True, q), tolerance * 10,
          "products with the derivatives of the basis")
    # of finite elements, with exact quadrature
    degree = case["degree"]
    u = np.array(case["values"])
    quadrature = core.LocalElementQuadrature(degree + 1)
    element = fe_space.QuadratureFastElement(space, quadrature)
    element.set_values()
    element.dof_vector = u
    tolerance = rounding(case, u) * p_factor(case)
    close(finite_element.BasisL2Product(element, space, degree + 1)(), reference.mass @ u, tolerance * reference.size,
          "products of a finite element with the basis")
    close(finite_element.BasisGradientL2Product(element, space, degree + 1)(), -reference.gradient @ u, tolerance * 10,
          "products of a finite element with the derivatives of the basis")
    return nontrivial(case)


@check.facet("flux gradients", space_cases(degrees=(1, 1, 2, 2, 3, 4)), quick=900, thorough=25000)
def flux_gradients(case):
    reference, space = spaces(case)
    problem = case["problem"]
    exact = finite_element.build_exact_flux_gradient(problem, space)
    approximated = finite_element.build_flux_gradient_approximation(problem, space)
    selected = {e: finite_element.build_flux_gradient(problem, space, e) for e in (True, False)}
    vector = np.array(case["values"])
    changed = vector.copy()
    # the same array object with one changed entry comes last
    nudged = vector * (1 + 2.0**-20)
    for step, u in enumerate((vector, np.array(case["second"]), vector, changed, nudged, nudged[::-1].copy())):
        if step == 3:
            approximated(changed)
            changed[case["change"][0]] = case["change"][1]
        kept = u.copy()
        scale = feref.flux(problem, np.abs(u)).max() * p_factor(case)
        tolerance = rounding(case, [1.0]) * 10 * scale + 1e-300
        local = reference.interpolant(u)
        integral = reference.load(lambda c, x: feref.flux(problem, local(c, x)), True, 2 * case["degree"] + 2)
        interpolated = -reference.gradient @ feref.flux(problem, u)
        if problem == "burgers" and case["degree"] > 2:
            tolerance *= 10
        close(np.asarray(exact(u)), integral, tolerance, "exact flux gradient", step=step)
        close(np.asarray(approximated(u)), interpolated, tolerance, "flux gradient of the interpolated flux", step=step)
        close(np.asarray(selected[True](u)), integral, tolerance, "selected exact flux gradient", step=step)
        close(np.asarray(selected[False](u)), interpolated, tolerance, "selected interpolated flux gradient", step=step)
        close(u, kept, 0, "flux gradients change the vector")
    return nontrivial(case)


@check.facet("artificial diffusion", space_cases(degrees=(1, 1, 2, 3, 4)), quick=900, thorough=25000)
def diffusions(case):
    reference, space = spaces(case)
    problem = case["problem"]
    diffusion = finite_element.build_artificial_diffusion(problem, space)
    optimum = cg_low.OptimalTimeStep(finite_element.LumpedMassVector(space), diffusion)
    changed = np.array(case["values"])
    changed[case["change"][0]] = case["change"][1]
    first = np.array(case["values"])
    nudged = first * (1 + 2.0**-20)
    inplace = first.copy()
    for u in (first, np.array(case["second"]), changed, first, nudged, -first, first[::-1].copy(), inplace, inplace):
        if u is inplace:
            inplace[:] = np.roll(inplace, 1) * 0.5
        kept = u.copy()
        diffusion.assemble(u)
        scale = (1.0 if problem == "advection" else np.abs(u).max()) * p_factor(case)
        tolerance = rounding(case, [1.0]) * 10 * scale + 1e-300
        d = dense(diffusion)
        close(d, reference.diffusion(problem, u), tolerance, "artificial diffusion")
        close(product(diffusion, u), reference.diffusion(problem, u) @ u, tolerance * (np.abs(u).max() + 1e-30),
              "product with the artificial diffusion")
        close(d, d.T, tolerance, "symmetry of the diffusion")
        close(d.sum(axis=1), np.zeros(reference.n), tolerance, "row sums of the diffusion")
        require(np.all(d - np.diag(np.diag(d)) >= 0), "negative off-diagonal entry of the diffusion")
        close(u, kept, 0, "assembling changes the vector")
        if problem == "advection" or np.abs(u).max() > 0:
            expected = reference.optimal_step(problem, u)
            close(optimum(0.0, u), expected, 1e-8 * expected, "optimal time step")
    return nontrivial(case)


@check.facet("refined spaces", space_cases(), quick=1200, thorough=30000, rule="the refinement is proper")
def refined(case):
    reference, space = spaces(case)
    factor = case["quadrature"]
    finer = space.refine(factor)
    require(finer.dimension == reference.n * factor, "dimension of a refined space")
    require(finer.polynomial_degree == case["degree"], "degree of a refined space")
    close(finer.grid, feref.Space(case["a"], case["L"], reference.cells * factor, case["degree"]).nodes,
          1e-14 * (abs(case["a"]) + case["L"]), "grid of a refined space")
    close(finer.coarsen(factor).grid, space.grid, 1e-14 * (abs(case["a"]) + case["L"]), "grid of a coarsened space")
    # initial data are interpolated at the nodes
    from pbt.feref import make_benchmark

    solution = finite_element.get_finite_element_solution(make_benchmark(case, 1.0), reference.cells, case["degree"])
    close(solution.value, case["values"], 0, "interpolated initial data")
    close(solution.grid, space.grid, 0, "grid of the solution")
    require(solution.time == case["start"], "time of the solution")
    return factor > 1


################################################################################
# larger meshes
################################################################################
@check.facet("elements on larger meshes", feref.large(space_cases()), quick=60, thorough=2000, rule="meshes of up to sixty cells")
def large_elements(case):
    return elements(case)


@check.facet(
    "matrices on larger meshes", feref.large(space_cases(degrees=(1, 1, 2, 3, 4, 5))), quick=60, thorough=2000,
    rule="meshes of up to sixty cells",
)
def large_matrices(case):
    return matrices(case)


@check.facet("loads on larger meshes", feref.large(load_cases()), quick=60, thorough=2000, rule="meshes of up to sixty cells")
def large_loads(case):
    return loads(case)


@check.facet(
    "diffusions on larger meshes", feref.large(space_cases(degrees=(1, 1, 2, 3, 4))), quick=60, thorough=2000,
    rule="meshes of up to sixty cells",
)
def large_diffusions(case):
    return diffusions(case)
