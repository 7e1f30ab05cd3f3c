"""Dense reference of continuous Lagrange elements on periodic uniform meshes, and finite element runs."""
import contextlib
import functools
import io

import numpy as np
from hypothesis import strategies as st

import core
import core.benchmark
from finite_element.scalar import solver as fe_solver
from pbt import bench, gen


@functools.lru_cache(None)
def gauss(n):
    """Nodes and weights on [0,1]."""
    x, w = np.polynomial.legendre.leggauss(n)
    return (x + 1) / 2, w / 2


def shape(p, x):
    """Values of the local basis at points X of [0,1], shape (p+1, len(x))."""
    x = np.atleast_1d(np.asarray(x, dtype=float))
    nodes = np.arange(p + 1) / p
    return np.array([np.prod([(x - nodes[k]) / (nodes[i] - nodes[k]) for k in range(p + 1) if k != i], axis=0)
                     for i in range(p + 1)])


def shape_derivative(p, x):
    x = np.atleast_1d(np.asarray(x, dtype=float))
    nodes = np.arange(p + 1) / p
    result = np.zeros((p + 1, len(x)))
    for i in range(p + 1):
        for m in range(p + 1):
            if m == i:
                continue
            factor = np.full(len(x), 1 / (nodes[i] - nodes[m]))
            for k in range(p + 1):
                if k not in (i, m):
                    factor = factor * (x - nodes[k]) / (nodes[i] - nodes[k])
            result[i] += factor
    return result


class Space:
    def __init__(self, a, length, cells, degree):
        self.a, self.length, self.cells, self.degree = a, length, cells, degree
        self.n = cells * degree
        self.size = length / cells
        self.nodes = a + length * np.arange(self.n) / self.n
        self.dofs = [[(c * degree + i) % self.n for i in range(degree + 1)] for c in range(cells)]

    def value(self, u, cell, local):
        return float(np.asarray(u)[self.dofs[cell]] @ shape(self.degree, local)[:, 0])

    def derivative(self, u, cell, local):
        return float(np.asarray(u)[self.dofs[cell]] @ shape_derivative(self.degree, local)[:, 0]) / self.size

    def _matrix(self, local):
        result = np.zeros((self.n, self.n))
        for dofs in self.dofs:
            for i, gi in enumerate(dofs):
                for j, gj in enumerate(dofs):
                    result[gi, gj] += local[i, j]
        return result

    @functools.cached_property
    def mass(self):
        x, w = gauss(self.degree + 2)
        b = shape(self.degree, x)
        return self._matrix(self.size * (b * w) @ b.T)

    @functools.cached_property
    def gradient(self):
        """Integrals of basis function i times derivative of basis function j."""
        x, w = gauss(self.degree + 2)
        return self._matrix((shape(self.degree, x) * w) @ shape_derivative(self.degree, x).T)

    @functools.cached_property
    def lumped(self):
        """Integrals of the basis functions."""
        x, w = gauss(self.degree + 2)
        local = self.size * shape(self.degree, x) @ w
        result = np.zeros(self.n)
        for dofs in self.dofs:
            for i, gi in enumerate(dofs):
                result[gi] += local[i]
        return result

    def load(self, values, derivative=False, points=None):
        """Products of the basis (or its derivatives) with a function given by VALUES(cell, local points)."""
        x, w = gauss(points)
        b = shape_derivative(self.degree, x) if derivative else self.size * shape(self.degree, x)
        result = np.zeros(self.n)
        for cell, dofs in enumerate(self.dofs):
            result_local = b @ (w * values(cell, x))
            for i, gi in enumerate(dofs):
                result[gi] += result_local[i]
        return result

    def interpolant(self, u):
        u = np.asarray(u)
        return lambda cell, x: u[self.dofs[cell]] @ shape(self.degree, x)

    def diffusion(self, problem, u=None):
        speed = np.ones(self.n) if problem == "advection" else np.abs(np.asarray(u))
        d = np.abs(self.gradient) * speed[None, :]
        d = np.maximum(d, d.T)
        np.fill_diagonal(d, 0.0)
        np.fill_diagonal(d, -d.sum(axis=1))
        return d

    def neighbours(self, i):
        return sorted({g for dofs in self.dofs if i in dofs for g in dofs})

    def integral(self, u):
        return float(self.lumped @ u)

    def optimal_step(self, problem, u):
        diagonal = np.abs(np.diag(self.diffusion(problem, u)))
        with np.errstate(divide="ignore"):
            return float(np.min(self.lumped / (2 * diagonal)))


def flux(problem, u):
    return u if problem == "advection" else u * u / 2


def right_hand_side(space, problem, scheme, exact=False):
    """Semi-discrete scheme, evaluated densely. Returns function of (time, u)."""
    if scheme == "cg":
        def rhs(time, u):
            if exact or problem == "advection":
                local = space.interpolant(u)
                load = space.load(lambda c, x: flux(problem, local(c, x)), True, 2 * space.degree + 2)
            else:
                load = -space.gradient @ flux(problem, u)
            return np.linalg.solve(space.mass, load)

        return rhs

    def low(time, u):
        return (space.diffusion(problem, u) @ u - space.gradient @ flux(problem, u)) / space.lumped

    if scheme == "cg-low":
        return low

    neighbours = [space.neighbours(i) for i in range(space.n)]

    def limited(time, u):
        dudt, f, d = low(time, u), flux(problem, u), space.diffusion(problem, u)
        top = [max(u[k] for k in neighbours[i]) for i in range(space.n)]
        bottom = [min(u[k] for k in neighbours[i]) for i in range(space.n)]
        correction = np.zeros(space.n)
        for i in range(space.n):
            for j in neighbours[i]:
                if j == i:
                    continue
                target = space.mass[i, j] * (dudt[i] - dudt[j]) + d[i, j] * (u[i] - u[j])
                w_ij = d[i, j] * (u[j] + u[i]) + (f[i] - f[j]) * space.gradient[i, j]
                w_ji = d[i, j] * (u[j] + u[i]) + (f[j] - f[i]) * space.gradient[j, i]
                upper = min(2 * d[i, j] * top[i] - w_ij, w_ji - 2 * d[i, j] * bottom[j])
                lower = max(2 * d[i, j] * bottom[i] - w_ij, w_ji - 2 * d[i, j] * top[j])
                correction[i] += max(lower, min(upper, target))
        return dudt + correction / space.lumped

    return limited


def make_benchmark(case, end_time):
    """Scalar benchmark whose nodal values on the mesh of CASE are its values."""
    values, a, length = case["values"], case["a"], case["L"]
    n = len(values)

    class NodeBenchmark(core.benchmark.Benchmark):
        problem = case["problem"]
        domain = core.Interval(a, a + length)
        start_time = case.get("start", 0.0)
        _boundary_conditions = "periodic"

        def __init__(self):
            self.end_time = end_time

        def initial_data(self, x):
            return float(values[int(round((x - a) / length * n)) % n])

    return NodeBenchmark()


SOLVERS = {
    "cg": fe_solver.ContinuousGalerkinSolver,
    "cg-low": fe_solver.LowOrderContinuousGalerkinSolver,
    "mcl-fem": fe_solver.MCLSolver,
}
SCHEMES = list(SOLVERS)


def build(case, end_time, benchmark=None, cfl=None, history=True):
    """Builds the solver case['scheme'] with the options of CASE."""
    arguments = {
        "mesh_size": len(case["values"]) // case["degree"],
        "polynomial_degree": case["degree"],
        "cfl_number": cfl if cfl is not None else case["cfl"],
        "save_history": history,
    }
    if case["scheme"] == "cg":
        arguments["exact_flux"] = case.get("exact", False)
    else:
        arguments["adaptive"] = case.get("adaptive", False)
        arguments["ode_solver_type"] = bench.INTEGRATORS[case["integrator"]]
    return SOLVERS[case["scheme"]](benchmark or make_benchmark(case, end_time), **arguments)


def solve(solver):
    """Solves and returns the messages."""
    output = io.StringIO()
    with contextlib.redirect_stdout(output):
        solver.solve(disable=True)
    return output.getvalue()


def space_of(case):
    return Space(case["a"], case["L"], len(case["values"]) // case["degree"], case["degree"])


@st.composite
def problem(draw, degrees=(1, 1, 2, 3, 4), low=3, high=8, element=None, dofs=24):
    degree = draw(st.sampled_from(list(degrees)))
    cells = draw(st.integers(low, max(low, min(high, dofs // degree))))
    return {
        "problem": draw(st.sampled_from(["advection", "burgers"])),
        "degree": degree,
        "values": draw(gen.scalar_values(cells * degree, element)),
        "start": draw(st.sampled_from([0.0, 0.0, 1.5, -2.0])),
        **draw(gen.domain()),
    }


@st.composite
def large(draw, strategy, low=15, high=60, dofs=120):
    """Cases of STRATEGY on larger meshes."""
    case = draw(strategy)
    cells = draw(st.integers(low, max(low, min(high, dofs // case["degree"]))))
    seed = draw(st.integers(0, 2**20))
    larger = gen.enlarge(case, cells * case["degree"], seed)
    if "second" in case:
        larger["second"] = gen.enlarge({"values": case["second"]}, cells * case["degree"], seed + 1)["values"]
    if "table" in case:
        larger["table"] = [case["table"][i % len(case["table"])] for i in range(cells)]
    return larger
