"""Error norms and convergence tables."""
import contextlib
import io
import math
import re
import types

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import core
import core.benchmark
import finite_element
import finite_volume
from command import PARSER_COMMANDS, error
from parser import CustomArgumentParser
from pbt import feref, gen
from pbt.runner import Check, close, construct, require

check = Check(
    "C19",
    rule="A case is a mesh with piecewise polynomials, a pair of a discrete and an exact solution, or a command."
    " Non-trivial: the function is not constant (norms), the errors do not vanish (tables).",
)

NORMS = {"L1": core.L1Norm, "L2": core.L2Norm, "Linf": core.solver_spaces}


def polynomial(degree):
    return st.lists(gen.signed(4, 8), min_size=1, max_size=degree + 1)


@st.composite
def norm_cases(draw):
    n = draw(st.integers(1, 8))
    components = draw(st.sampled_from([0, 0, 1, 2, 3]))
    degree = draw(st.integers(0, 4))
    piece = lambda: [draw(polynomial(degree)) for _ in range(max(components, 1))]
    return {
        **draw(gen.domain()),
        "n": n,
        "components": components,
        "first": [piece() for _ in range(n)],
        "second": [piece() for _ in range(n)],
        "quadrature": draw(st.sampled_from([None, 1, 2, 3, 4, 5, 7])),
        "points": draw(st.sampled_from([None, 2, 3, 10, 17])),
        "factor": draw(st.one_of(gen.signed(8), st.sampled_from([-1e3, 1e-3]))),
    }


def piecewise(case, pieces):
    """Function of cell index and point; polynomials in the local coordinate."""
    size = case["L"] / case["n"]

    def function(cell, x):
        local = (x - case["a"]) / size - cell
        values = [np.polynomial.polynomial.polyval(local, p) for p in pieces[cell]]
        return np.array(values, dtype=float) if case["components"] else float(values[0])

    return function


def reference_norm(name, a, size, cells, function, quadrature, points):
    """Norm of FUNCTION(cell, x)."""
    total = 0.0
    if name == "Linf":
        for cell in range(cells):
            for x in np.linspace(0, 1, points):
                total = np.maximum(total, np.abs(function(cell, a + (cell + x) * size)))
        return total
    nodes, weights = feref.gauss(quadrature)
    for cell in range(cells):
        for x, w in zip(nodes, weights):
            value = np.abs(function(cell, a + (cell + x) * size))
            total = total + w * size * (value if name == "L1" else value**2)
    return total if name == "L1" else np.sqrt(total)


def exact_norm(case, pieces):
    """L2 norm of piecewise polynomials by integrating their squares."""
    result = []
    for k in range(max(case["components"], 1)):
        total = 0.0
        for piece in pieces:
            square = np.polynomial.polynomial.polymul(piece[k], piece[k])
            total += math.fsum(c / (i + 1) for i, c in enumerate(square)) * case["L"] / case["n"]
        result.append(math.sqrt(max(total, 0.0)))
    return np.array(result) if case["components"] else result[0]


@check.facet("norms", norm_cases(), quick=3000, thorough=80000)
def norms(case):
    mesh = core.UniformMesh(core.Interval(case["a"], case["a"] + case["L"]), case["n"])
    f, g = piecewise(case, case["first"]), piecewise(case, case["second"])
    size = case["L"] / case["n"]
    # polynomials are evaluated at rounded points
    offset = 1 + (abs(case["a"]) + case["L"]) / size * 20
    bound = 30.0
    for name, norm_type in NORMS.items():
        if name == "Linf":
            norm = norm_type(mesh, points_per_cell=case["points"]) if case["points"] else norm_type(mesh)
        else:
            norm = norm_type(mesh, quadrature_degree=case["quadrature"]) if case["quadrature"] else norm_type(mesh)
        require(norm.name == name and norm_type.name == name, "name of a norm")
        length = {"L1": case["L"], "L2": math.sqrt(case["L"]), "Linf": 1.0}[name]
        tolerance = 1e-14 * offset * bound * length
        arguments = (case["quadrature"] or 1, case["points"] or 10)
        value = norm(f)
        expected = reference_norm(name, case["a"], size, case["n"], f, *arguments)
        close(value, expected, tolerance * (1 if name != "L2" else 1e3), f"{name} norm")
        require(np.shape(value) == ((case["components"],) if case["components"] else ()), f"shape of the {name} norm")
        factor = case["factor"]
        relative = 1e-12 * np.max(np.abs(value)) + 1e-300
        close(norm(lambda c, x: factor * f(c, x)), abs(factor) * value, relative * abs(factor), f"homogeneity of the {name} norm")
        both = norm(lambda c, x: f(c, x) + g(c, x))
        require(np.all(both <= value + norm(g) + relative + 1e-12 * np.max(norm(g))), f"triangle inequality of the {name} norm")
        zero = norm(lambda c, x: 0 * f(c, x))
        close(zero, np.zeros(np.shape(zero)), 0, f"{name} norm of zero")
        again = norm(f)
        close(again, value, 0, f"{name} norm depends on earlier calls")
        if name == "L2":
            degree = max(len(p) for piece in case["first"] for p in piece) - 1
            if 2 * degree <= 2 * arguments[0] - 1:
                close(value, exact_norm(case, case["first"]), 1e-12 * offset * (1 + bound * length), "exact L2 norm")
    return len(set(map(str, case["first"]))) > 1 or any(len(p) > 1 for piece in case["first"] for p in piece), [
        "vector" if case["components"] else "scalar"
    ]


@st.composite
def error_cases(draw):
    kind = draw(st.sampled_from(["volume", "element"]))
    degree = draw(st.integers(1, 4)) if kind == "element" else 1
    components = draw(st.sampled_from([0, 2])) if kind == "volume" else 0
    n = draw(st.integers(1 if kind == "volume" else 3, 8))
    size = n * degree
    vector = st.lists(gen.signed(4), min_size=size * max(components, 1), max_size=size * max(components, 1))
    return {
        **draw(gen.domain()),
        "kind": kind,
        "degree": degree,
        "components": components,
        "n": n,
        "first": draw(vector),
        "second": draw(vector),
        "exact": draw(polynomial(3)),
        "frequency": draw(st.integers(0, 3)),
        "norm": draw(st.sampled_from([None, "L1", "L2", "Linf"])),
        "quadrature": draw(st.sampled_from([1, 2, 4])),
        "time": draw(gen.grid_float(0, 4)),
        "callable": draw(st.booleans()),
        "refinements": draw(st.sampled_from([1, 2, 2, 3, 3, 4, 4, 5, 6])),
        "unit": draw(st.sampled_from([1.0, 1.0, 1.0, 2.0**-20, 2.0**-40, 2.0**-80, 2.0**20, 2.0**60])),
        "values": draw(st.integers(0, 2**31)),
    }


def exact_function(case):
    def exact(x):
        local = (x - case["a"]) / case["L"]
        value = float(np.polynomial.polynomial.polyval(local, case["exact"])) + math.cos(2 * math.pi * case["frequency"] * local)
        return unit * (np.array([value, 1 - value]) if case["components"] else value)

    unit = case.get("unit", 1.0)
    return exact


def space_of(case, n):
    mesh = core.UniformMesh(core.Interval(case["a"], case["a"] + case["L"]), n)
    if case["kind"] == "volume":
        return finite_volume.FiniteVolumeSpace(mesh)
    return finite_element.LagrangeSpace(mesh, case["degree"])


def discrete(case, n, u):
    """Reference of a discrete function of cell and point."""
    if case["kind"] == "volume":
        return lambda cell, x: u[cell]
    reference = feref.Space(case["a"], case["L"], n, case["degree"])
    return lambda cell, x: reference.value(u, cell, (x - case["a"]) / reference.size - cell)


def shaped(case, values):
    values = np.array(values, dtype=float)
    return values.reshape(-1, case["components"]) if case["components"] else values


@check.facet("errors of solutions", error_cases(), quick=2400, thorough=60000)
def errors(case):
    n = case["n"]
    space = space_of(case, n)
    unit = case.get("unit", 1.0)
    u = shaped(case, case["first"]) * unit
    solution = core.DiscreteSolution(u, initial_time=case["time"], space=space)
    norm, name, quadrature = None, "L2", 1
    if case["norm"]:
        name, quadrature = case["norm"], case["quadrature"]
        norm = NORMS[name](space.mesh, 10) if name == "Linf" else NORMS[name](space.mesh, quadrature)
    calculator = error.ErrorCalculator(space, norm) if norm else error.ErrorCalculator(space)
    if case["callable"]:
        exact = exact_function(case)
        expected_function = lambda cell, x: exact(x) - discrete(case, n, u)(cell, x)
    else:
        v = shaped(case, case["second"]) * unit
        exact = core.DiscreteSolution(v, initial_time=0.0, space=space)
        expected_function = lambda cell, x: discrete(case, n, v)(cell, x) - discrete(case, n, u)(cell, x)
    time, value = calculator(exact, solution)
    require(time == case["time"], "time of the error", time=time)
    size = case["L"] / n
    expected = reference_norm(name, case["a"], size, n, expected_function, quadrature, 10)
    offset = 1 + (abs(case["a"]) + case["L"]) / size
    tolerance = unit * 1e-12 * offset * 100 * {"L1": case["L"], "L2": math.sqrt(case["L"]), "Linf": 1.0}[name]
    close(value, expected, tolerance * (1 + 1e3 * (name == "L2")), f"error in the {name} norm")
    close(solution.value, u, 0, "the solution is changed")
    return bool(np.max(np.abs(expected)) > 1e-6 * unit), [case["kind"], name]


class ExactBenchmark(core.benchmark.Benchmark):
    problem = "advection"
    _boundary_conditions = "periodic"

    def __init__(self, case):
        self.domain = core.Interval(case["a"], case["a"] + case["L"])
        self.end_time = 1.0 + case["time"]
        self.exact = exact_function(case)

    def initial_data(self, x):
        return 0.0

    def exact_solution(self, x, t):
        return t * self.exact(x)


def reference_errors(case, n, u, exact):
    """L1, L2 and maximum error with the exactness of the table."""
    quadrature = case["degree"] + 1 if case["kind"] == "element" else 1
    function = lambda cell, x: exact(x) - discrete(case, n, u)(cell, x)
    return [reference_norm(name, case["a"], case["L"] / n, n, function, quadrature, 10) for name in NORMS]


def formatted(pattern, value):
    return pattern.format(value)


def agrees(text, value, relative):
    """Is TEXT a rounded VALUE up to an error of the last digit and RELATIVE?"""
    number = float(text)
    if math.isnan(value) or math.isinf(value):
        return math.isnan(number) if math.isnan(value) else number == value
    digits = 0.5001 * 10 ** (math.floor(math.log10(abs(value))) - 2) if value else 0.0
    return abs(number - value) <= digits * 1.01 + relative


@check.facet("tables", error_cases(), quick=1200, thorough=30000, rule="at least two refinements")
def tables(case):
    case = dict(case, components=0)
    benchmark = ExactBenchmark(case)
    generator = np.random.default_rng(case["values"])
    exact = lambda x: benchmark.end_time * benchmark.exact(x)
    solvers, spaces, expected = [], [], []
    n, unit = case["n"], case.get("unit", 1.0)
    refinements = case["refinements"]
    while refinements > 1 and n * case["degree"] * 2 ** (refinements - 1) > 200:
        refinements -= 1
    for _ in range(refinements):
        space = space_of(case, n)
        u = unit * generator.integers(-64, 64, space.dimension) / 16
        solvers.append(types.SimpleNamespace(
            solution=core.DiscreteSolution(u, initial_time=benchmark.end_time, space=space), name="Name"))
        spaces.append(space)
        expected.append(reference_errors(case, n, u, exact))
        n *= 2
    calculator = error.EOCCalculator(benchmark)
    require(list(calculator.norm_names) == ["L1", "L2", "Linf"], "names of the norms", actual=calculator.norm_names)
    dofs, errors, eocs = calculator(solvers, spaces)
    expected = np.array(expected).T
    close(dofs, [s.dimension for s in spaces], 0, "numbers of unknowns")
    offset = 1 + (abs(case["a"]) + case["L"]) / case["L"] * n
    close(errors, expected, unit * 1e-11 * offset * 100 * (1 + case["L"]), "errors")
    rates = np.full(expected.shape, np.nan)
    rates[:, 1:] = np.log2(expected[:, :-1] / expected[:, 1:])
    close(np.isnan(eocs), np.isnan(rates), 0, "missing convergence orders")
    close(eocs[:, 1:], rates[:, 1:], 1e-6, "convergence orders")
    frame = error.EOCDataFrame()(dofs, errors, eocs, calculator.norm_names)
    compare_frame(frame, dofs, errors, eocs)
    return refinements > 1, [case["kind"], f"{refinements} refinements", "unit" if unit == 1 else "other unit"]


def compare_frame(frame, dofs, errors, eocs):
    require(len(frame) == len(dofs), "rows of the table")
    for row in range(len(dofs)):
        require(frame["DOFs"].iloc[row] == f"{dofs[row]:.0f}", "unknowns in the table", actual=frame["DOFs"].iloc[row])
        for k, name in enumerate(NORMS):
            text = frame[name, "error"].iloc[row]
            require(agrees(text, errors[k][row], 0.0), "error in the table", norm=name, row=row, actual=text, expected=errors[k][row])
            text = frame[name, "eoc"].iloc[row]
            value = eocs[k][row]
            require(
                (math.isnan(value) and text == "nan") or abs(float(text) - value) <= 0.00501,
                "order in the table", norm=name, row=row, actual=text, expected=value,
            )


@st.composite
def command_cases(draw):
    problem = draw(st.sampled_from(["advection", "burgers"]))
    benchmark = draw(st.sampled_from(["cos", "gauss", None] if problem == "advection" else ["smooth", None]))
    solvers = []
    for _ in range(draw(st.integers(1, 2))):
        key = draw(st.sampled_from(["cg", "cg-low", "mcl-fem", "llf", "central", "mcl-fv"]))
        options = []
        degree = 1
        if key in ("cg", "cg-low", "mcl-fem") and draw(st.booleans()):
            degree = draw(st.integers(1, 3))
            options += ["+p", str(degree)]
        if draw(st.booleans()):
            options += ["+n", draw(st.sampled_from(["first", "other name"]))]
        if draw(st.booleans()):
            options += ["+m", "50"]
        options += ["++cfl", draw(st.sampled_from(["0.1", "0.3"]))]
        solvers.append([key, options, degree])
    refine = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 4, 5, 6]))
    many = refine > 4 or max(degree for *_, degree in solvers) > 2
    return {
        "problem": problem,
        "benchmark": benchmark,
        "solvers": solvers,
        "end": 0.02 if many else draw(st.sampled_from([0.05, 0.1, 0.3])),
        "mesh": 3 if many else draw(st.integers(3, 6)),
        "refine": refine,
    }


@check.facet("eoc command", command_cases(), quick=160, thorough=4000, rule="at least two refinements")
def command(case):
    arguments = ["eoc", case["problem"], "-m", str(case["mesh"]), "-r", str(case["refine"]), "-T", str(case["end"])]
    if case["benchmark"]:
        arguments += ["-b", case["benchmark"]]
    arguments.append("-s")
    for key, options, _ in case["solvers"]:
        arguments += [key, *options]
    output = io.StringIO()
    with contextlib.redirect_stdout(output), contextlib.redirect_stderr(io.StringIO()):
        namespace = CustomArgumentParser(PARSER_COMMANDS).parse_arguments(arguments)
    values = vars(namespace)
    solvers, spaces, benchmark = values["solvers"], values["solver_spaces"], values["benchmark"]
    require(len(solvers) == len(case["solvers"]), "number of solvers")
    kinds = {("advection", "cos"): lambda x, t: math.cos(2 * math.pi * (x - t - 0.5))}
    tables = []
    for (key, options, degree), row, row_spaces in zip(case["solvers"], solvers, spaces):
        require(len(row) == case["refine"] and len(row_spaces) == case["refine"], "number of refinements", actual=len(row))
        element = key in ("cg", "cg-low", "mcl-fem")
        errors = []
        for k, (solver, space) in enumerate(zip(row, row_spaces)):
            n = case["mesh"] * 2**k
            require(len(space.mesh) == n, "mesh of a refinement", actual=len(space.mesh), expected=n)
            close(solver.solution.time, case["end"], 1e-9, "end time of a refinement")
            info = {
                "kind": "element" if element else "volume", "degree": degree, "components": 0,
                "a": benchmark.domain.a, "L": benchmark.domain.length,
            }
            exact = kinds.get((case["problem"], case["benchmark"] or "cos"))
            exact = (lambda x, f=exact: f(x, case["end"])) if exact else (lambda x: benchmark.exact_solution(x, case["end"]))
            require(solver.solution.dimension == n * degree, "number of unknowns")
            errors.append(reference_errors(info, n, solver.solution.value, exact))
        tables.append((row[0].name, [case["mesh"] * 2**k * degree for k in range(case["refine"])], np.array(errors).T))
    output = io.StringIO()
    with contextlib.redirect_stdout(output), contextlib.redirect_stderr(io.StringIO()), pd.option_context(
        "display.width", 1000, "display.max_columns", 50
    ):
        task = values.pop("command")
        construct(task, {k: v for k, v in values.items() if k not in ("args", "profile")}).execute()
    lines = [line for line in output.getvalue().splitlines() if line.strip()]
    position = 0
    for name, dofs, errors in tables:
        while position < len(lines) and lines[position].strip() != name:
            position += 1
        require(position < len(lines), "table of a solver is missing", solver=name, output=output.getvalue())
        rows = []
        for line in lines[position + 1 :]:
            if re.match(r"^\d+\s", line):
                rows.append(line.split())
            if len(rows) == len(dofs):
                break
        position += 1
        require(len(rows) == len(dofs), "rows of the printed table", output=output.getvalue())
        for k, row in enumerate(rows):
            require(int(row[0]) == k and int(row[1]) == dofs[k], "unknowns of the printed table", row=row)
            for j in range(3):
                require(agrees(row[2 + 2 * j], errors[j][k], 1e-8), "error of the printed table", row=row, expected=errors[j][k])
                if k == 0:
                    require(row[3 + 2 * j] == "nan", "first convergence order", row=row)
                elif min(errors[j][k - 1], errors[j][k]) > 1e-9:
                    order = math.log2(errors[j][k - 1] / errors[j][k])
                    require(abs(float(row[3 + 2 * j]) - order) <= 0.0052, "printed convergence order", row=row, expected=order)
    return case["refine"] > 1, [case["problem"], *[s[0] for s in case["solvers"]]]


@st.composite
def large_cases(draw):
    case = draw(error_cases())
    n = draw(st.integers(9, 60 if case["kind"] == "volume" else 24))
    size = n * case["degree"] * max(case["components"], 1)
    for key in ("first", "second"):
        case[key] = [case[key][i % len(case[key])] * (1 + i % 5) for i in range(size)]
    case["n"] = n
    return case


@check.facet("errors on larger meshes", large_cases(), quick=120, thorough=4000, rule="meshes of up to sixty cells")
def large_errors(case):
    return errors(case)
