"""Training data written by generate-data."""
import contextlib
import functools
import io
import os
import shutil
import tempfile
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

import core
from benchmark import shallow_water as swe
from command import PARSER_COMMANDS
from command.generate_data import GenerateData
from parser import CustomArgumentParser
from pbt import bench, fvref, gen, netref
from pbt.runner import Check, close, construct, raises, require

check = Check(
    "C22",
    rule="A case is a solver (scheme, mesh, CFL number, integrator) with coarsening degree, stencil radius, face index,"
    " end time, seed, number of solutions and a sequence of write modes. Every row of the written files is compared with"
    " a recorded fine run of the recorded benchmark parameters and face by face reference fluxes. Non-trivial: at least"
    " three times per solution, a coarsening degree above one and a subgrid flux which is not negligible.",
    assumptions=[
        "Schemes whose flux through a face depends on that face's stencil only (all but the limited scheme, whose"
        " bounds couple neighbouring faces).",
    ],
)

SCHEMES = ["llf", "llf", "llf", "central", "es", "es1", "low-order", "antidiffusion:llf:0.5", "reduced-llf", "reduced-llf-2"]


@st.composite
def generate_cases(draw, modes=1):
    scheme = draw(st.sampled_from(SCHEMES))
    reduced = scheme.startswith("reduced")
    degree = draw(st.integers(1, 6))
    radius = draw(st.integers(2 if reduced else 1, 4))
    node = radius + draw(st.integers(0, 6))
    coarse = node + radius + draw(st.integers(0, 6))
    cfl = draw(st.sampled_from([0.05, 0.1, 0.1, 0.2]))
    fine = max(coarse * degree, 3)
    if fine % degree or fine < 4:
        coarse = max(coarse, 4)
        fine = coarse * degree
    steps = draw(st.integers(1, 12)) + draw(st.sampled_from([0.0, 0.25, 0.5]))
    return {
        "scheme": scheme,
        "mesh": fine,
        "degree": degree,
        "radius": radius,
        "node": node if draw(st.integers(0, 3)) else radius,
        "cfl": cfl,
        "end": steps * cfl * 100.0 / fine,
        "integrator": draw(st.sampled_from(bench.INTEGRATOR_NAMES)),
        "seed": draw(st.integers(1, 10**6)),
        "number": draw(st.integers(1, 3)),
        "modes": draw(st.lists(st.booleans(), min_size=modes, max_size=modes + 1)),
    }


def read_lines(path):
    return Path(path).read_text().splitlines()


def parse(path, label):
    """Header lines and rows of a file as numbers, read without the program."""
    lines = read_lines(path)
    require(len(lines) >= 3, f"{label} file is too short", lines=len(lines))
    header = [line.split(",") for line in lines[:2]]
    rows = []
    for line in lines[2:]:
        if line.startswith(",,"):  # names of the index
            continue
        try:
            rows.append([float(x) for x in line.split(",")])
        except ValueError:
            require(False, f"row of the {label} file is no list of numbers", row=line)
    return header, np.array(rows)


def face_flux(case, stencils, n):
    """Flux to the right cell through a face with the given stencils."""
    scheme = case["scheme"]
    kind, *options = scheme.split(":")
    g = swe.OscillationNoTopographyBenchmark().gravitational_acceleration
    result, size = [], []
    for stencil in stencils:
        middle = len(stencil) // 2
        l, r = list(stencil[middle - 1]), list(stencil[middle])
        inner = {"problem": "shallow_water", "values": [l, r], "bottom": None, "g": g, "a": 0.0, "L": 2.0, "bc": ["outflow"] * 2}
        base = options[0] if kind == "antidiffusion" else "llf" if kind.startswith("reduced") else kind
        # two cells of length one: the face in the middle
        reference = fvref.reference(inner, base)
        left, right, sizes = reference.contributions(base, 0.0, [l, r])
        flux, scale = np.array(right[1]), np.array(sizes[1])
        if kind == "antidiffusion":
            flux = flux + float(options[1]) * (np.array(r) - np.array(l)) / (100.0 / n)
            scale = scale + np.abs(flux)
        if kind.startswith("reduced"):
            inputs = sum((list(s) for s in stencil[middle - 2 : middle + 2]), [])
            correction = np.array(netref.predict(kind, [inputs])[0])
            flux = flux + correction
            # networks compute in single precision
            scale = scale + 5e7 * (1 + np.abs(correction))
        result.append(flux)
        size.append(scale)
    return np.array(result), np.array(size)


def check_solution(case, parameters, rows):
    """Compares the rows of one solution with a run of its parameters."""
    names = ["average", "amplitude", "wave_number", "phase_shift"]
    given = {f"height_{k}": parameters[1 + i] for i, k in enumerate(names)}
    given |= {f"velocity_{k}": parameters[5 + i] for i, k in enumerate(names)}
    random = swe.RandomOscillationNoTopographyBenchmark(int(parameters[0]))
    for key, value in given.items():
        require(float(getattr(random, key)) == value, "recorded parameter is not the one of the recorded seed", name=key)
    benchmark = swe.OscillationNoTopographyBenchmark(end_time=case["end"], **given)
    solver = bench.swe_solver_class(case["scheme"])(
        benchmark,
        mesh_size=case["mesh"],
        cfl_number=case["cfl"],
        ode_solver_type=bench.INTEGRATORS[case["integrator"]],
        save_history=True,
    )
    bench.solve(solver)
    times, values = solver.solution.time_history, solver.solution.value_history
    require(len(rows) == len(times), "number of rows of a solution", actual=len(rows), expected=len(times))
    close(rows[:, 0], times, 1e-12 * max(case["end"], 1), "times of the rows")
    require(rows[0, 0] == 0.0 and abs(rows[-1, 0] - case["end"]) < 1e-9 * max(1, case["end"]), "rows do not cover the run")

    d, node, radius = case["degree"], case["node"], case["radius"]
    window = values[:, (node - radius) * d : (node + radius) * d]
    averages = window.reshape(len(times), 2 * radius, d, 2).mean(axis=2)
    close(rows[:, 1 : 1 + 4 * radius], averages.reshape(len(times), -1), 1e-11 * np.max(np.abs(values)), "block averages")
    reach = 2 if case["scheme"].startswith("reduced") else 1
    fine, fine_size = face_flux(case, values[:, node * d - reach : node * d + reach], case["mesh"])
    coarse, coarse_size = face_flux(case, averages[:, radius - reach : radius + reach], case["mesh"] // d)
    close(rows[:, 1 + 4 * radius :], fine - coarse, 1e-12 * (fine_size + coarse_size), "subgrid flux")
    return len(times) >= 3 and d > 1 and np.max(np.abs(fine - coarse)) > 1e-3


def check_header(case, directory):
    header, rows = parse(os.path.join(directory, "data.csv"), "data")
    cells = range(case["node"] - case["radius"], case["node"] + case["radius"])
    names = [f"U{i}" for i in cells] + [f"G_{case['node'] - 0.5}"]
    require(header[0][1:] == [name for name in names for _ in range(2)], "names of the columns", actual=header[0])
    require(header[1][1:] == ["h", "q"] * len(names), "components of the columns", actual=header[1])
    data = core.load_data(os.path.join(directory, "data.csv"))
    require(data.shape == (len(rows), 2 * len(names)), "shape of the data read back", actual=data.shape)
    close(data.to_numpy(dtype=float), rows[:, 1:], 1e-14 * np.max(np.abs(rows)), "data read back")
    close(data.index.to_numpy(dtype=float), rows[:, 0], 1e-14 * max(1, np.max(rows[:, 0])), "times read back")
    return rows


def check_files(case, directory, solutions):
    rows = check_header(case, directory)
    header, benchmarks = parse(os.path.join(directory, "benchmark.csv"), "benchmark")
    require(header[0][1] == "seed", "first column of the benchmarks", actual=header)
    expected = [(a, b) for a in ("height", "velocity") for b in ("average", "amplitude", "wave_number", "phase_shift")]
    require(list(zip(header[0][2:], header[1][2:])) == expected, "columns of the benchmarks", actual=header)
    require(len(benchmarks) == solutions, "number of recorded benchmarks", actual=len(benchmarks), expected=solutions)
    starts = [i for i in range(len(rows)) if rows[i, 0] == 0.0] + [len(rows)]
    require(starts[0] == 0 and len(starts) == solutions + 1, "number of recorded solutions", actual=starts, expected=solutions)
    interesting = [
        check_solution(case, benchmarks[k, 1:], rows[starts[k] : starts[k + 1]]) for k in range(solutions)
    ]
    return any(interesting), benchmarks[:, 1:]


class Refused(Exception):
    """A scheme without guarantees left the admissible states."""


@contextlib.contextmanager
def admissible(case):
    try:
        yield
    except ValueError as error:
        # wave speeds are below eight
        unsafe = case["scheme"].split(":")[0] not in ("llf", "low-order") or case["cfl"] > 0.06
        if unsafe and ("negative" in str(error) or "finite" in str(error)):
            raise Refused from error
        raise


def refusable(function):
    @functools.wraps(function)
    def wrapped(case):
        try:
            return function(case)
        except Refused:
            return False, ["refused"]

    return wrapped


@contextlib.contextmanager
def scratch():
    directory = tempfile.mkdtemp(dir=os.environ["CLS1_SCRATCH"])
    try:
        yield directory
    finally:
        shutil.rmtree(directory)


def make_solver(case):
    return bench.swe_solver_class(case["scheme"])(
        swe.OscillationNoTopographyBenchmark(end_time=case["end"]),
        mesh_size=case["mesh"],
        cfl_number=case["cfl"],
        ode_solver_type=bench.INTEGRATORS[case["integrator"]],
    )


def generate(case, directory, overwrite=True):
    task = GenerateData(
        make_solver(case),
        directory,
        solution_number=case["number"],
        end_time=case["end"],
        seed=case["seed"],
        coarsening_degree=case["degree"],
        input_radius=case["radius"],
        node_index=case["node"],
        overwrite=overwrite,
        print_output=False,
    )
    with admissible(case):
        task.execute()


@st.composite
def refused_cases(draw):
    radius = draw(st.integers(2, 5))
    return {"radius": radius, "node": draw(st.integers(1, radius - 1)), "degree": draw(st.integers(1, 4))}


@check.facet("faces too close to the boundary", refused_cases(), quick=100, thorough=1000, rule="always")
def refused_faces(case):
    solver = bench.swe_solver_class("llf")(
        swe.OscillationNoTopographyBenchmark(end_time=0.1), mesh_size=12 * case["degree"], cfl_number=0.3
    )
    with scratch() as directory:
        raises(
            (AssertionError, ValueError),
            lambda: GenerateData(
                solver, directory, solution_number=1, end_time=0.1, coarsening_degree=case["degree"],
                input_radius=case["radius"], node_index=case["node"], print_output=False,
            ).execute(),
            "a face with less cells than the radius to its left is accepted",
        )
        require(os.listdir(directory) == [], "files after a refusal", actual=os.listdir(directory))
    return True


def tags(case):
    return [case["scheme"].split(":")[0], f"solutions={case['number']}", "first face" if case["node"] == case["radius"] else "inner face"]


@check.facet("rows", generate_cases(), quick=500, thorough=12000)
@refusable
def rows(case):
    with scratch() as directory:
        generate(case, directory)
        interesting, benchmarks = check_files(case, directory, case["number"])
        require(len({tuple(b) for b in benchmarks}) == case["number"], "solutions use the same benchmark")
    return interesting, tags(case)


@check.facet(
    "seeds and write modes",
    generate_cases(modes=1),
    quick=300,
    thorough=8000,
    rule="a sequence of writes containing an appending one",
)
@refusable
def modes(case):
    with scratch() as directory, scratch() as other:
        contents = []
        for overwrite in case["modes"]:
            generate(case, directory, overwrite)
            content = [read_lines(os.path.join(directory, name)) for name in ("data.csv", "benchmark.csv")]
            contents.append(content)
        generate(case, other)
        fresh = [read_lines(os.path.join(other, name)) for name in ("data.csv", "benchmark.csv")]
        previous = [[], []]
        solutions = 0
        for overwrite, content in zip(case["modes"], contents):
            for k in range(2):
                body = [line for line in fresh[k][2:] if not line.startswith(",,")]
                head = fresh[k][: len(fresh[k]) - len(body)]
                old = [] if overwrite else previous[k]
                require(content[k] == (old or head) + body, "written lines", overwrite=overwrite, file=k, lines=len(content[k]))
            previous = content
            solutions = case["number"] + (0 if overwrite else solutions)
        check_files(case, directory, solutions)
        case_other = case | {"seed": case["seed"] + 1}
        generate(case_other, other)
        _, a = parse(os.path.join(directory, "benchmark.csv"), "benchmark")
        _, b = parse(os.path.join(other, "benchmark.csv"), "benchmark")
        require(a[0, 1] != b[0, 1], "different seeds give the same benchmark")
    return not all(case["modes"]), tags(case) + ["append" if not all(case["modes"]) else "overwrite"]


NAMES = ("data.csv", "benchmark.csv")


@st.composite
def several_runs(draw):
    case = draw(generate_cases())
    case["number"] = 1
    case["runs"] = [
        {
            "overwrite": draw(st.integers(0, 3)) == 0,
            "removed": draw(st.sampled_from(["", "", *NAMES])),
            "number": draw(st.integers(1, 2)),
            "seed": case["seed"] + draw(st.integers(0, 1)),
            "end": case["end"] * draw(st.sampled_from([1.0, 0.5])),
        }
        for _ in range(draw(st.integers(2, 3)))
    ]
    return case


@check.facet(
    "several runs into one directory",
    several_runs(),
    quick=160,
    thorough=4000,
    rule="a run appends to existing files, one of which may have been moved away",
)
@refusable
def several(case):
    """Appended runs leave every former line, a missing file is started with its head."""
    interesting = False
    with scratch() as directory, scratch() as other:
        stored = {name: [] for name in NAMES}
        for run in case["runs"]:
            variant = case | {k: run[k] for k in ("number", "seed", "end")}
            if run["removed"] and stored[run["removed"]]:
                os.remove(os.path.join(directory, run["removed"]))
                stored[run["removed"]] = []
            interesting |= not run["overwrite"] and any(stored.values())
            generate(variant, directory, run["overwrite"])
            generate(variant, other)
            for name in NAMES:
                fresh = read_lines(os.path.join(other, name))
                body = [line for line in fresh[2:] if not line.startswith(",,")]
                head = fresh[: len(fresh) - len(body)]
                old = [] if run["overwrite"] else stored[name]
                stored[name] = (old or head) + body
                content = read_lines(os.path.join(directory, name))
                require(content == stored[name], f"lines of {name} after several runs", runs=case["runs"], lines=len(content), expected=len(stored[name]))
    return interesting, tags(case) + ["moved" if any(run["removed"] for run in case["runs"]) else "kept"]


KEYS = {"antidiffusion:llf:0.5": ["antidiffusion", "+f", "llf", "+g", "0.5"]}


@st.composite
def command_cases(draw):
    case = draw(generate_cases(modes=1))
    case["given"] = {name: draw(st.booleans()) for name in ("radius", "degree", "seed", "cfl", "integrator")}
    given = case["given"]
    if not given["radius"]:
        case["radius"] = 2
    if not given["degree"]:
        case["degree"] = 8
    # the command uses the second face if none is given
    if draw(st.integers(0, 2)) == 0 and case["radius"] <= 2:
        case["node"], given["node"] = 2, False
    else:
        case["node"], given["node"] = max(case["node"], case["radius"]), True
    coarse = max(case["mesh"] // case["degree"], case["node"] + case["radius"], 4)
    case["mesh"] = coarse * case["degree"]
    if not given["seed"]:
        case["seed"] = 1
    if not given["cfl"]:
        case["cfl"] = {"reduced-llf": 0.1 / 8, "reduced-llf-2": 0.1 / 40}.get(case["scheme"], 0.1)
    if not given["integrator"]:
        case["integrator"] = "heun"
    case["end"] = (draw(st.integers(1, 8)) + 0.5) * case["cfl"] * 100.0 / case["mesh"]
    case["number"] = draw(st.integers(1, 3))
    return case


@check.facet("command line", command_cases(), quick=300, thorough=8000)
@refusable
def command(case):
    given = case["given"]
    with scratch() as directory:
        for count, overwrite in enumerate(case["modes"]):
            arguments = ["generate-data", "-d", directory, "-T", repr(case["end"]), "-n", str(case["number"])]
            if given["degree"]:
                arguments += ["-c", str(case["degree"])]
            if given["radius"]:
                arguments += ["-i", str(case["radius"])]
            if given["node"]:
                arguments += ["--node-index", str(case["node"])]
            if given["seed"]:
                arguments += ["--seed", str(case["seed"])]
            if not overwrite:
                arguments += ["--append"]
            arguments += ["-s", *KEYS.get(case["scheme"], [case["scheme"]]), "+m", str(case["mesh"])]
            if given["cfl"]:
                arguments += ["++cfl", repr(case["cfl"])]
            if given["integrator"]:
                arguments += ["+o", case["integrator"]]
            if case["scheme"] == "central":  # has no option for the integrator
                arguments = [a for a in arguments if a not in ("+o", case["integrator"])]
                case["integrator"] = "heun"
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                values = vars(CustomArgumentParser(PARSER_COMMANDS).parse_arguments(arguments))
                task = values.pop("command")
                task = construct(task, {k: v for k, v in values.items() if k not in ("args", "profile")})
                with admissible(case):
                    task.execute()
            solutions = case["number"] * (1 + (count if not overwrite else 0))
        interesting, _ = check_files(case, directory, solutions)
    return interesting, tags(case)
