"""Command lines build the requested solvers."""
import argparse
import contextlib
import io
import math
import os
import re
import subprocess
import sys

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

import core
import finite_element.scalar.solver as fem
import finite_volume.scalar.solver as fv
import finite_volume.shallow_water.solver as swe
from benchmark import advection, burgers, shallow_water
import profiler
from checks import c19, c23
from command import (
    PARSER_COMMANDS,
    Animate,
    Calculate,
    CalculateEOC,
    ParameterVariationTest,
    Plot,
    PlotShallowWaterErrorEvolution,
)
from command.generate_data import GenerateData
from parser import CustomArgumentParser
from pbt.runner import Check, KnownFinding, REPO, close, construct, require

check = Check(
    "C24",
    rule="A case is a sequence of command lines given to one parser, each with a problem, benchmark, end time and a list"
    " of solvers with any subset of their options in any notation and order, names often being keys of solvers; or a"
    " command line with one faulty part. Built solvers are compared with directly constructed ones having the documented"
    " settings: class, names, mesh, times, steps and results. Non-trivial: at least two solvers with options.",
    assumptions=["options are written out in full (no abbreviations) and values do not begin with + or -"],
)

INTEGRATORS = {"euler": core.ForwardEuler, "heun": core.Heun, "ssp3": core.StrongStabilityPreservingRungeKutta3}
FLUXES = {
    "central": swe.CentralFluxGetter,
    "es": swe.EnergyStableFluxGetter,
    "es1": swe.FirstOrderDiffusiveEnergyStableFluxGetter,
    "llf": swe.LaxFriedrichsFluxGetter,
    "low-order": swe.LowOrderFluxGetter,
    "reduced-llf": lambda: swe.ReducedFluxGetter(4, swe.LaxFriedrichsNetwork()),
    "reduced-llf-2": lambda: swe.ReducedFluxGetter(4, swe.LaxFriedrichs2Network()),
}
# class, name, mesh, CFL number, options with defaults
SCALAR = {
    "cg": (fem.ContinuousGalerkinSolver, "Continuous Galerkin", 400, 0.1, {"p": 1, "exact": False}),
    "cg-low": (fem.LowOrderContinuousGalerkinSolver, "Low order Continuous Galerkin", 400, 1.0, {"p": 1, "adaptive": False, "o": "heun"}),
    "mcl-fem": (fem.MCLSolver, "Finite Element MCL Solver", 400, 1.0, {"p": 1, "adaptive": False, "o": "heun"}),
    "llf": (fv.LaxFriedrichsSolver, "Lax-Friedrichs finite volume scheme", 400, 0.1, {}),
    "central": (fv.CentralFluxSolver, "Central scheme", 400, 0.1, {}),
    "mcl-fv": (fv.MCLSolver, "Finite Volume MCL Solver", 400, 0.1, {"o": "heun"}),
}
SHALLOW = {
    "llf": (swe.LaxFriedrichsSolver, "Lax-Friedrichs finite volume scheme", 400, 0.1, {"o": "heun"}),
    "lw": (swe.LaxWendroffSolver, "Lax-Wendroff finite volume scheme", 400, 0.1, {}),
    "low-order": (swe.LowOrderSolver, "Low order finite volume scheme", 400, 0.1, {"o": "heun"}),
    "central": (swe.CentralFluxSolver, "Central scheme", 400, 0.1, {}),
    "es": (swe.EnergyStableSolver, "Energy stable finite volume scheme", 400, 0.1, {"o": "heun"}),
    "es1": (swe.FirstOrderDiffusiveEnergyStableSolver, "Energy stable finite volume scheme with first order diffusion", 400, 0.1, {"o": "heun"}),
    "mcl": (swe.MCLSolver, "MCL Solver", 400, 0.1, {"o": "heun", "f": "central"}),
    "reduced-llf": (swe.ReducedLaxFriedrichsSolver, "Reduced Lax Friedrichs Solver", 50, 0.1 / 8, {"o": "heun"}),
    "reduced-llf-2": (swe.ReducedLaxFriedrichs2Solver, "Second Reduced Lax Friedrichs Solver", 50, 0.1 / 40, {"o": "heun"}),
    "antidiffusion": (swe.LinearAntidiffusiveSolver, "Solver with antidiffusion.", 400, 0.1, {"o": "heun", "f": "llf", "g": 0.1}),
    "coarse": (swe.CoarseSolver, "Coarsened Solver.", 400, 0.1, {"o": "heun", "f": "llf", "c": 8}),
}
SOLVERS = {"advection": SCALAR, "burgers": SCALAR, "swe": SHALLOW}
NAMES = {"n": "++name", "s": "++short", "m": "++mesh-size", "p": "++polynomial-degree", "o": "++ode-solver", "f": "++flux", "g": "++gamma", "c": "++coarsening-degree"}
BENCHMARKS = {
    "advection": {
        "three-hills": advection.ThreeHillsBenchmark,
        "two-hills": advection.TwoHillsBenchmark,
        "one-hill": advection.OneHillBenchmark,
        "cos": advection.CosineBenchmark,
        "gauss": advection.GaussianBellBenchmark,
    },
    "burgers": {"shock": burgers.SchockBenchmark, "smooth": burgers.SmoothBenchmark},
    "swe": {
        "lake-at-rest-no-bathymetry": shallow_water.LakeAtRestNoBathymetryBenchmark,
        "lake-at-rest": shallow_water.LakeAtRestBenchmark,
        "lake-at-rest-perturbation": shallow_water.PerturbatedLakeAtRestBenchmark,
        "moving-water-no-bathymetry": shallow_water.MovingWaterNoBathymetryBenchmark,
        "moving-water-bump-bathymetry": shallow_water.MovingWaterBumpBathymetryBenchmark,
        "oscillation": shallow_water.OscillationNoTopographyBenchmark,
        "damm-break": shallow_water.DammBreakBenchmark,
        "cylindrical-damm-break": shallow_water.CylindricalDammBreakWithOutflowBenchmark,
        "cylindrical-damm-break-with-wall": shallow_water.CylindricalDammBreakWithReflectingBoundaryBenchmark,
        "sinus-inflow": shallow_water.SinusInflowBenchmark,
        "b1": shallow_water.FirstBenchmark,
        "b2": shallow_water.SecondBenchmark,
        "b3": shallow_water.ThirdBenchmark,
        "b4": shallow_water.FourthBenchmark,
        "b5": shallow_water.FifthBenchmark,
    },
}
DEFAULT_BENCHMARK = {"advection": "two-hills", "burgers": "shock", "swe": "oscillation"}
END_TIMES = {
    "advection": 1.0, "burgers": 0.5, "lake-at-rest-no-bathymetry": 100.0, "lake-at-rest": 100.0, "lake-at-rest-perturbation": 2.0,
    "moving-water-no-bathymetry": 1.0, "moving-water-bump-bathymetry": 100.0, "oscillation": 40.0, "damm-break": 0.3,
    "cylindrical-damm-break": 0.2, "cylindrical-damm-break-with-wall": 0.2, "sinus-inflow": 40.0,
    "b1": 40.0, "b2": 40.0, "b3": 40.0, "b4": 40.0, "b5": 40.0,
}
COMMANDS = {
    "calculate": Calculate,
    "plot": Plot,
    "animate": Animate,
    "plot-error-evolution": PlotShallowWaterErrorEvolution,
    "parameter-variation-test": ParameterVariationTest,
    "generate-data": GenerateData,
}
PARSER = None


def parser():
    """One parser for all command lines."""
    global PARSER
    if PARSER is None:
        PARSER = CustomArgumentParser(PARSER_COMMANDS)
    return PARSER


def names(keys):
    return st.one_of(st.sampled_from(sorted(keys)), st.sampled_from(["first", "A name", "x1", "Llf", "0", "$u_h$", "plot", "swe"]))


def numbers(values):
    """Numbers with a notation."""
    return st.sampled_from(values)


CFL = [("0.1", 0.1), ("0.25", 0.25), (".2", 0.2), ("5e-2", 0.05), ("1e-1", 0.1), ("0.0625", 0.0625), ("1", 1.0), ("00.3", 0.3)]
GAMMA = [("0.1", 0.1), ("0.5", 0.5), ("0", 0.0), ("0.0", 0.0), ("1e-2", 0.01), ("-0.5", -0.5), ("1", 1.0)]


@st.composite
def solver_lines(draw, problem, keys=None):
    """A solver with given options, in order of the command line."""
    table = SOLVERS[problem]
    key = draw(st.sampled_from(sorted(keys or table)))
    _, _, mesh, _, own = table[key]
    options = ["n", "s", "m", "cfl", *own]
    chosen = draw(st.lists(st.sampled_from(options), unique=True, max_size=len(options)))
    # the default meshes are slow for finite elements
    if key in ("mcl-fem", "cg-low", "cg") and "m" not in chosen:
        chosen.append("m") if draw(st.integers(0, 9)) else None
    result = []
    degree = 8
    if key == "coarse":
        degree = draw(st.sampled_from([1, 2, 4, 5, 10, 20] if "m" not in chosen else [1, 2, 3, 4, 5, 7])) if "c" in chosen else 8
    for option in chosen:
        if option in ("n", "s"):
            value = draw(names(SHALLOW.keys() | SCALAR.keys()))
            text = value
        elif option == "m":
            value = draw(st.integers(4, 30))
            if key == "coarse":
                value = degree * max(1, value // degree)
                if value < 3:
                    value = degree * 3
            text = draw(st.sampled_from([str(value), f"{value:03d}"]))
        elif option == "cfl":
            text, value = draw(st.sampled_from(CFL))
        elif option == "p":
            value = draw(st.integers(1, 4))
            text = str(value)
        elif option == "o":
            text = value = draw(st.sampled_from(sorted(INTEGRATORS)))
        elif option == "f":
            text = value = draw(st.sampled_from(sorted(FLUXES)))
        elif option == "g":
            text, value = draw(st.sampled_from(GAMMA))
        elif option == "c":
            value = degree
            text = str(value)
        else:  # flags
            value, text = True, None
        notation = draw(st.sampled_from(["short", "long", "long=", "glued", "short"]))
        if option in ("cfl", "exact", "adaptive") and notation in ("short", "glued"):
            notation = "long"
        # values beginning with a sign need care in the glued notations
        result.append([option, notation, text, value])
    return {"key": key, "options": result}


def words(solver):
    result = [solver["key"]]
    for option, notation, text, _ in solver["options"]:
        long = NAMES.get(option, {"cfl": "++cfl", "exact": "++exact-flux", "adaptive": "++adaptive"}.get(option))
        if text is None:
            result.append(long)
        elif notation == "short":
            result += ["+" + option, text]
        elif notation == "long":
            result += [long, text]
        elif notation == "long=":
            result.append(f"{long}={text}")
        else:
            result.append(f"+{option}{text}")
    return result


@st.composite
def command_lines(draw):
    command = draw(st.sampled_from(["calculate"] * 5 + ["plot", "animate", "plot-error-evolution", "parameter-variation-test", "generate-data"]))
    problem = draw(st.sampled_from(["advection", "burgers", "swe", "swe"])) if command in ("calculate", "plot", "animate") else "swe"
    number = 2 if command in ("plot-error-evolution", "parameter-variation-test") else 1 if command == "generate-data" else draw(st.sampled_from([0, 1, 1, 2, 2, 3, 4]))
    keys = None
    solvers = [draw(solver_lines(problem, keys)) for _ in range(number)]
    benchmark = draw(st.sampled_from([None, None, "key", "key", "seed"]))
    if command in ("parameter-variation-test", "generate-data"):
        benchmark = None
    if benchmark == "key":
        benchmark = draw(st.sampled_from(sorted(BENCHMARKS[problem])))
    elif benchmark == "seed":
        benchmark = draw(st.integers(0, 10**6)) if problem == "swe" else None
    end = draw(
        st.one_of(
            st.none(),
            st.tuples(st.integers(0, 3), st.sampled_from([0.5, 1.5, 2.5, 3.25, 4.0])).map(list),
            st.tuples(st.integers(0, 3), st.sampled_from([0.5, 1.5, 2.5, 3.25, 4.0])).map(list),
        )
    )
    return {
        "command": command,
        "problem": problem,
        "solvers": solvers,
        "benchmark": benchmark,
        "end": end,
        "order": draw(st.permutations([0, 1, 2])),
        "long": draw(st.booleans()),
    }


def settings(problem, solver):
    """Documented settings of a solver of a command line."""
    cls, name, mesh, cfl, own = SOLVERS[problem][solver["key"]]
    result = {"n": name, "s": solver["key"], "m": mesh, "cfl": cfl} | own
    for option, _, _, value in solver["options"]:
        result[option] = value
    return cls, result


def arguments_of(own, history):
    """Arguments of a constructor."""
    result = {"name": own["n"], "short": own["s"], "mesh_size": own["m"], "cfl_number": own["cfl"], "save_history": history}
    if "o" in own:
        result["ode_solver_type"] = INTEGRATORS[own["o"]]
    if "f" in own:
        result["flux_getter"] = FLUXES[own["f"]]()
    if "g" in own:
        result["gamma"] = own["g"]
    if "c" in own:
        result["coarsening_degree"] = own["c"]
    if "p" in own:
        result["polynomial_degree"] = own["p"]
    if "exact" in own:
        result["exact_flux"] = own["exact"]
    if "adaptive" in own:
        result["adaptive"] = own["adaptive"]
    return result


def benchmark_of(line, end_time):
    problem, key = line["problem"], line["benchmark"]
    if isinstance(key, int):
        benchmark = shallow_water.RandomOscillationNoTopographyBenchmark(seed=key)
    else:
        benchmark = BENCHMARKS[problem][key or DEFAULT_BENCHMARK[problem]]()
    if end_time is not None:
        benchmark.end_time = end_time
    return benchmark


def default_end_time(line):
    key = line["benchmark"]
    if line["problem"] != "swe":
        return END_TIMES[line["problem"]]
    return 40.0 if isinstance(key, int) else END_TIMES[key or "oscillation"]


def end_time_of(line):
    if line["end"] is None:
        return None
    length = benchmark_of(line, None).domain.length
    steps = [own["cfl"] * length / own["m"] for _, own in (settings(line["problem"], s) for s in line["solvers"])] or [1.0]
    position, factor = line["end"]
    return float(repr(factor * steps[position % len(steps)]))


def text_of(line, end_time):
    command, problem = line["command"], line["problem"]
    groups = [[], [], []]
    if line["solvers"]:
        groups[0] = ["--solver" if line["long"] else "-s", *(word for solver in line["solvers"] for word in words(solver))]
    if isinstance(line["benchmark"], int):
        groups[1] = ["--random-benchmark" if line["long"] else "-r", str(line["benchmark"])]
    elif line["benchmark"]:
        groups[1] = ["--benchmark" if line["long"] else "-b", line["benchmark"]]
    if end_time is not None:
        groups[2] = ["--end-time" if line["long"] else "-T", repr(end_time)]
    start = [command]
    scratch = os.environ["CLS1_SCRATCH"]
    if command in ("calculate", "plot", "animate"):
        start.append(problem)
    elif command == "parameter-variation-test":
        start.append(os.path.join(scratch, "variation"))
    elif command == "generate-data":
        groups[1] = ["-d", os.path.join(scratch, "data")]
    return start + [word for k in line["order"] for word in groups[k]]


def parse(arguments):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        try:
            return vars(parser().parse_arguments(arguments))
        finally:
            plt.close("all")


def build_expected(line, end_time, history):
    result = []
    for solver in line["solvers"]:
        cls, own = settings(line["problem"], solver)
        result.append(cls(benchmark_of(line, end_time), **arguments_of(own, history)))
    return result


# refusals of the constructors for combinations without meaning
EXPECTED_ERRORS = (ValueError, AssertionError, NotImplementedError, TypeError, AttributeError)


def check_line(line):
    end_time = end_time_of(line)
    history = line["command"] in ("animate", "plot-error-evolution", "parameter-variation-test")
    arguments = text_of(line, end_time)
    if line["command"] in ("parameter-variation-test", "generate-data"):
        reference_line = line | {"benchmark": None}
    else:
        reference_line = line
    try:
        expected = build_expected(reference_line, end_time, history)
    except EXPECTED_ERRORS as error:
        try:
            parse(arguments)
        except type(error):
            return "refused", 0
        require(False, "command line with unsuitable solver accepted", arguments=arguments, error=error)
    try:
        values = parse(arguments)
    except SystemExit:
        require(False, "command line refused", arguments=arguments)
    require(values.get("command") is COMMANDS[line["command"]], "wrong command", command=values.get("command"))
    if line["command"] == "parameter-variation-test":
        actual = [values["solver_approximation"], values["solver_exact"]]
    else:
        actual = values["solver"] or []
        actual = actual if isinstance(actual, list) else [actual]
    require(len(actual) == len(expected), "number of solvers", arguments=arguments, actual=len(actual), expected=len(expected))
    if line["command"] in ("plot", "animate"):
        benchmark = values["benchmark"]
        require(type(benchmark) is type(benchmark_of(line, None)), "benchmark", arguments=arguments, actual=type(benchmark))
        wanted = default_end_time(line) if end_time is None else end_time
        require(benchmark.end_time == wanted, "end time of the benchmark", arguments=arguments, actual=benchmark.end_time, expected=wanted)
    steps = 0
    for solver, own_solver, reference in zip(actual, line["solvers"], expected):
        steps += check_solver(arguments, line, own_solver, solver, reference, end_time, history)
    return "accepted", steps


def check_solver(arguments, line, given, solver, reference, end_time, history):
    cls, own = settings(line["problem"], given)
    require(type(solver) is cls, "class of a solver", arguments=arguments, actual=type(solver), expected=cls)
    require(solver.name == own["n"], "name of a solver", arguments=arguments, actual=solver.name, expected=own["n"])
    require(solver.short == own["s"], "short name of a solver", arguments=arguments, actual=solver.short, expected=own["s"])
    cells = own["m"] // own.get("c", 1)
    require(len(solver.solution.space.mesh) == cells, "mesh", arguments=arguments, actual=len(solver.solution.space.mesh), expected=cells)
    require(hasattr(solver.solution, "time_history") == history, "history", arguments=arguments)
    description = solver.as_dict()
    stepping = description["time_stepping"]
    times = stepping.as_dict()
    wanted = default_end_time(line if line["command"] != "parameter-variation-test" else line | {"benchmark": None}) if end_time is None else end_time
    if line["command"] == "generate-data" and end_time is None:
        wanted = times["end_time"]
    require(times["end_time"] == wanted, "end time of a solver", arguments=arguments, actual=times["end_time"], expected=wanted)
    generator = times["time_step_generator"].as_dict()
    require(generator["cfl"] == own["cfl"], "CFL number", arguments=arguments, actual=generator["cfl"], expected=own["cfl"])
    require(bool(generator["adaptive"]) == own.get("adaptive", False), "adaptivity", arguments=arguments)
    if "o" in own:
        require(type(description["ode_solver"]) is INTEGRATORS[own["o"]], "integrator", arguments=arguments, actual=type(description["ode_solver"]))
    c23.same(c23.describe(solver), c23.describe(reference), "initial state")
    steps = len(stepping)
    if given["key"] not in ("cg-low", "mcl-fem"):
        length = reference.solution.space.mesh.domain.length
        exact = wanted / (own["cfl"] * length / own["m"])
        require(abs(steps - math.ceil(exact)) <= 1 if abs(exact - round(exact)) < 1e-6 else steps == math.ceil(exact), "number of steps", arguments=arguments, actual=steps, expected=exact)
    work = {"cg": 20, "cg-low": 60, "mcl-fem": 300}.get(given["key"], 1) * own["m"] * max(steps, 4)
    if end_time is None or steps > 40 or work > 40000:
        return 0
    with np.errstate(all="ignore"):
        c23.same(outcome(solver), outcome(reference), "result of the run of " + " ".join(words(given)))
    return steps


def outcome(solver):
    """Results or the reason of a refusal."""
    try:
        return c23.outcome(solver)
    except (ValueError, FloatingPointError) as error:
        return {"status": str(error), "time": solver.solution.time, "value": solver.solution.value}


@check.facet(
    "built solvers",
    st.lists(command_lines(), min_size=1, max_size=3),
    quick=1000,
    thorough=25000,
    rule="a command line with two solvers and three options, and at least one run compared",
)
def built(lines):
    status, steps = [], 0
    for line in lines:
        result, count = check_line(line)
        status.append(result)
        steps += count
    solvers = [solver for line in lines for solver in line["solvers"]]
    nontrivial = steps > 0 and any(len(l["solvers"]) > 1 and sum(len(s["options"]) for s in l["solvers"]) > 2 for l in lines)
    return nontrivial, sorted({line["command"] for line in lines}) + sorted({s["key"] for s in solvers}) + sorted(set(status))


BAD_SIZES = ["0", "-1", "-3", "abc", "1.5", "nan", "inf", "1e2", "", "0x10", "-0"]
BAD_TIMES = ["0", "-1", "-0.5", "0.0", "abc", "nan", "inf", "1,5", "", "-inf", "-0.0", "1e999"]
FAULTS = ["command", "problem", "solver", "option", "value", "end time", "benchmark", "seed", "missing value", "extra", "command option", "count", "foreign option"]


@st.composite
def faulty(draw):
    line = draw(command_lines())
    kind = draw(st.sampled_from(FAULTS))
    if not line["solvers"]:
        line["solvers"] = [draw(solver_lines(line["problem"]))]
    return {
        "line": line,
        "kind": kind,
        "place": draw(st.integers(0, 5)),
        "size": draw(st.sampled_from(BAD_SIZES)),
        "time": draw(st.sampled_from(BAD_TIMES)),
        "word": draw(st.sampled_from(["unknown", "LLF", "llf2", "", "none", "size", "1"])),
        "notation": draw(st.booleans()),
    }


COMMAND_OPTIONS = {
    "plot": [("-m", "size"), ("--mesh-size", "size")],
    "animate": [("-m", "size"), ("--time_steps", "size"), ("-t", "time"), ("--duration", "time")],
    "generate-data": [("-n", "size"), ("-c", "size"), ("--seed", "size"), ("-i", "size")],
    "parameter-variation-test": [("-n", "size"), ("--seed", "size")],
    "calculate": [("--profile", "profile"), ("--unknown", "time")],
    "plot-error-evolution": [("--profile", "profile"), ("--unknown", "time")],
}


def spoil(case):
    """Command line with the fault."""
    line, kind = case["line"], case["kind"]
    position = case["place"] % len(line["solvers"])
    solver = line["solvers"][position]
    end_time = end_time_of(line)
    arguments = text_of(line, end_time)
    switch = next(k for k, word in enumerate(arguments) if word in ("-s", "--solver"))
    last_of_solver = switch + sum(len(words(s)) for s in line["solvers"][: position + 1])

    def with_words(*extra):
        # after the words of the solver
        return arguments[: last_of_solver + 1] + list(extra) + arguments[last_of_solver + 1 :]

    if kind == "command":
        if case["place"] == 1:
            return []
        return [case["word"], *arguments[1:]] if case["place"] else arguments[1:]
    if kind == "problem":
        if line["command"] not in ("calculate", "plot", "animate"):
            return None
        if case["place"] == 1:
            return [arguments[0]]
        return [arguments[0], case["word"], *arguments[2:]] if case["place"] else [arguments[0], *arguments[2:]]
    if kind == "solver":
        keys = SOLVERS[line["problem"]]
        foreign = sorted((SCALAR | SHALLOW).keys() - keys.keys())
        word = case["word"] if case["place"] < 3 else foreign[case["place"] % len(foreign)]
        first = switch + 1 + sum(len(words(s)) for s in line["solvers"][:position])
        return arguments[:first] + [word] + arguments[first + 1 :]
    if kind == "option":
        return with_words("+" + (case["word"] or "x") if case["notation"] else "++" + (case["word"] or "x"), "1")
    if kind == "foreign option":
        own = settings(line["problem"], solver)[1]
        foreign = [o for o in ("p", "o", "f", "g", "c", "exact", "adaptive") if o not in own]
        option = foreign[case["place"] % len(foreign)]
        value = {"p": ["2"], "o": ["heun"], "f": ["llf"], "g": ["0.1"], "c": ["2"]}.get(option, [])
        name = NAMES.get(option, {"exact": "++exact-flux", "adaptive": "++adaptive"}.get(option))
        if option in NAMES and case["notation"]:
            name = "+" + option
        return with_words(name, *value)
    if kind == "value":
        own = settings(line["problem"], solver)[1]
        options = [o for o in own if o in ("m", "cfl", "p", "c", "o", "f", "g")]
        option = options[case["place"] % len(options)]
        name = NAMES.get(option, "++cfl")
        if option in NAMES and case["notation"]:
            name = "+" + option
        value = {"cfl": case["time"], "o": case["word"], "f": case["word"], "g": "abc"}.get(option, case["size"])
        # every other time as one word
        if case["place"] > 2 and name.startswith("++"):
            return with_words(f"{name}={value}")
        return with_words(name, value)
    if kind == "end time":
        value = ["-T", case["time"]] if case["notation"] else ["--end-time=" + case["time"]]
        return [*arguments[:2], *value, *arguments[2:]] if line["command"] in ("calculate", "plot", "animate", "parameter-variation-test") else [arguments[0], *value, *arguments[1:]]
    if kind in ("benchmark", "seed"):
        if line["command"] not in ("calculate", "plot", "animate", "plot-error-evolution"):
            return None
        line = line | {"benchmark": None}
        if kind == "benchmark":
            value = ["-b", case["word"] or "unknown"]
        else:
            if line["problem"] != "swe":
                value = ["-r", "1"]
            elif case["notation"]:
                value = ["-r", "3", "-b", "oscillation"]
            else:
                value = ["-r", ["abc", "1.5", "-1", "nan", "", "1e3"][case["place"]]]
        return text_of(line, end_time) + value
    if kind == "missing value":
        options = ["+m", "++cfl", "+n", "+s"]
        option = options[case["place"] % 4]
        return [arguments[0], *arguments[1 : switch]] + [a for a in arguments[switch : switch + 1]] + [w for s in line["solvers"] for w in words(s)] + [option]
    if kind == "extra":
        return [*arguments, "--unknown"] if case["notation"] else [*arguments[:switch], "--unknown", "3", *arguments[switch:]]
    if kind == "command option":
        options = COMMAND_OPTIONS[line["command"]]
        option, number = options[case["place"] % len(options)]
        value = {"size": case["size"], "time": case["time"], "profile": "abc"}[number]
        return [*arguments, f"{option}={value}"] if option.startswith("--") and case["notation"] else [*arguments, option, value]
    # number of solvers
    if line["command"] in ("plot-error-evolution", "parameter-variation-test"):
        solvers = line["solvers"][:1] if case["notation"] else line["solvers"] + line["solvers"][:1]
        if case["place"] == 0:
            solvers = []
    elif line["command"] == "generate-data":
        solvers = [] if case["notation"] else line["solvers"] * 2
    else:
        return None
    return text_of(line | {"solvers": solvers}, end_time)


REFUSALS = (SystemExit, KeyError, AssertionError, ValueError)


@check.facet("faulty command lines", faulty(), quick=3000, thorough=80000, rule="the command line without the fault is accepted")
def refused(case):
    arguments = spoil(case)
    if arguments is None:
        return False, ["not applicable"]
    computed = []
    original = core.Solver.solve
    core.Solver.solve = lambda self, **kwargs: computed.append(self)
    try:
        parse(arguments)
    except REFUSALS:
        pass
    else:
        require(False, "faulty command line accepted", kind=case["kind"], arguments=arguments)
    finally:
        core.Solver.solve = original
    require(not computed, "faulty command line refused after computing", kind=case["kind"], arguments=arguments)
    return True, [case["kind"], case["line"]["command"]]


@check.facet("advertised benchmarks", st.sampled_from(["advection", "burgers", "swe"]), quick=12, thorough=12, shards=1)
def advertised(problem):
    modules = {"advection": advection, "burgers": burgers, "swe": shallow_water}
    keys = modules[problem].BENCHMARKS.keys()
    require(set(BENCHMARKS[problem]) <= set(keys), "missing benchmark", keys=sorted(keys))
    for key in sorted(keys):
        try:
            parse(["calculate", problem, "-b", key])
        except (TypeError, SystemExit):
            if key == "random":
                raise KnownFinding("random-benchmark-key", "calculate swe -b random is refused")
            require(False, "advertised benchmark is refused", key=key)
    return True


################################################################################
# the program
################################################################################
@st.composite
def program_cases(draw):
    kind = draw(st.sampled_from(["calculate", "eoc", "eoc", "help"]))
    if kind == "calculate":
        line = draw(command_lines().filter(lambda l: l["command"] == "calculate" and l["solvers"]))
        line["end"] = [0, 2.5]
        for solver in line["solvers"]:
            solver["options"] = [o for o in solver["options"] if o[0] not in ("m", "c")] + [["m", "short", "24", 24]]
        case = {"line": line}
    elif kind == "eoc":
        case = {"eoc": draw(c19.command_cases().filter(lambda c: c["refine"] < 3))}
    else:
        case = {"page": draw(st.sampled_from(sorted(SCALAR.keys() | SHALLOW.keys())))}
    case["args"] = draw(st.booleans())
    case["profile"] = draw(st.sampled_from([None, None, "", "1", "7", "0"]))
    case["order"] = draw(st.booleans())
    return case


def eoc_arguments(case):
    arguments = ["eoc", case["problem"], "-m", str(case["mesh"]), "-r", str(case["refine"]), "-T", str(case["end"])]
    if case["benchmark"]:
        arguments += ["-b", case["benchmark"]]
    return arguments + ["-s", *(word for key, options, _ in case["solvers"] for word in [key, *options])]


def main(arguments):
    """Output of the program and solvers, which were solved."""
    with open(os.path.join(REPO, "cls1")) as file:
        code = compile(file.read(), os.path.join(REPO, "cls1"), "exec", dont_inherit=True)
    namespace = {"__name__": "program"}
    output, solved = io.StringIO(), []
    original, argv = core.Solver.solve, sys.argv

    def solve(self, *args, **kwargs):
        solved.append(self)
        return original(self, *args, **kwargs)

    core.Solver.solve = solve
    try:
        sys.argv = ["cls1", *arguments]
        with contextlib.redirect_stdout(output), contextlib.redirect_stderr(io.StringIO()), np.errstate(all="ignore"):
            exec(code, namespace)
            namespace["main"]()
    finally:
        sys.argv = argv
        core.Solver.solve = original
        profiler.PRINT_PROFILE = 0
    return output.getvalue(), solved


def direct(arguments):
    """Output of the command built by the parser."""
    output = io.StringIO()
    with contextlib.redirect_stdout(output), contextlib.redirect_stderr(io.StringIO()), np.errstate(all="ignore"):
        values = vars(parser().parse_arguments(arguments))
        command = values.pop("command")
        construct(command, {k: v for k, v in values.items() if k not in ("args", "profile")}).execute()
    return output.getvalue()


PROFILE = re.compile(r"^\s+[0-9]+ function calls", re.M)


@check.facet("program", program_cases(), quick=160, thorough=4000, rule="arguments or a profile are printed")
def program(case):
    if "line" in case:
        arguments = text_of(case["line"], end_time_of(case["line"]))
    elif "eoc" in case:
        arguments = eoc_arguments(case["eoc"])
    else:
        arguments = ["help", case["page"]]
    extra = [["--args"] if case["args"] else [], [] if case["profile"] is None else ["--profile", *case["profile"].split()]]
    extra = extra if case["order"] else extra[::-1]
    try:
        expected = direct(arguments)
    except EXPECTED_ERRORS:
        # an error leaves the profiler enabled
        return False, ["refused"]
    output, solved = main(arguments + extra[0] + extra[1])
    text = output
    if case["args"]:
        require(text.count("ARGUMENTS:\n----------\n") == 1, "arguments are not printed", output=text[:2000])
        # the solutions of a convergence table are computed before
        before, text = text.split("ARGUMENTS:\n----------\n")
        require("eoc" in case or not before, "arguments are not printed first", output=before)
        separator = "\nCOMMAND OUTPUT\n--------------\n"
        require(text.count(separator) == 1, "output is not separated from the arguments", output=text[:2000])
        printed, text = text.split(separator)
        text = before + text
        if "line" in case:
            found = re.findall(r"'name': '(\w+)'", printed)
            classes = [settings(case["line"]["problem"], s)[0].__name__ for s in case["line"]["solvers"]]
            require([f for f in found if f.endswith("Solver")] == classes, "printed solvers", printed=printed, expected=classes)
            numbers = [float(x) for x in re.findall(r"'cfl': ([0-9.e+-]+)", printed)]
            wanted = [settings(case["line"]["problem"], s)[1]["cfl"] for s in case["line"]["solvers"]]
            require(numbers == wanted, "printed CFL numbers", printed=printed, expected=wanted)
            ends = {float(x) for x in re.findall(r"'end_time': ([0-9.e+-]+)", printed)}
            require(ends == {end_time_of(case["line"])}, "printed end times", printed=printed, expected=end_time_of(case["line"]))
        elif "page" in case:
            require(f"prog='{case['page']}'" in printed, "printed page", printed=printed)
        else:
            require(f"'end_time': {case['eoc']['end']}" in printed, "printed end time", printed=printed)
    lines = {None: 0, "": 30}.get(case["profile"]) if case["profile"] in (None, "") else int(case["profile"])
    match = PROFILE.search(text)
    require((match is not None) == (lines > 0), "profile", asked=case["profile"], output=text[-1000:])
    if match:
        text, profile = text[: match.start()], text[match.start() :]
        rows = [row for row in profile.splitlines() if re.match(r"^\s*[0-9/]+\s+[0-9.]+\s+[0-9.]+\s", row)]
        require(0 < len(rows) <= lines, "rows of the profile", asked=lines, actual=len(rows))
        require(len(rows) == lines or "List reduced" not in profile, "rows of the profile", asked=lines, actual=len(rows), profile=profile)
    require(text.strip() == expected.strip(), "output of the program differs from the one of the command", actual=text, expected=expected)
    if "line" in case:
        shorts = [s.short for s in solved]
        require(shorts == [settings(case["line"]["problem"], s)[1]["s"] for s in case["line"]["solvers"]], "solved solvers", actual=shorts)
        for solver in solved:
            close(solver.solution.time, end_time_of(case["line"]), 1e-9, "solver is not solved up to the end time")
    if "page" in case:
        page(case["page"], text)
    return bool(case["args"] or lines), [arguments[0], f"profile {lines}"]


def page(key, text):
    """The page names all options."""
    own = (SCALAR | SHALLOW)[key][4] if key not in SCALAR or key not in SHALLOW else SHALLOW[key][4]
    for option in ["n", "s", "m", *own]:
        if option in NAMES:
            require(f"{NAMES[option]} " in text and f"+{option} " in text, "option is missing in the help page", page=key, option=option, text=text)
    require("++cfl" in text, "option is missing in the help page", page=key, option="cfl", text=text)
    if "exact" in own:
        require("++exact-flux" in text, "option is missing in the help page", page=key, option="exact", text=text)
    if "adaptive" in own:
        require("++adaptive" in text, "option is missing in the help page", page=key, option="adaptive", text=text)


@check.facet("script", program_cases().map(lambda c: c | {"profile": None, "args": False}), quick=12, thorough=60, rule="every case")
def script(case):
    """The script prints what the program prints."""
    if "line" in case:
        arguments = text_of(case["line"], end_time_of(case["line"]))
    elif "eoc" in case:
        arguments = eoc_arguments(case["eoc"])
    else:
        arguments = ["help", case["page"]]
    try:
        expected = direct(arguments)
    except EXPECTED_ERRORS:
        expected = None
    environment = os.environ | {"PYTHONDONTWRITEBYTECODE": "1", "COLUMNS": "80"}
    result = subprocess.run(
        [sys.executable, os.path.join(REPO, "cls1"), *arguments], cwd=REPO, env=environment, capture_output=True, text=True, timeout=300,
    )
    require((result.returncode == 0) == (expected is not None), "exit code of the script", code=result.returncode, stderr=result.stderr[-2000:])
    if expected is not None:
        words = lambda text: text.split()
        require(words(result.stdout) == words(expected), "output of the script", actual=result.stdout, expected=expected)
    return True, [arguments[0]]


# numbers ######################################################################
DIGITS = st.text("0123456789", min_size=1, max_size=6)


@st.composite
def number_texts(draw):
    text = draw(st.sampled_from(["", "", "", "+", "-", "--", " "])) + draw(
        st.one_of(
            DIGITS,
            st.tuples(DIGITS, DIGITS).map(".".join),
            st.tuples(DIGITS, st.integers(-8, 8)).map(lambda p: f"{p[0]}e{p[1]}"),
            st.sampled_from(["0", "1", "0.0", "1.0", "1.0000000000000002", "0.9999999999999999", "5e-324", "1e999", "inf", "nan", "infinity", "", "x", "1 + 3j", "True", "0x10", "1,5", "1/2", ".5", "5."]),
        )
    )
    return {"text": text + draw(st.sampled_from(["", "", "", "", " ", "\n", "f", "."]))}


@check.facet("numbers", number_texts(), quick=3000, thorough=60000, rule="a number is read")
def numbers(case):
    """Texts are read as numbers within their domain or refused."""
    text = case["text"]

    def read(kind):
        try:
            return kind(text)
        except ValueError:
            return None

    whole, real = read(int), read(float)
    for name, value, accepted in (
        ("positive_int", whole, whole is not None and whole > 0),
        ("non_negative_int", whole, whole is not None and whole >= 0),
        ("positive_float", real, real is not None and math.isfinite(real) and real > 0),
        ("percent_number", real, real is not None and 0 <= real <= 1),
    ):
        try:
            actual = getattr(core, name)(text)
        except (ValueError, argparse.ArgumentTypeError):
            require(not accepted, "a number of the domain is refused", kind=name, text=text)
        else:
            require(accepted, "a number outside of the domain is accepted", kind=name, text=text, actual=actual)
            require(type(actual) is type(value) and actual == value, "a number is read wrongly", kind=name, text=text, actual=actual, expected=value)
    return whole is not None or real is not None, ["whole" if whole is not None else "real" if real is not None else "refused"]
