"""Error evolutions of pairs of solutions."""
import contextlib
import io
import os

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

import core
import finite_volume.shallow_water.solver as swe
from benchmark import shallow_water
from checks import c19, c22, c24, c25
from command.error_evolution import (
    ErrorEvolutionCalculator,
    GenerateShallowWaterErrorEvolutionSeries,
    PlotShallowWaterAverageErrorEvolution,
)
from pbt import bench, gen
from pbt.runner import Check, close, require

check = Check(
    "C26",
    rule="A case is a pair of recorded solutions of any space with any two sequences of times; a series of random"
    " benchmarks with a pair of solvers; a list of error evolutions; or a command. Errors are compared with a direct"
    " evaluation. Non-trivial: different times, and an error which is neither zero nor one.",
    assumptions=[
        "the norm of the reference does not vanish",
        "for elements of higher degree the norm is given (the default one is exact for finite volumes only)",
    ],
)


# recorded solutions ###########################################################
@st.composite
def times(draw, start, end):
    """Increasing times; end is often shared."""
    size = draw(st.sampled_from([0, 1, 2, 3, 5, 8, 13]))
    inner = sorted(draw(st.permutations(range(1, 64)))[:size])
    result = [start] + [start + (end - start) * k / 64 for k in inner]
    if draw(st.integers(0, 3)):
        result.append(end)
    return result


@st.composite
def pairs(draw):
    case = draw(gen.domain())
    kind = draw(st.sampled_from(["volume", "volume", "volume", "element"]))
    n = draw(st.integers(3, 8) if kind == "element" else st.integers(1, 8))
    degree = draw(st.integers(1, 4)) if kind == "element" else 1
    components = 0 if kind == "element" else draw(st.sampled_from([0, 1, 2, 2, 3]))
    case |= {"kind": kind, "n": n, "degree": degree, "components": components}
    start = draw(st.sampled_from([0.0, 0.0, 1.0, -2.5]))
    end = start + draw(st.sampled_from([1.0, 0.1, 40.0, 3.7]))
    case["times"] = [draw(times(start, end)), draw(times(start, end))]
    if draw(st.integers(0, 9)) == 9:
        case["times"][1] = case["times"][0]
    case["values"] = draw(st.integers(0, 2**32 - 1))
    case["norm"] = draw(st.sampled_from([None, "L1", "L2"])) if kind == "volume" else draw(st.sampled_from(["L1", "L2"]))
    case["without"] = draw(st.sampled_from([None, None, 0, 1]))
    case["relation"] = draw(st.sampled_from(["free"] * 8 + ["equal", "scaled"]))
    return case


def recorded(space, times, values):
    solution = core.DiscreteSolutionWithHistory(core.DiscreteSolution(values[0], initial_time=times[0], space=space))
    for t, value in zip(times[1:], values[1:]):
        solution.update(t - solution.time, value)
    return solution


def at_time(times, values, t):
    return c25.interpolate(times, values, t)


def reference_evolution(first, second, measure):
    """Times and errors; MEASURE maps dofs to norms."""
    (times_1, values_1), (times_2, values_2) = first, second
    times = times_1 if len(times_1) > len(times_2) else times_2
    errors = []
    for t in times:
        exact = at_time(times_2, values_2, t)
        difference = at_time(times_1, values_1, t) - exact
        errors.append(np.asarray(measure(difference)) / np.asarray(measure(exact)))
    return times, np.array(errors)


def measure_of(case, name):
    quadrature = case["degree"] + 1 if case["kind"] == "element" else 1

    def measure(dofs):
        return c19.reference_norm(name, case["a"], case["L"] / case["n"], case["n"], c19.discrete(case, case["n"], dofs), quadrature, 10)

    return measure


@check.facet("pairs of solutions", pairs(), quick=2000, thorough=60000, rule="different numbers of times and errors between 0.001 and 1000")
def pair(case):
    space = c19.space_of(case, case["n"])
    generator = np.random.default_rng(case["values"])
    dimension = space.dimension if case["kind"] == "element" else case["n"]
    shape = (dimension,) + ((case["components"],) if case["components"] else ())
    values = [generator.integers(16, 128, (len(t), *shape)) / 32 * generator.choice([1, 1, 1, -1], (len(t), *shape)) for t in case["times"]]
    if case["relation"] != "free":
        case["times"][0] = case["times"][1]
        values[0] = values[1] * (1.0 if case["relation"] == "equal" else 1.25)
    solutions = [
        recorded(None if case["without"] == k else space, t, v) for k, (t, v) in enumerate(zip(case["times"], values))
    ]
    norm = None
    if case["norm"]:
        norm = c19.NORMS[case["norm"]](space.mesh, case["degree"] + 1 if case["kind"] == "element" else 1)
    histories = [(s.time_history, s.value_history) for s in solutions]
    measure = measure_of(case, case["norm"] or "L2")
    with np.errstate(all="ignore"):
        evolve = ErrorEvolutionCalculator()
        time, errors = evolve(*solutions, norm=norm) if norm else evolve(*solutions)
        expected_time, expected = reference_evolution(*histories, measure)
    offset = 1 + (abs(case["a"]) + case["L"]) / case["L"] * case["n"]
    close(time, expected_time, 0, "times")
    good = np.isfinite(expected) & (expected < 1e3)
    require(np.shape(errors) == np.shape(expected), "shape of the errors", actual=np.shape(errors), expected=np.shape(expected))
    close(errors[good], expected[good], 1e-11 * offset * (1 + expected[good]), "errors")
    if case["relation"] == "equal":
        close(errors, np.zeros_like(errors), 1e-13, "error of equal solutions")
    if case["relation"] == "scaled":
        close(errors, np.full_like(errors, 0.25), 1e-12, "error of a multiple")
    for solution, history in zip(solutions, histories):
        close(solution.time_history, history[0], 0, "recorded times after the comparison")
        close(solution.value_history, history[1], 0, "recorded values after the comparison")
    return len(case["times"][0]) != len(case["times"][1]) and np.max(expected) > 1e-3 and bool(good.all()), [
        case["kind"], f"components={case['components']}", "first finer" if len(case["times"][0]) > len(case["times"][1]) else "second finer" if len(case["times"][0]) < len(case["times"][1]) else "equal number",
    ]


@check.facet("different grids", st.tuples(pairs(), st.integers(1, 4), st.booleans()), quick=300, thorough=8000)
def mismatch(data):
    case, more, swap = data
    space = c19.space_of(case, case["n"])
    other = c19.space_of(case, case["n"] + more)
    shape = ((case["components"],) if case["components"] else ())
    size = lambda s, n: (s.dimension if case["kind"] == "element" else n,) + shape
    first = recorded(space, case["times"][0], np.ones((len(case["times"][0]), *size(space, case["n"]))))
    second = recorded(other, case["times"][1], np.ones((len(case["times"][1]), *size(other, case["n"] + more))))
    if swap:
        first, second = second, first
    try:
        ErrorEvolutionCalculator()(first, second)
    except AssertionError:
        return True, [case["kind"]]
    require(False, "different grids accepted", cells=case["n"], more=more)


# averages #####################################################################
@st.composite
def collections(draw):
    number = draw(st.integers(1, 5))
    end = draw(st.sampled_from([1.0, 40.0]))
    result = []
    for _ in range(number):
        inner = draw(st.lists(st.integers(1, 63), unique=True, max_size=8).map(sorted))
        points = [0.0] + [end * k / 64 for k in inner] + [end]
        errors = [[draw(st.integers(0, 64)) / 64, draw(st.integers(0, 64)) / 64] for _ in points]
        result.append([points, errors])
    return result


def check_average(times, errors, path, saved):
    common = min(times, key=len)
    aligned = np.array([[at_time(np.asarray(t), np.asarray(e), x) for x in common] for t, e in zip(times, errors)])
    mean, largest = aligned.mean(axis=0), aligned.max(axis=0)
    base, extension = os.path.splitext(path)
    scale = 1 + np.max(np.abs(aligned))
    for k, suffix in enumerate(("_h", "_q")):
        name = base + suffix + extension
        require(name in saved, "average is not saved", path=suffix, saved=sorted(saved))
        drawings = saved[name]
        require(len(drawings) == 1 and len(drawings[0]) == 1 and len(drawings[0][0]) == 1, "lines of the average", lines=[len(d) for d in drawings])
        _, x, y = drawings[0][0][0]
        close(x, common, 1e-13 * (1 + max(common)), "common times")
        close(y, mean[:, k], 1e-12 * scale, "average error")
        require(len(saved.areas[name]) >= 1, "area up to the maximum is missing")
        # outline of the area contains the largest errors
        points = np.concatenate(saved.areas[name])
        for t, value in zip(common, largest[:, k]):
            distance = np.abs(points[:, 0] - t) / (1 + max(common)) + np.abs(points[:, 1] - value) / scale
            require(np.min(distance) < 1e-9, "maximum error", time=t, expected=value)
        require(np.max(points[:, 1]) <= np.max(largest[:, k]) + 1e-9 * scale, "area exceeds the maximum error")
    return common


@check.facet("averages", collections(), quick=400, thorough=10000, rule="at least two runs with different numbers of times")
def averages(case):
    times, errors = [np.array(t) for t, _ in case], [np.array(e) for _, e in case]
    try:
        with c25.recorded_figures() as saved, contextlib.redirect_stdout(io.StringIO()):
            PlotShallowWaterAverageErrorEvolution(times, errors, show=False, save="average.png").execute()
        require(len(saved) == 2, "number of figures", saved=sorted(saved))
        check_average(times, errors, "average.png", saved)
        require(not plt.get_fignums(), "figures are left open")
    finally:
        plt.close("all")
    return len({len(t) for t in times}) > 1, [f"runs={len(times)}"]


# series #######################################################################
SERIES = ["llf", "llf", "low-order", "es", "central", "mcl", "antidiffusion:llf:0.5", "coarse:2", "coarse:3:es1"]
PARAMETERS = {
    "height_average": [1.6, 2.4, 3.0],
    "height_amplitude": [0.1, 0.8],
    "height_wave_number": [2, 5],
    "velocity_average": [0.5, 2.0],
    "velocity_amplitude": [0.3],
    "velocity_wave_number": [1, 4],
}


@st.composite
def series_cases(draw):
    cells = draw(st.integers(6, 16))
    solvers = []
    for _ in range(2):
        scheme = draw(st.sampled_from(SERIES))
        solvers.append(
            {
                "scheme": scheme,
                # one of the larger ones is unstable
                "cfl": draw(st.sampled_from([0.02, 0.05, 0.1, 0.1, 0.5])),
                "integrator": draw(st.sampled_from(bench.INTEGRATOR_NAMES)),
            }
        )
    chosen = draw(st.lists(st.sampled_from(sorted(PARAMETERS)), unique=True, max_size=2))
    return {
        "cells": cells,
        "solvers": solvers,
        "seed": draw(st.integers(0, 10**6)),
        "number": draw(st.integers(1, 4)),
        "steps": draw(st.integers(1, 12)) + draw(st.sampled_from([0.0, 0.5])),
        "parameters": {name: draw(st.sampled_from(PARAMETERS[name])) for name in chosen},
        "save_error": draw(st.booleans()),
        "save_plot": draw(st.booleans()),
        "save_animation": draw(st.integers(0, 4)) == 0,
        "warm": draw(st.booleans()),
    }


def series_solver(case, k, benchmark):
    data = case["solvers"][k]
    degree = int(data["scheme"].split(":")[1]) if data["scheme"].startswith("coarse") else 1
    return bench.swe_solver_class(data["scheme"])(
        benchmark,
        name=f"N{k}",
        short=f"S{k}",
        mesh_size=case["cells"] * degree,
        cfl_number=data["cfl"],
        ode_solver_type=bench.INTEGRATORS[data["integrator"]],
        save_history=True,
    )


def relative_errors(first, second, cells):
    def measure(dofs):
        return np.sqrt(np.sum(dofs**2, axis=0) * 100.0 / cells)

    return reference_evolution((first.time_history, first.value_history), (second.time_history, second.value_history), measure)


def reference_series(seeds, parameters, end_time, build, cells):
    """Times and errors of all runs which do not fail, and their positions."""
    result = []
    for k, seed in enumerate(seeds):
        benchmark = shallow_water.RandomOscillationNoTopographyBenchmark(seed, end_time=end_time, **parameters)
        pair = [build(0, benchmark), build(1, benchmark)]
        messages = [c25.run_reference(pair[1])]
        messages.append(c25.run_reference(pair[0]) if messages[0] is None else None)
        if any(messages):
            continue
        result.append((k, seed, pair, *relative_errors(pair[0].solution, pair[1].solution, cells)))
    return result


def seeds_of(seed, number):
    generator = shallow_water.RandomBenchmarkGenerator(seed=seed)
    return [int(generator().seed) for _ in range(number)]


def finite(errors):
    return np.isfinite(errors) & (np.abs(errors) < 1e3)


def compare_errors(actual, expected, message):
    # rounding is amplified for nearly vanishing discharges of the reference
    require(np.shape(actual) == np.shape(expected), f"{message}: shape", actual=np.shape(actual), expected=np.shape(expected))
    good = finite(expected)
    close(np.where(good, actual, 0), np.where(good, expected, 0), 1e-8, message)


def check_series_figures(directory, expected, saved, case, cells, end_time, parameters):
    wanted = set()
    for k, seed, pair, times, errors in expected:
        if case["save_error"]:
            path = f"{directory}/error_{k}.png"
            wanted.add(os.path.normpath(path))
        if case["save_plot"]:
            wanted |= {os.path.normpath(f"{directory}/plot_{k}_{s}.png") for s in "hqv"}
    drawn = {os.path.normpath(path): value for path, value in saved.items()}
    require(set(drawn) == wanted, "saved figures of the series", actual=sorted(drawn), expected=sorted(wanted))
    titles = {os.path.normpath(path): value for path, value in saved.titles.items()}
    for k, seed, pair, times, errors in expected:
        if case["save_error"]:
            name = os.path.normpath(f"{directory}/error_{k}.png")
            require(len(drawn[name]) == 1 and len(drawn[name][0]) == 1, "number of drawings", path=name, actual=[len(d) for d in drawn[name]])
            lines = drawn[name][0][0]
            require(len(lines) == 2, "lines of an error evolution", actual=[l[0] for l in lines])
            for component, (label, x, y) in zip(("Height", "Discharge"), sorted(lines, reverse=True)):
                require(label.startswith(component), "label of an error evolution", actual=label)
                close(x, times, 1e-12 * end_time, "times of a drawn error evolution")
                compare_errors(y, errors[:, 0 if component == "Height" else 1], "drawn error evolution")
            require(f"seed={seed}" in titles[name], "seed in the title", actual=titles[name])
        if case["save_plot"]:
            benchmark = shallow_water.RandomOscillationNoTopographyBenchmark(seed, end_time=end_time, **parameters)
            for index, suffix in enumerate("hqv"):
                name = os.path.normpath(f"{directory}/plot_{k}_{suffix}.png")
                require(len(drawn[name]) == 1 and len(drawn[name][0]) == 1, "number of drawings", path=name, actual=[len(d) for d in drawn[name]])
                lines = [(label if not label.startswith("_") else "", x, y) for label, x, y in drawn[name][0][0]]
                expected_lines = [
                    (solver.short, solver.solution.grid, c25.components("swe", benchmark, solver.solution.grid, solver.solution.value)[index])
                    for solver in pair
                ]
                c25.compare_lines(lines, expected_lines, "plot of the series")


def check_series_movies(directory, expected, movies, case, end_time, parameters):
    """One movie for each run, with the solutions at all recorded times."""
    drawn = {os.path.normpath(str(movie.path)): movie for movie in movies}
    wanted = {os.path.normpath(f"{directory}/animation_{k}.mp4"): e for e in expected for k in [e[0]]} if case["save_animation"] else {}
    require(len(drawn) == len(movies), "movies with the same name")
    require(set(drawn) == set(wanted), "saved movies of the series", actual=sorted(drawn), expected=sorted(wanted))
    for name, (k, seed, pair, times, errors) in wanted.items():
        benchmark = shallow_water.RandomOscillationNoTopographyBenchmark(seed, end_time=end_time, **parameters)
        frames = drawn[name].frames
        # the picture of the initial state may be drawn first
        grid = np.union1d(pair[0].solution.time_history, pair[1].solution.time_history)
        require(len(frames) == len(grid), "number of frames", movie=name, actual=len(frames), expected=len(grid))
        for t, (axes, texts) in zip(grid, frames):
            require(len(axes) == 3, "number of axes", actual=len(axes))
            require(f"T={t:.2f}" in texts, "displayed time", texts=texts, time=t)
            for index, lines in enumerate(axes):
                lines = [line for line in lines if line[0] != "$b$"]
                expected_lines = []
                for solver in pair:
                    history = solver.solution
                    values = c25.interpolate(history.time_history, history.value_history, t)
                    expected_lines.append((solver.short, history.grid, c25.components("swe", benchmark, history.grid, values)[index]))
                c25.compare_lines(lines, expected_lines, "frame of the series", movie=name, time=t)


@check.facet("series", series_cases(), quick=400, thorough=10000, rule="two runs, differing numbers of times, errors between 0.001 and 1000")
def series(case):
    steps = [s["cfl"] * 100.0 / (case["cells"] * (int(s["scheme"].split(":")[1]) if s["scheme"].startswith("coarse") else 1)) for s in case["solvers"]]
    end_time = min(case["steps"] * max(steps), 40 * min(steps))
    initial = shallow_water.OscillationNoTopographyBenchmark(end_time=end_time)
    seeds = seeds_of(case["seed"], case["number"])
    require(len(set(seeds)) == len(seeds), "benchmarks of a series coincide", seeds=seeds)
    expected = reference_series(seeds, case["parameters"], end_time, lambda k, b: series_solver(case, k, b), case["cells"])
    if not all(np.isfinite(solver.solution.value_history).all() for e in expected for solver in e[2]):
        # there are no axes for undefined values
        case = dict(case, save_animation=False)
    solvers = [series_solver(case, k, initial) for k in (0, 1)]
    if case["warm"]:
        for solver in solvers:
            c25.run_reference(solver)
    output = io.StringIO()
    try:
        with c25.scratch() as directory, c25.recorded_figures() as saved, c25.recorded_movies() as movies:
            target = os.path.join(directory, "series")
            saving = case["save_error"] or case["save_plot"] or case["save_animation"]
            command = GenerateShallowWaterErrorEvolutionSeries(
                *solvers,
                seed=case["seed"],
                end_time=end_time,
                initial_conditions=case["number"],
                description="test",
                save_directory=target if saving else None,
                save_plot=case["save_plot"],
                save_animation=case["save_animation"],
                save_error=case["save_error"],
                **case["parameters"],
            )
            with contextlib.redirect_stdout(output), contextlib.redirect_stderr(io.StringIO()), np.errstate(all="ignore"):
                command.execute()
            check_series_figures(target, expected, saved, case, case["cells"], end_time, case["parameters"])
            check_series_movies(target, expected, movies, case, end_time, case["parameters"])
    finally:
        plt.close("all")
    require(len(command.times) == len(command.errors) == len(expected), "number of compared runs", actual=len(command.times), expected=len(expected))
    for time, errors, (k, seed, pair, times, reference) in zip(command.times, command.errors, expected):
        close(time, times, 1e-12 * end_time, "times of a run")
        compare_errors(errors, reference, "errors of a run")
    failed = [seed for k, seed in enumerate(seeds) if k not in [e[0] for e in expected]]
    for seed in failed:
        require(any("WARNING" in line and f"seed={seed}" in line for line in output.getvalue().splitlines()), "failed run without warning", seed=seed)
    nontrivial = len(expected) > 1 and all(len(e[2][0].solution.time_history) != len(e[2][1].solution.time_history) and np.nanmax(e[4]) > 1e-3 for e in expected)
    return nontrivial, [f"runs={len(expected)}"] + (["failed"] if failed else []) + (["figures"] if saving else [])


# commands #####################################################################
@st.composite
def evolution_commands(draw):
    line = draw(c25.lines("plot-error-evolution"))
    line["problem"] = "swe"
    solvers = []
    cells = draw(st.integers(5, 20))
    for k in range(2):
        key = draw(st.sampled_from(["llf", "low-order", "es", "central", "mcl", "coarse", "antidiffusion"]))
        mesh = cells * (2 if key == "coarse" else 1)
        options = [["m", "short", str(mesh), mesh]]
        if key == "coarse":
            options.append(["c", "long", "2", 2])
        if draw(st.booleans()):
            text, value = draw(st.sampled_from([("0.05", 0.05), ("0.2", 0.2)]))
            options.append(["cfl", "long", text, value])
        solvers.append({"key": key, "options": options})
    line["solvers"] = solvers
    flat = ["oscillation", "b1", "b3", "damm-break", "moving-water-no-bathymetry"]
    line["benchmark"] = draw(st.one_of(st.none(), st.sampled_from(flat), st.integers(0, 10**6)))
    return line


@check.facet("plot-error-evolution", evolution_commands(), quick=240, thorough=6000, rule="different numbers of times")
def evolution(line):
    prepared = c25.prepare(line, True)
    if prepared is None or any(prepared[2]):
        return False, ["unsuitable"]
    end_time, solvers, _ = prepared
    cells = len(solvers[0].solution.grid)
    first, second = solvers[0].solution, solvers[1].solution
    length = c24.benchmark_of(line, None).domain.length
    measure = lambda dofs: np.sqrt(np.sum(dofs**2, axis=0) * length / cells)
    with np.errstate(all="ignore"):
        times, errors = reference_evolution((first.time_history, first.value_history), (second.time_history, second.value_history), measure)
    try:
        with c25.recorded_figures() as saved:
            c25.execute(c24.text_of(line, end_time) + ["--hide", "--save", "error.png"])
    finally:
        plt.close("all")
    require(list(saved) == ["error.png"] and len(saved["error.png"]) == 1 and len(saved["error.png"][0]) == 1, "saved figures", actual=sorted(saved))
    lines = saved["error.png"][0][0]
    require(len(lines) == 2, "lines of an error evolution", actual=[l[0] for l in lines])
    for component, (label, x, y) in zip(("Height", "Discharge"), sorted(lines, reverse=True)):
        require(label.startswith(component), "label of an error evolution", actual=label)
        close(x, times, 1e-12 * end_time, "times of a drawn error evolution")
        compare_errors(y, errors[:, 0 if component == "Height" else 1], "drawn error evolution")
    return len(first.time_history) != len(second.time_history), ["seed" if isinstance(line["benchmark"], int) else "key"]


VARIATIONS = {
    "height-average": ("height_average", "H0", [0.8 * 2, 1.2 * 2], {"height_wave_number": 2}),
    "wave-number": ("height_wave_number", "kh", [10, 15], {}),
    "amplitude": ("height_amplitude", "A", [0.8, 1.0, 1.5], {}),
}


@st.composite
def variation_commands(draw):
    cells = draw(st.integers(6, 14))
    keys = [draw(st.sampled_from(["llf", "low-order", "llf", "antidiffusion", "coarse"])) for _ in range(2)]
    return {
        "cells": cells,
        "solvers": [
            {"scheme": {"antidiffusion": "antidiffusion:llf:0.1", "coarse": "coarse:2"}.get(key, key), "cfl": draw(st.sampled_from([0.02, 0.05])), "integrator": "heun"} for key in keys
        ],
        "seed": draw(st.one_of(st.none(), st.integers(1, 10**6))),
        "number": draw(st.integers(1, 2)),
        "steps": draw(st.integers(1, 4)) + 0.5,
        "references": draw(st.sampled_from([None, None, "", "other"])),
        "prefix": draw(st.sampled_from([None, "first"])),
        "variations": draw(st.sampled_from([None, ["all"], ["amplitude"], ["wave-number"], ["height-average"], ["amplitude", "wave-number"], ["wave-number", "all"]])),
        "save_plot": draw(st.integers(0, 3)) == 0,
        "save_animation": draw(st.integers(0, 7)) == 0,
    }


@check.facet("parameter-variation-test", variation_commands(), quick=80, thorough=2000, rule="at least two parameter values")
def variation(case):
    arguments_of_solvers = []
    steps = []
    for k, data in enumerate(case["solvers"]):
        key, *rest = data["scheme"].split(":")
        mesh = case["cells"] * (2 if key == "coarse" else 1)
        arguments_of_solvers += [key, "+s", f"S{k}", "+m", str(mesh), "++cfl", str(data["cfl"])]
        arguments_of_solvers += ["+c", "2"] if key == "coarse" else []
        steps.append(data["cfl"] * 100.0 / mesh)
    end_time = case["steps"] * max(steps)
    seed = case["seed"] or 1
    seeds = seeds_of(seed, case["number"])
    build = lambda k, b: series_solver(case, k, b)
    groups = []
    with c25.scratch() as directory, c25.recorded_figures() as saved, c25.recorded_movies() as movies:
        root = os.path.join(directory, "results") + "/"
        arguments = ["parameter-variation-test", root, "-T", repr(end_time), "-n", str(case["number"])]
        if case["seed"]:
            arguments += ["--seed", str(case["seed"])]
        if case["prefix"]:
            arguments += ["--references-prefix", case["prefix"]]
        if case["references"] is not None:
            name = case["references"] or "references"
            arguments += ["--references"] + ([case["references"]] if case["references"] else [])
            groups.append(({}, f"{root}{name}", f"{root}{name}/{case['prefix'] or 'error'}_average.png"))
        if case["save_plot"]:
            arguments += ["--save-plot"]
        if case["save_animation"]:
            arguments += ["--save-animation"]
        if case["variations"]:
            arguments += ["-v", *case["variations"]]
            chosen = list(VARIATIONS) if "all" in case["variations"] else case["variations"]
            for key in chosen:
                name, short, values, other = VARIATIONS[key]
                for value in values:
                    groups.append(({name: value} | other, (f"{root}{name}/", value), (f"{root}{name}/{short}_", value)))
        arguments += ["-s", *arguments_of_solvers]
        try:
            c25.execute(arguments)
        finally:
            plt.close("all")
        for parameters, folder, average in groups:
            if isinstance(folder, tuple):
                folder = named(saved, *folder, "/error_")
                average = named(saved, *average, "_average") + "_average.png"
            expected = reference_series(seeds, parameters, end_time, build, case["cells"])
            if not expected:
                continue
            own = c25.Drawings()
            for path in saved:
                if os.path.dirname(path) == folder and os.path.basename(path).startswith(("error_", "plot_")) and "average" not in os.path.basename(path):
                    own[path], own.titles[path], own.areas[path] = saved[path], saved.titles[path], saved.areas[path]
            check_series_figures(folder, expected, own, {"save_error": True, "save_plot": case["save_plot"]}, case["cells"], end_time, parameters)
            check_series_movies(folder, expected, [m for m in movies if os.path.dirname(str(m.path)) == folder], case, end_time, parameters)
            values = [e[4] for e in expected]
            if all(finite(v).all() for v in values):
                check_average([e[3] for e in expected], values, average, saved)
        count = sum(len(reference) for reference in [groups]) * case["number"]
        drawn = [path for path in saved if "/error_" in path and "average" not in os.path.basename(path)]
        require(case["save_animation"] or not movies, "movies without being asked for")
        require(len(drawn) <= count, "number of error evolutions", actual=len(drawn), expected=count)
    return len(groups) > 1, [f"groups={len(groups)}"]


def named(saved, prefix, value, suffix):
    """Start of the paths for a parameter, whose number has any notation."""
    for path in sorted(saved):
        if path.startswith(prefix) and suffix in path[len(prefix) :]:
            text = path[len(prefix) :].split(suffix)[0]
            try:
                if abs(float(text) - value) < 1e-9 * abs(value):
                    return prefix + text
            except ValueError:
                continue
    require(False, "results of a parameter are missing", prefix=prefix, value=value, saved=sorted(saved))
