"""Plots and animations show what the solvers computed."""
import contextlib
import io
import os
import pickle
import shutil
import tempfile

import matplotlib

matplotlib.use("Agg")
import matplotlib.animation
import matplotlib.figure
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

from checks import c23, c24
from command import PARSER_COMMANDS, Calculate, Plot
from command.plot import ScalarPlotter, ShallowWaterPlotter
from parser import CustomArgumentParser
from pbt import bench
from pbt.runner import Check, close, construct, require

check = Check(
    "C25",
    rule="A case is one or two commands with a problem, benchmark, end time, list of solvers with options, and options of"
    " the command; or generated data with solvers some of which fail. Stored lines, drawn lines of saved figures and of"
    " all frames of animations are compared with direct runs of the solvers. Non-trivial: at least two lines and a"
    " solution which differs from the initial data.",
    assumptions=["short names differ where stored lines are compared (their keys are the labels)"],
)

FLAT = {"lake-at-rest-no-bathymetry", "moving-water-no-bathymetry", "oscillation", "damm-break", "sinus-inflow", "b1", "b2", "b3", "b4", "b5", "cylindrical-damm-break", "cylindrical-damm-break-with-wall"}


@contextlib.contextmanager
def scratch():
    directory = tempfile.mkdtemp(dir=os.environ["CLS1_SCRATCH"])
    try:
        yield directory
    finally:
        shutil.rmtree(directory)


def lines_of(axes):
    return [(line.get_label(), np.array(line.get_xdata(), dtype=float), np.array(line.get_ydata(), dtype=float)) for line in axes.get_lines()]


class Drawings(dict):
    """Lines of the axes of saved figures with their titles and areas."""

    def __init__(self):
        super().__init__()
        self.titles, self.areas = {}, {}

    def add(self, figure, path):
        path = str(path)
        self.setdefault(path, []).append([lines_of(axes) for axes in figure.axes])
        self.titles[path] = " ".join(text.get_text() for text in figure.texts)
        self.areas[path] = [
            np.array(outline.vertices, dtype=float)
            for axes in figure.axes
            for collection in axes.collections
            for outline in collection.get_paths()
        ]


@contextlib.contextmanager
def recorded_figures():
    """Records all saved figures instead of drawing them."""
    original = matplotlib.figure.Figure.savefig
    saved = Drawings()
    matplotlib.figure.Figure.savefig = lambda self, path, *args, **kwargs: saved.add(self, path)
    try:
        yield saved
    finally:
        matplotlib.figure.Figure.savefig = original


class Recorder(matplotlib.animation.AbstractMovieWriter):
    """Movie writer keeping all drawn lines."""

    movies = []

    @classmethod
    def isAvailable(cls):
        return True

    def setup(self, fig, outfile, dpi=None):
        self.fig = fig
        self.frames = []
        self.path = outfile
        for name in ("draw", "draw_idle"):
            setattr(fig.canvas, name, lambda *args, **kwargs: None)
        Recorder.movies.append(self)

    def grab_frame(self, **kwargs):
        texts = [text.get_text() for axes in self.fig.axes for text in axes.texts]
        self.frames.append(([lines_of(axes) for axes in self.fig.axes], texts))

    def finish(self):
        pass


@contextlib.contextmanager
def recorded_movies():
    writers = matplotlib.animation.writers
    original = writers._registered.get("ffmpeg")
    writers.register("ffmpeg")(Recorder)
    Recorder.movies = []
    try:
        yield Recorder.movies
    finally:
        if original is not None:
            writers._registered["ffmpeg"] = original


def run_reference(solver):
    """Solves and returns the message of a failure."""
    with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        try:
            solver.solve(disable=True)
        except Exception as error:
            return str(error) or type(error).__name__
    return None


def execute(arguments):
    """Output and namespace of a command."""
    output = io.StringIO()
    with contextlib.redirect_stdout(output), contextlib.redirect_stderr(io.StringIO()), np.errstate(all="ignore"):
        values = vars(c24.parser().parse_arguments(arguments))
        command = construct(values["command"], {k: v for k, v in values.items() if k not in ("args", "profile", "command")})
        command.execute()
    return output.getvalue(), values


def components(problem, benchmark, grid, values):
    """Displayed components of values."""
    values = np.asarray(values, dtype=float)
    if problem != "swe":
        return [values]
    bottom = np.array([float(benchmark.bathymetry(x)) for x in grid])
    h, q = values[..., 0], values[..., 1]
    # regularised for vanishing (and undefined for negative) heights
    v = np.where(h > 1e-15, q / np.where(h > 1e-15, h, 1), 2 * h * q / (h**2 + np.maximum(h, 1e-15) ** 2))
    return [h + bottom, q, v]


def exact_values(benchmark, grid, time=None):
    try:
        with np.errstate(all="ignore"):
            if time is None:
                return np.array([benchmark.exact_solution_at_end_time(x) for x in grid], dtype=float)
            return np.array([benchmark.exact_solution(x, time) for x in grid], dtype=float)
    except Exception:
        return None


def compare_lines(actual, expected, message, **values):
    """Lines as pairs of label, abscissae and ordinates, in any order."""
    require(
        sorted(line[0] for line in actual) == sorted(line[0] for line in expected),
        f"{message}: lines",
        actual=[line[0] for line in actual],
        expected=[line[0] for line in expected],
        **values,
    )
    for (label, x, y), (_, grid, wanted) in zip(sorted(actual, key=lambda l: l[0]), sorted(expected, key=lambda l: l[0])):
        require(np.shape(x) == np.shape(grid) and np.shape(y) == np.shape(wanted), f"{message}: number of points", label=label, actual=np.shape(y), expected=np.shape(wanted), **values)
        close(x, grid, 1e-12 * (1 + np.max(np.abs(grid))), f"{message}: grid of {label}", **values)
        finite = np.isfinite(wanted)
        require(np.array_equal(finite, np.isfinite(y)), f"{message}: defined values of {label}", **values)
        if finite.any():
            # velocities of nearly dry states are regularised
            close(y[finite], wanted[finite], 1e-11 * (1 + np.max(np.abs(wanted[finite]))), f"{message}: values of {label}", **values)


def varying(benchmark, points):
    """Whether the bottom varies: True, False or None if unclear."""
    a, b = benchmark.domain.a, benchmark.domain.b
    fine = np.array([benchmark.bathymetry(x) for x in np.linspace(a, b, 397)])
    grid = np.array([benchmark.bathymetry(x) for x in np.linspace(a, b, points)])
    if np.max(fine) == np.min(fine):
        return False
    return True if points > 60 and np.max(grid) - np.min(grid) > 1e-3 else None


def expected_plot(problem, benchmark, solvers, points, initial, end_time, present):
    """Lines of the component plots. PRESENT are labels of the first one."""
    grid = np.linspace(benchmark.domain.a, benchmark.domain.b, points)
    number = 3 if problem == "swe" else 1
    result = [[] for _ in range(number)]

    def add(grid, values, *labels):
        for k, component in enumerate(components(problem, benchmark, grid, values)):
            result[k].append((labels[k], np.asarray(grid, dtype=float), component))

    exact = exact_values(benchmark, grid)
    bottom = varying(benchmark, points) if problem == "swe" else False
    if bottom is None:
        bottom = "$b$" in present
    if exact is not None:
        time = f"(t={end_time:.1f})$"
        labels = ["$h+b" if bottom else "$h", "$q", "$u"] if problem == "swe" else ["$u"]
        add(grid, exact, *[label + time for label in labels])
    for solver in solvers:
        add(solver.solution.grid, solver.solution.value, *[solver.short] * number)
    if initial:
        labels = ["$h_0$", "$q_0$", "$v_0$"] if problem == "swe" else ["$u_0$"]
        add(grid, [benchmark.initial_data(x) for x in grid], *labels)
    if bottom:
        result[0].append(("$b$", grid, np.array([float(benchmark.bathymetry(x)) for x in grid])))
    return result, exact is not None


def read_plot(problem, path):
    result = []
    base, extension = os.path.splitext(path)
    for suffix in ("_h", "_q", "_v") if problem == "swe" else ("",):
        require(os.path.exists(base + suffix + extension), "plot data are missing", path=suffix)
        with open(base + suffix + extension, "rb") as file:
            stored = pickle.load(file)
        result.append([(label, np.array(line["xdata"], dtype=float), np.array(line["ydata"], dtype=float)) for label, line in stored.items()])
    return result


def check_plot(problem, benchmark, solvers, messages, points, initial, end_time, directory, save, saved, output):
    stored = read_plot(problem, os.path.join(directory, "result.pkl"))
    expected, exact = expected_plot(problem, benchmark, solvers, points, initial, end_time, [l[0] for l in stored[0]])
    for actual, wanted in zip(stored, expected):
        labels = [line[0] for line in wanted]
        if len(set(labels)) == len(labels):
            compare_lines(actual, wanted, "stored plot")
        else:
            # lines are stored with their labels as keys, but all of them are drawn
            require({line[0] for line in actual} == set(labels), "stored plot: labels", actual=[line[0] for line in actual])
    if save:
        suffixes = ("_h", "_q", "_v") if problem == "swe" else ("",)
        require(sorted(saved) == sorted(os.path.join(directory, f"image{s}.png") for s in suffixes), "saved figures", actual=sorted(saved))
        for suffix, wanted in zip(suffixes, expected):
            drawings = saved[os.path.join(directory, f"image{suffix}.png")]
            require(len(drawings) == 1 and len(drawings[0]) == 1, "number of saved drawings", actual=[len(d) for d in drawings])
            compare_lines(drawings[0][0], wanted, "saved figure")
    check_warnings(output, solvers, messages, exact)
    return sum(len(w) for w in expected)


def check_warnings(output, solvers, messages, exact):
    lines = output.splitlines()
    warnings = [line for line in lines if line.startswith("WARNING")]
    for solver, message in zip(solvers, messages):
        if message is None:
            continue
        text = f"until t={solver.solution.time:.3e}"
        require(any(text in line for line in warnings), "failing solver without warning", text=text, output=output[-500:])
    if not any(messages):
        require(not any("calculated until" in line for line in warnings), "unexpected warning", output=output[-500:])


@st.composite
def lines(draw, command):
    problem = draw(st.sampled_from(["advection", "burgers", "swe", "swe"]))
    number = draw(st.sampled_from([0, 1, 1, 2, 2, 3]))
    solvers = []
    shorts = set()
    equal = command in ("plot", "animate") and number > 1 and draw(st.integers(0, 4)) == 0
    for _ in range(number):
        solver = draw(c24.solver_lines(problem))
        # small meshes and unique names
        own = c24.settings(problem, solver)[1]
        if own["m"] > 60:
            degree = own.get("c", 1)
            value = degree * max(1, draw(st.integers(4, 30)) // degree)
            value = degree * 4 if value < 3 else value
            solver["options"] = [o for o in solver["options"] if o[0] != "m"] + [["m", "short", str(value), value]]
        short = "same" if equal else own["s"]
        while short in shorts and not equal:
            short += "x"
        shorts.add(short)
        solver["options"] = [o for o in solver["options"] if o[0] != "s"]
        if short != solver["key"]:
            solver["options"].append(["s", "long", short, short])
        solvers.append(solver)
    benchmark = draw(st.one_of(st.none(), st.sampled_from(sorted(c24.BENCHMARKS[problem])), st.sampled_from(sorted(c24.BENCHMARKS[problem]))))
    if problem == "swe" and draw(st.integers(0, 3)) == 0:
        benchmark = draw(st.integers(0, 10**6))
    return {
        "command": command,
        "problem": problem,
        "solvers": solvers,
        "benchmark": benchmark,
        "end": [draw(st.integers(0, 2)), draw(st.sampled_from([0.5, 1.5, 2.5, 3.25, 6.0]))],
        "order": draw(st.permutations([0, 1, 2])),
        "long": False,
        "points": draw(st.one_of(st.none(), st.integers(1, 3), st.integers(2, 90))),
        "initial": draw(st.booleans()),
        "save": draw(st.booleans()),
    }


def prepare(line, history):
    """End time and solved reference solvers, or nothing if unsuitable."""
    end_time = c24.end_time_of(line)
    try:
        solvers = c24.build_expected(line, end_time, history)
        # the number of steps of adaptive solvers is not known in advance
        constant = dict(line, solvers=[dict(s, options=[o for o in s["options"] if o[0] != "adaptive"]) for s in line["solvers"]])
        counted = c24.build_expected(constant, end_time, False)
    except c24.EXPECTED_ERRORS:
        return None
    for solver in counted:
        if len(solver.as_dict()["time_stepping"]) > 60:
            return None
    return end_time, solvers, [run_reference(solver) for solver in solvers]


@check.facet(
    "plot command",
    st.lists(lines("plot"), min_size=1, max_size=2),
    quick=600,
    thorough=16000,
    rule="two solvers, or one with exact solution or initial data",
)
def plot_command(cases):
    tags, nontrivial = [], False
    try:
        for line in cases:
            prepared = prepare(line, False)
            if prepared is None:
                tags.append("unsuitable")
                continue
            end_time, solvers, messages = prepared
            benchmark = c24.benchmark_of(line, end_time)
            with scratch() as directory, recorded_figures() as saved:
                arguments = c24.text_of(line, end_time) + ["--hide", "--save-data", os.path.join(directory, "result.pkl")]
                if line["points"]:
                    arguments += ["-m", str(line["points"])]
                if line["initial"]:
                    arguments += ["--initial"]
                if line["save"]:
                    arguments += ["--save", os.path.join(directory, "image.png")]
                output, _ = execute(arguments)
                points = line["points"] or 200
                if not solvers and not line["initial"] and exact_values(benchmark, np.linspace(benchmark.domain.a, benchmark.domain.b, points)) is None:
                    require("Nothing to plot" in output and not os.listdir(directory), "empty plot", output=output)
                    tags.append("nothing to plot")
                    plt.close("all")
                    continue
                count = check_plot(line["problem"], benchmark, solvers, messages, points, line["initial"], end_time, directory, line["save"], saved, output)
                nontrivial |= count >= 2 and bool(solvers)
                tags += ["equal names"] if len({s.short for s in solvers}) < len(solvers) else []
                tags += [line["problem"], "saved" if line["save"] else "data only"] + (["failed"] if any(messages) else [])
    finally:
        plt.close("all")
    return nontrivial, sorted(set(tags))


@check.facet(
    "data file next to the plot", lines("plot"), quick=60, thorough=1000, rule="as above"
)
def default_data(line):
    """Without a path the data are saved next to the plot."""
    prepared = prepare(line, False)
    if prepared is None or not prepared[1]:
        return False
    end_time, solvers, messages = prepared
    try:
        with scratch() as directory, recorded_figures():
            execute(c24.text_of(line, end_time) + ["--hide", "--save", os.path.join(directory, "result.png")])
            read_plot(line["problem"], os.path.join(directory, "result.pkl"))
    finally:
        plt.close("all")
    return True, [line["problem"]]


@st.composite
def generated_cases(draw):
    """Generated data and solvers of which some may fail."""
    case = draw(c23.systems(kinds=("swe", "swe", "scalar")))
    names = ["llf", "central", "es", "es1", "low-order", "antidiffusion:llf:0.5", "mcl"] if case["kind"] == "swe" else list(bench.SCALAR_FV)
    solvers = []
    for k in range(draw(st.integers(1, 3))):
        solvers.append(
            {
                "scheme": draw(st.sampled_from(names)),
                "integrator": draw(st.sampled_from(bench.INTEGRATOR_NAMES)),
                # the larger ones are unstable
                "factor": draw(st.sampled_from([0.5, 1.0, 2.0, 4.0, 10.0, 30.0])),
            }
        )
    return {
        "data": case,
        "solvers": solvers,
        "points": draw(st.integers(2, 120)),
        "initial": draw(st.booleans()),
        "executed": draw(st.booleans()),
        "single": draw(st.booleans()),
        "calculate": draw(st.booleans()),
    }


@check.facet("plots of generated data", generated_cases(), quick=600, thorough=16000, rule="two solvers or initial data, and the solution changes")
def generated(case):
    data = case["data"]
    data["steps"] = max(data["steps"], 3.5)
    end_time, cfl = c23.duration_and_cfl(data)
    problem = "swe" if data["kind"] == "swe" else data["problem"]

    def build():
        result = []
        for k, s in enumerate(case["solvers"]):
            constructor = bench.solver_class(data["problem"], s["scheme"])
            arguments = {"ode_solver_type": bench.INTEGRATORS[s["integrator"]], "cfl_number": cfl * s["factor"], "mesh_size": len(data["values"])}
            result.append(constructor(bench.make_benchmark(data, end_time), name=f"N{k}", short=f"S{k}", **arguments))
        return result

    references = build()
    if case["single"]:
        references = references[:1]
    before = references[0].solution.value
    messages = [run_reference(solver) for solver in references]
    benchmark = bench.make_benchmark(data, end_time)
    solvers = build()[: len(references)]
    if case["executed"]:
        for solver in solvers:
            run_reference(solver)
    output = io.StringIO()
    try:
        with scratch() as directory, contextlib.redirect_stdout(output), contextlib.redirect_stderr(io.StringIO()), np.errstate(all="ignore"):
            plotter = (ShallowWaterPlotter if problem == "swe" else ScalarPlotter)(
                benchmark, mesh_size=case["points"], show=False, save_data=os.path.join(directory, "result.pkl")
            )
            Plot(benchmark, solvers[0] if case["single"] else solvers, plotter, initial=case["initial"], solver_executed=case["executed"]).execute()
            if case["executed"]:
                messages = [None] * len(messages)
            check_plot(problem, benchmark, references, messages, case["points"], case["initial"], end_time, directory, False, {}, output.getvalue())
    finally:
        plt.close("all")
    for solver, reference in zip(solvers, references):
        c23.same(nan_free(c23.describe(solver)), nan_free(c23.describe(reference)), "solver after plotting")
    changed = not np.array_equal(before, references[0].solution.value)
    return changed and len(references) + case["initial"] > 1, [problem] + (["failed"] if any(messages) else ["solved"])


def nan_free(description):
    return {k: np.nan_to_num(v) if isinstance(v, np.ndarray) else v for k, v in description.items()}


@st.composite
def calculate_cases(draw):
    line = draw(lines("calculate"))
    return line


@check.facet("calculate command", calculate_cases(), quick=300, thorough=8000, rule="two solvers")
def calculate(line):
    prepared = prepare(line, False)
    if prepared is None:
        return False, ["unsuitable"]
    end_time, references, messages = prepared
    if any(messages):
        return False, ["failed"]
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        values = vars(c24.parser().parse_arguments(c24.text_of(line, end_time)))
        if values["solver"] is None:
            return False, ["no solver"]
        Calculate(values["solver"], disable=True).execute()
    for solver, reference in zip(values["solver"], references):
        c23.same(c23.describe(solver), c23.describe(reference), "calculated solution")
    return len(references) > 1, [line["problem"]]


@st.composite
def movie_cases(draw):
    line = draw(lines("animate"))
    line["points"] = draw(st.one_of(st.none(), st.integers(2, 60)))
    line["time_steps"] = draw(st.one_of(st.integers(1, 12), st.integers(2, 30)))
    line["start"] = draw(st.one_of(st.none(), st.sampled_from([0.1, 0.5, 0.77, 1.0])))
    line["duration"] = draw(st.sampled_from([None, 0.5, 2.0]))
    return line


def interpolate(times, values, t):
    """Linear interpolation keeping the last value."""
    k = int(np.searchsorted(times, t, side="right")) - 1
    if k >= len(times) - 1:
        return values[-1]
    weight = (t - times[k]) / (times[k + 1] - times[k])
    return (1 - weight) * values[k] + weight * values[k + 1]


@check.facet("animate command", movie_cases(), quick=320, thorough=8000, rule="a solver, at least three frames and a frame between recorded times of a solver")
def movie(line):
    prepared = prepare(line, True)
    if prepared is None:
        return False, ["unsuitable"]
    end_time, solvers, messages = prepared
    problem = line["problem"]
    if any(not np.all(np.isfinite(solver.solution.value_history)) for solver in solvers):
        return False, ["not finite"]
    benchmark = c24.benchmark_of(line, end_time)
    points = line["points"] or 200
    grid = np.linspace(benchmark.domain.a, benchmark.domain.b, points)
    exact = True
    try:
        benchmark.exact_solution(0, 0)
    except Exception:
        exact = False
    if exact and problem == "burgers" and end_time > 0.85 * benchmark._critical_time:
        return False, ["close to the shock"]
    grids = [solver.solution.time_history for solver in solvers]
    if exact or line["initial"]:
        grids.append(np.linspace(benchmark.start_time, benchmark.end_time, line["time_steps"]))
    start = None if line["start"] is None else float(repr(line["start"] * end_time))
    times = sorted({float(t) for times in grids for t in times})
    shown = [t for t in times if t >= (start or 0.0)]
    if grids and not shown:
        return False, ["nothing after the start"]
    try:
        with scratch() as directory, recorded_movies() as movies:
            arguments = c24.text_of(line, end_time) + ["--hide", "--save", os.path.join(directory, "movie.mp4"), "--time_steps", str(line["time_steps"])]
            if line["points"]:
                arguments += ["-m", str(line["points"])]
            if line["initial"]:
                arguments += ["--initial"]
            if start is not None:
                arguments += ["-t", repr(start)]
            if line["duration"]:
                arguments += ["--duration", str(line["duration"])]
            output, _ = execute(arguments)
            check_warnings(output, solvers, messages, exact)
            if not grids:
                require("Nothing to animate" in output and not movies, "empty animation", output=output)
                return False, ["nothing to animate"]
            require(len(movies) == 1, "number of movies", actual=len(movies))
            require(str(movies[0].path) == os.path.join(directory, "movie.mp4"), "path of the movie")
            frames = movies[0].frames
    finally:
        plt.close("all")
    require(len(frames) == len(shown), "number of frames", actual=len(frames), expected=len(shown))
    require(
        movies[0].fps == max(1, int(len(shown) / (line["duration"] or 20))), "frames per second", actual=movies[0].fps
    )
    number = 3 if problem == "swe" else 1
    bottom = np.array([float(benchmark.bathymetry(x)) for x in grid]) if problem == "swe" else None
    between = False
    for t, (drawn, texts) in zip(shown, frames):
        expected = [[] for _ in range(number)]

        def add(x, values, *labels):
            for k, component in enumerate(components(problem, benchmark, x, values)):
                expected[k].append((labels[k], np.asarray(x, dtype=float), component))

        for solver in solvers:
            history = solver.solution
            between |= not np.any(history.time_history == t)
            add(history.grid, interpolate(history.time_history, history.value_history, t), *[solver.short] * number)
        if exact:
            labels = ["$h+b$", "$q$", "$u$"] if problem == "swe" else ["exact"]
            add(grid, [benchmark.exact_solution(x, t) for x in grid], *labels)
        if line["initial"]:
            labels = ["$h_0+b$", "$q_0$", "$u_0$"] if problem == "swe" else ["$u_0$"]
            add(grid, [benchmark.initial_data(x) for x in grid], *labels)
        if problem == "swe":
            expected[0].append(("$b$", grid, bottom))
        require(len(drawn) == number, "number of axes", actual=len(drawn))
        for actual, wanted in zip(drawn, expected):
            compare_lines(actual, wanted, "frame", time=t)
        require(f"T={t:.2f}" in texts, "displayed time", texts=texts, time=t)
    return bool(solvers) and len(frames) > 2 and between, [problem] + (["failed"] if any(messages) else []) + (["later start"] if start else [])
