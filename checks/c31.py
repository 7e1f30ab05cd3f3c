"""Data commands keep exactly the rows they promise."""
import contextlib
import io
import os
from pathlib import Path
from unittest import mock

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from checks import c22, c24
from command.analyze_curvature import PlotCurvatureAgainstSubgridFlux
from command.analyze_data import AnalyzeData
from command.delete_curvature import DeleteCurvature
from finite_volume.shallow_water.solver.reduced_model import Curvature
from pbt.runner import Check, close, construct, require

check = Check(
    "C31",
    rule="A case is a data file of random stencils (random, nearly linear, with curvatures exactly at a threshold) with"
    " any index, or one written by generate-data, with thresholds, step lengths and repeated filterings by the command"
    " line or directly. Results are read as text and compared with curvatures of the interpolating parabolas."
    " Non-trivial: some rows are kept, some removed because of the height only and some because of the discharge only.",
    assumptions=["curvatures closer to a threshold than rounding are undecided unless they are representable"],
)
NAMES = ["U0", "U1", "U2", "U3", "G_1.5"]


# curvatures ###################################################################
def curvatures(stencils, step):
    """Mean curvature of the parabolas through three neighbouring points each."""
    stencils = np.asarray(stencils, dtype=float).reshape(-1, 4, 2)
    first = (stencils[:, 2:] - stencils[:, :-2]) / (2 * step)
    second = (stencils[:, 2:] - 2 * stencils[:, 1:-1] + stencils[:, :-2]) / step / step
    return np.mean(np.abs(second) / (1 + first**2) ** 1.5, axis=1)


def rounding(stencils, step):
    """Size of the rounding errors of curvatures."""
    return 1e-14 * (1 + np.abs(np.asarray(stencils, dtype=float)).max()) * (1 + 1 / step / step) * 20


@st.composite
def tables(draw):
    """Stencils with fluxes of different character."""
    step = draw(st.sampled_from([2.0, 2.0, 2.0, 0.125, 0.5, 1.0, 3.7, 16.0]))
    given = {
        "step": step if step != 2.0 or draw(st.booleans()) else None,
        "kh": draw(st.one_of(st.none(), st.sampled_from([0.0625, 0.25, 0.5]), st.floats(1e-3, 1e3))),
        "kq": draw(st.one_of(st.none(), st.sampled_from([0.125, 0.5, 1.0]), st.floats(1e-3, 1e3))),
    }
    return {
        "seed": draw(st.integers(0, 2**32 - 1)),
        "rows": draw(st.sampled_from([20, 40, 40, 1, 0, 2, 60, 60])),
        "given": given,
        "index": draw(st.sampled_from(["range", "equal", "random"])),
        "space": draw(st.booleans()),
        "format": draw(st.sampled_from(["repr", "repr", ".3f", ".8e", ".20g"])),
    }


def settings(case):
    given = case["given"]
    return given["step"] or 2.0, given["kh"] or 0.25, given["kq"] or 0.5


def make_rows(case):
    """Rows whose curvatures are spread around the thresholds."""
    step, *thresholds = settings(case)
    generator = np.random.default_rng(case["seed"])
    n = case["rows"]
    stencils = np.zeros((n, 4, 2))
    for i in range(n):
        for k in range(2):
            kind = generator.integers(6)
            size = thresholds[k] * step**2
            base = generator.normal() * generator.choice([0.1, 1.0, 10.0])
            slope = step * generator.normal() * generator.choice([0.0, 0.3, 1.0])
            if kind == 0:
                values = base + slope * np.arange(4.0)  # linear
            elif kind == 1:
                values = generator.normal(size=4)
            elif kind in (2, 3, 4):
                # parabola below or above the threshold
                factor = generator.choice([0.1, 0.7, 0.9, 1.1, 1.5, 4.0])
                values = base + slope * np.arange(4.0) + generator.choice([-1, 1]) * factor * size * (np.arange(4.0) - 1.5) ** 2 / 2
            else:
                # saw tooth whose curvature is exactly the threshold if it is representable
                values = generator.integers(1, 9) + np.array([0, size / 2, 0, size / 2]) * generator.choice([1, 1, 0.5])
            stencils[i, :, k] = values
    flux = generator.normal(size=(n, 2)) * 10.0 ** generator.integers(-9, 3, size=(n, 2))
    return np.concatenate([stencils.reshape(n, 8), flux], axis=1)


def make_index(case, n):
    generator = np.random.default_rng(case["seed"])
    if case["index"] == "range":
        return list(range(n))
    return [7] * n if case["index"] == "equal" else [int(k) for k in generator.integers(0, 10000, n)]


def write(case, path, rows, names=NAMES):
    number = repr if case["format"] == "repr" else lambda x: format(x, case["format"])
    separator = ", " if case["space"] else ","
    lines = [separator.join([""] + [n for n in names for _ in range(2)]), separator.join([""] + ["h", "q"] * len(names))]
    lines += [separator.join([str(i)] + [number(float(x)) for x in row]) for i, row in zip(make_index(case, len(rows)), rows)]
    Path(path).write_text("\n".join(lines) + "\n")


def read(path):
    """Header, index and numbers of a file, read without the program."""
    lines = [[word.strip() for word in line.split(",")] for line in Path(path).read_text().splitlines()]
    body = [line for line in lines[2:] if line[1:2] != [""]]  # the third line may name the index
    require(all(len(line) == len(lines[0]) for line in lines), "rows of different lengths", path=os.path.basename(path))
    return lines[:2], [line[0] for line in body], np.array([[float(x) for x in line[1:]] for line in body]).reshape(len(body), len(lines[0]) - 1)


@contextlib.contextmanager
def scratch():
    """An own empty working directory."""
    with c22.scratch() as directory:
        previous = os.getcwd()
        os.chdir(directory)
        try:
            yield directory
        finally:
            os.chdir(previous)


def run(arguments):
    """Runs a command line; gives its output."""
    output = io.StringIO()
    with contextlib.redirect_stdout(output), contextlib.redirect_stderr(output):
        try:
            parsed = c24.parser().parse_arguments(arguments)
            construct(parsed.command, {k: v for k, v in vars(parsed).items() if k not in ("command", "profile", "args")}).execute()
        except SystemExit as error:
            require(False, "the command line is refused", arguments=arguments, output=output.getvalue()[-500:], code=error.code)
    return output.getvalue()


# facets #######################################################################
@st.composite
def stencil_cases(draw):
    return {
        "seed": draw(st.integers(0, 2**32 - 1)),
        "rows": draw(st.integers(1, 12)),
        "step": draw(st.one_of(st.none(), st.sampled_from([1.0, 2.0]), st.floats(0.05, 50))),
        "scale": draw(st.sampled_from([0.01, 1.0, 1.0, 30.0])),
        "offset": draw(st.sampled_from([1.0, -3.5, 64.0])),
        "slope": draw(st.integers(-32, 32)) / 8,
        "flux": draw(st.booleans()),
    }


@check.facet("curvature", stencil_cases(), quick=4000, thorough=120000, rule="at least one stencil which is not linear")
def curvature(case):
    generator = np.random.default_rng(case["seed"])
    stencils = generator.integers(-64, 64, (case["rows"], 4, 2)) / 32 * case["scale"]
    step = case["step"] or 2.0
    feature = Curvature() if case["step"] is None else Curvature(case["step"])

    def evaluate(values):
        before = values.reshape(len(values), 8).copy()
        result = feature.fit(before, None).transform(before)
        require(np.shape(result) == (len(values), 10), "shape of the transformed data", actual=np.shape(result))
        close(result[:, :8], values.reshape(len(values), 8), 0, "stencils after the transformation")
        close(before, values.reshape(len(values), 8), 0, "input after the transformation")
        return result[:, 8:]

    tolerance = rounding(stencils, step)
    actual = evaluate(stencils)
    close(actual, curvatures(stencils, step), tolerance, "curvature")
    close(evaluate(stencils[:, ::-1].copy()), actual, tolerance, "mirrored stencils")
    close(evaluate(-stencils), actual, tolerance, "negative stencils")
    shifted = stencils + case["offset"]
    close(evaluate(shifted), actual, rounding(shifted, step), "stencils with an offset")
    exchanged = evaluate(stencils[:, :, ::-1].copy())
    close(exchanged[:, ::-1], actual, tolerance, "exchanged components")
    reverse = evaluate(stencils[::-1].copy())
    close(reverse[::-1], actual, tolerance, "order of rows")
    linear = case["offset"] + case["slope"] * np.arange(4.0)[None, :, None] * np.array([1.0, -2.0])
    close(evaluate(linear), np.zeros((1, 2)), rounding(linear, step), "curvature of linear data")
    parabola = linear + 0.125 * (np.arange(4.0) - 1.5)[None, :, None] ** 2
    require(np.all(evaluate(parabola) > 0), "curvature of a parabola vanishes", actual=evaluate(parabola).tolist())
    return bool(np.any(actual > tolerance)), ["default step"] if case["step"] is None else []


@st.composite
def filters(draw):
    case = draw(tables())
    case["direct"] = draw(st.booleans())
    case["inplace"] = draw(st.integers(0, 4)) == 0
    case["existing"] = draw(st.booleans())
    case["order"] = draw(st.permutations(["paths", "-s", "--kh", "--kq"]))
    case["long"] = draw(st.booleans())
    return case


def filter_arguments(case, source, target):
    given = case["given"]
    words = {
        "paths": [source, target],
        "-s": ["--step-length" if case["long"] else "-s", repr(given["step"])] if given["step"] else [],
        "--kh": ["--kh", repr(given["kh"])] if given["kh"] else [],
        "--kq": ["--kq", repr(given["kq"])] if given["kq"] else [],
    }
    return ["delete-curvature"] + [w for key in case["order"] for w in words[key]]


def apply_filter(case, source, target):
    given = case["given"]
    if case["direct"]:
        names = {"step": "step_length", "kh": "curvature_height_threshold", "kq": "curvature_discharge_threshold"}
        DeleteCurvature(source, target, **{names[k]: v for k, v in given.items() if v is not None}).execute()
    else:
        run(filter_arguments(case, source, target))


def decide(case, rows):
    """Rows which have to be kept or removed, and why."""
    step, *thresholds = settings(case)
    k = curvatures(rows[:, :8], step)
    limit = np.array([rounding(row[:8], step) for row in rows]).reshape(-1, 1) * (1 + np.array(thresholds))
    steep = np.array([[exactly(row[c:8:2], step) for c in range(2)] for row in rows], dtype=bool).reshape(-1, 2)
    undecided = (np.abs(k - thresholds) <= limit) & ~steep
    below = k < np.array(thresholds)
    keep = (below & ~undecided).all(axis=1)
    remove = (~below & ~undecided).any(axis=1)
    return keep, remove, below & ~undecided, ~below & ~undecided


def exactly(values, step):
    """Whether the curvature is computed without rounding errors."""
    small = np.all(values * 1024 == np.round(values * 1024)) and np.all(np.abs(values) < 1024)
    return bool(small and np.log2(step) % 1 == 0 and values[0] == values[2] and values[1] == values[3])


def check_filtered(case, before, after):
    (head, index, rows), (new_head, new_index, new_rows) = before, after
    require(new_head == head, "header of the filtered file", actual=new_head, expected=head)
    keep, remove, below, above = decide(case, rows)
    position = 0
    for i in range(len(rows)):
        same = position < len(new_rows) and new_index[position] == index[i] and np.array_equal(new_rows[position], rows[i])
        if keep[i] or (not remove[i] and same):
            require(
                same, "a row with small curvatures is missing or changed", row=rows[i].tolist(), settings=settings(case),
                found=new_rows[position].tolist() if position < len(new_rows) else None,
            )
            position += 1
    require(position == len(new_rows), "a row with large curvatures is kept", expected=position, actual=len(new_rows),
            row=new_rows[position].tolist() if position < len(new_rows) else None, settings=settings(case))
    # removed because of one component only
    height, discharge = above[:, 0] & below[:, 1], above[:, 1] & below[:, 0]
    return bool(keep.any() and height.any() and discharge.any())


@check.facet("delete-curvature", filters(), quick=1200, thorough=30000)
def delete(case):
    with scratch():
        write(case, "data.csv", make_rows(case))
        text = Path("data.csv").read_bytes()
        before = read("data.csv")
        target = "data.csv" if case["inplace"] else "result.csv"
        if case["existing"] and not case["inplace"]:
            Path(target).write_text("something else\n" * 100)
        apply_filter(case, "data.csv", target)
        result = check_filtered(case, before, read(target))
        if not case["inplace"]:
            require(Path("data.csv").read_bytes() == text, "the filter changes its input")
        # filtering again removes nothing
        once = Path(target).read_bytes()
        apply_filter(case | {"direct": not case["direct"]}, target, "again.csv")
        require(Path("again.csv").read_bytes() == once, "filtering again with the same settings changes something")
        require({"data.csv", target, "again.csv"} == set(os.listdir(".")), "files", actual=sorted(os.listdir(".")))
    given = case["given"]
    tags = ["direct" if case["direct"] else "command line"] + [f"default {k}" for k, v in given.items() if v is None]
    return result, tags + (["in place"] if case["inplace"] else []) + (["empty"] if case["rows"] == 0 else [])


def printed_tables(text, paths):
    """The printed tables by position."""
    lines = text.splitlines()
    starts = []
    for path in paths:
        begin = (starts[-1] + 1) if starts else 0
        k = next((i for i in range(begin, len(lines)) if path.upper() in lines[i]), None)
        require(k is not None, "a file is not announced", path=path, output=text[-800:])
        starts.append(k)
    return [lines[a + 1 : b] for a, b in zip(starts, starts[1:] + [len(lines)])]


@st.composite
def analyses(draw):
    return {
        "tables": draw(st.lists(tables().filter(lambda c: c["rows"] > 0), min_size=1, max_size=3)),
        "direct": draw(st.booleans()),
        "histogram": draw(st.integers(0, 3)) == 0,
        "twice": draw(st.integers(0, 4)) == 0,
    }


@check.facet("analyze-data", analyses(), quick=240, thorough=6000, rule="two files of more than two rows")
def analyze(case):
    plt.close("all")
    with scratch():
        paths = []
        for k, table in enumerate(case["tables"]):
            write(table, f"file-{k}.csv", make_rows(table))
            paths.append(f"file-{k}.csv")
        if case["twice"]:
            paths.append(paths[0])
        before = {path: (Path(path).read_bytes(), os.stat(path).st_mtime_ns) for path in paths}
        shown = []
        show = mock.patch.object(plt, "show", lambda *args, **options: shown.append(plt.get_fignums()))
        with show, pd.option_context("display.max_columns", None, "display.width", 10000, "display.precision", 15):
            if case["direct"]:
                output = io.StringIO()
                with contextlib.redirect_stdout(output):
                    AnalyzeData(paths, histogram=case["histogram"]).execute()
                text = output.getvalue()
            else:
                text = run(["analyze-data", *paths] + (["--histogram"] if case["histogram"] else []))
        for path in paths:
            require((Path(path).read_bytes(), os.stat(path).st_mtime_ns) == before[path], "analysing changes a file", path=path)
        require(sorted(os.listdir(".")) == sorted(set(paths)), "files", actual=sorted(os.listdir(".")))
        for path, lines in zip(paths, printed_tables(text, paths)):
            _, _, rows = read(path)
            n = len(rows)
            expected = {
                "count": np.full(10, float(n)), "mean": rows.sum(axis=0) / n, "min": rows.min(axis=0), "max": rows.max(axis=0),
                "25%": np.quantile(rows, 0.25, axis=0), "50%": np.median(rows, axis=0), "75%": np.quantile(rows, 0.75, axis=0),
            }
            if n > 1:
                expected["std"] = np.sqrt(((rows - rows.mean(axis=0)) ** 2).sum(axis=0) / (n - 1))
            found = {line.split()[0]: line.split()[1:] for line in lines if line.split()}
            for name, values in expected.items():
                require(name in found and len(found[name]) == 10, "statistic is missing", name=name, path=path, lines=lines)
                close([float(x) for x in found[name]], values, 1e-8 * (1 + np.abs(rows).max(axis=0)), f"printed {name}", path=path)
        figures = [plt.figure(k) for k in plt.get_fignums()]
        if case["histogram"]:
            require(len(figures) == len(paths), "number of histograms", actual=len(figures), expected=len(paths))
            require(set().union(*shown) == set(plt.get_fignums()), "histograms which are not shown", shown=shown)
            for path, figure in zip(paths, figures):
                _, _, rows = read(path)
                axes = [a for a in figure.get_axes() if a.get_title()]
                titles = [f"('{n}', '{c}')" for n in NAMES for c in "hq"]
                require(sorted(a.get_title() for a in axes) == sorted(titles), "titles", actual=[a.get_title() for a in axes])
                for a in axes:
                    column = rows[:, titles.index(a.get_title())]
                    require(sum(p.get_height() for p in a.patches) == len(rows), "histogram does not show all rows")
                    left, right = a.patches[0].get_x(), a.patches[-1].get_x() + a.patches[-1].get_width()
                    if column.min() < column.max():
                        close([left, right], [column.min(), column.max()], 1e-9 * (1 + np.abs(column).max()), "histogram range")
        else:
            require(not figures and not shown, "figures without being asked for", shown=shown)
    plt.close("all")
    return len({p for p in paths}) > 1 and all(t["rows"] > 2 for t in case["tables"]), (["histogram"] if case["histogram"] else [])


@st.composite
def scatters(draw):
    case = {"tables": [draw(tables().filter(lambda c: c["rows"] > 0)) for _ in range(2)]}
    case["save"], case["show"], case["direct"] = draw(st.booleans()), draw(st.booleans()), draw(st.booleans())
    return case


@check.facet("analyze-curvature", scatters(), quick=60, thorough=1200, rule="two files of different lengths")
def scatter(case):
    plt.close("all")
    with scratch():
        for folder in ("reduced-llf", "reduced-es1", "curvature-analysis"):
            os.makedirs(os.path.join("data", folder))
        paths = ["data/reduced-llf/data.csv", "data/reduced-es1/data.csv"]
        data = []
        for path, table in zip(paths, case["tables"]):
            write(table, path, make_rows(table))
            data.append(read(path)[2])
        before = [Path(path).read_bytes() for path in paths]
        shown, show = [], plt.show
        plt.show = lambda *args, **kwargs: shown.append(1)
        made, original = [], plt.subplots

        def subplots(*args, **kwargs):
            figure, axes = original(*args, **kwargs)
            made.append(figure)
            return figure, axes

        plt.subplots = subplots
        try:
            if case["direct"]:
                PlotCurvatureAgainstSubgridFlux(show=case["show"], save=case["save"]).execute()
            else:
                run(["analyze-curvature"] + ([] if case["show"] else ["--hide"]) + (["--save"] if case["save"] else []))
        finally:
            plt.show, plt.subplots = show, original
        require([Path(path).read_bytes() for path in paths] == before, "analysing changes a file")
        require(bool(shown) == case["show"], "figures are shown", actual=bool(shown), expected=case["show"])
        expected_files = {f"k{a}_G{b}.png" for a in "hq" for b in "hq"} if case["save"] else set()
        require(set(os.listdir("data/curvature-analysis")) == expected_files, "saved figures", actual=os.listdir("data/curvature-analysis"))
        require(len(made) == 4, "number of figures", actual=len(made))
        pairs = []
        for figure in made:
            axes = figure.get_axes()
            require([a.get_title() for a in axes] == ["LLF", "ES1"], "titles", actual=[a.get_title() for a in axes])
            found = None
            for a in range(2):
                for b in range(2):
                    fits = []
                    for ax, rows in zip(axes, data):
                        points = np.asarray(ax.collections[0].get_offsets())
                        k = curvatures(rows[:, :8], 2.0)[:, a]
                        wanted = np.stack([k, rows[:, 8 + b]], axis=1)
                        fits.append(points.shape == wanted.shape and np.allclose(points, wanted, rtol=1e-9, atol=1e-9 * (1 + np.abs(rows).max())))
                    label = "hq"[a] in axes[0].get_xlabel().lower() and "hq"[b] in axes[0].get_ylabel().lower()
                    if all(fits) and label:
                        found = (a, b)
            require(found is not None, "a figure does not show curvatures and subgrid fluxes", labels=[axes[0].get_xlabel(), axes[0].get_ylabel()])
            pairs.append(found)
        require(sorted(pairs) == [(0, 0), (0, 1), (1, 0), (1, 1)], "shown pairs", actual=pairs)
    plt.close("all")
    return len(data[0]) != len(data[1]), ["saved"] if case["save"] else []


@st.composite
def pipelines(draw):
    case = draw(c22.generate_cases(modes=1))
    case["scheme"] = draw(st.sampled_from(["llf", "llf", "es1", "low-order"]))
    case["radius"], case["node"] = 2, draw(st.integers(2, 4))
    coarse = max(4, case["node"] + 2)
    case["degree"] = draw(st.integers(1, 4))
    case["mesh"] = coarse * case["degree"]
    case["cfl"] = 0.05
    case["end"] = draw(st.integers(1, 8)) * case["cfl"] * 100.0 / case["mesh"]
    case["quantiles"] = [draw(st.sampled_from([0.2, 0.5, 0.8, 0.9])) for _ in range(2)]
    case["direct"] = draw(st.booleans())
    return case


@check.facet("generated data", pipelines(), quick=100, thorough=2500, rule="rows are kept and removed")
@c22.refusable
def pipeline(case):
    with c22.scratch() as directory:
        for overwrite in case["modes"]:
            c22.generate(case, directory, overwrite)
        path = os.path.join(directory, "data.csv")
        before = read(path)
        rows = before[2]
        require(rows.shape[1] == 10, "columns of the data", actual=rows.shape)
        k = curvatures(rows[:, :8], 2.0)
        # thresholds between two curvatures
        limits = [float(np.quantile(np.unique(k[:, c]), q, method="lower")) * (1 + 1e-6) + 1e-9 for c, q in enumerate(case["quantiles"])]
        given = {"step": None, "kh": limits[0], "kq": limits[1]}
        setting = {"given": given, "direct": case["direct"], "long": True, "order": ["--kh", "paths", "--kq", "-s"]}
        target = os.path.join(directory, "filtered.csv")
        apply_filter(setting, path, target)
        after = read(target)
        check_filtered(setting, before, after)
        output = io.StringIO()
        with contextlib.redirect_stdout(output):
            AnalyzeData([target]).execute()
        require("count" in output.getvalue(), "filtered data can not be analysed", output=output.getvalue())
        check_filtered(setting, before, read(target))
    return 0 < len(after[2]) < len(rows), [case["scheme"], "appended" if not all(case["modes"]) else "written once"]
