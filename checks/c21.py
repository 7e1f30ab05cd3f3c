"""Random benchmarks."""
import numpy as np
from hypothesis import strategies as st

from benchmark import shallow_water as swe
from pbt import gen
from pbt.runner import Check, KnownFinding, close, require

check = Check(
    "C21",
    rule="A case is a seed with explicitly given parameters, or a generator with a sequence of draws. Non-trivial: at"
    " least one parameter is drawn (benchmarks), at least two benchmarks (sequences).",
)

TWO_PI = 2 * np.pi
RANGES = {
    "height_average": (2.0, 2.0),
    "height_amplitude": (0.2, 0.6),
    "height_phase_shift": (0.0, TWO_PI),
    "height_wave_number": (1, 5),
    "velocity_average": (1.0, 2.0),
    "velocity_amplitude": (0.2, 0.6),
    "velocity_phase_shift": (0.0, TWO_PI),
    "velocity_wave_number": (1, 4),
}
VALUES = {
    "height_average": gen.grid_float(1, 4),
    "height_amplitude": gen.grid_float(0, 0.75),
    "height_phase_shift": gen.signed(7),
    "height_wave_number": st.integers(0, 8),
    "velocity_average": gen.signed(3),
    "velocity_amplitude": gen.grid_float(0, 2),
    "velocity_phase_shift": gen.signed(7),
    "velocity_wave_number": st.integers(0, 8),
}
INTEGERS = ("height_wave_number", "velocity_wave_number")


def parameters_of(benchmark):
    return {name: float(getattr(benchmark, name)) for name in RANGES}


def seeds():
    return st.one_of(st.integers(0, 20), st.integers(0, 10**9))


@st.composite
def given_parameters(draw):
    if draw(st.integers(0, 2)) == 0:
        return {}
    names = draw(st.lists(st.sampled_from(sorted(RANGES)), min_size=1, max_size=8, unique=True))
    given = {}
    for name in names:
        # a vanishing average height is no admissible parameter
        zero = draw(st.integers(0, 11)) == 0 and name != "height_average"
        given[name] = (0 if name in INTEGERS else 0.0) if zero else draw(VALUES[name])
    return given


@st.composite
def cases(draw):
    return {
        "seed": draw(seeds()),
        "other": draw(seeds()),
        "given": draw(given_parameters()),
        "end": draw(st.one_of(st.none(), gen.grid_float(0.125, 100, 8))),
    }


def build(seed, case):
    arguments = dict(case["given"])
    if case["end"] is not None:
        arguments["end_time"] = case["end"]
    return swe.RandomOscillationNoTopographyBenchmark(seed, **arguments)


def check_ranges(benchmark, given):
    """Drawn parameters lie in their ranges, given ones are kept. Returns names of overridden vanishing parameters."""
    overridden = []
    for name, (low, high) in RANGES.items():
        value = getattr(benchmark, name)
        if name in given and given[name] != 0:
            require(value == given[name], "an explicitly given parameter is not kept", name=name, value=value, given=given[name])
        elif name in given and value == 0:
            pass
        else:
            require(low <= value <= high, "a drawn parameter lies outside its range", name=name, value=value, range=(low, high))
            if name in INTEGERS:
                require(float(value).is_integer(), "a wave number is not an integer", name=name, value=value)
            if name in given:
                overridden.append(name)
    return overridden


def data_of(benchmark):
    return np.array([benchmark.initial_data(x) for x in (0.0, 3.7, 41.0, 77.7)])


@check.facet(
    "benchmarks", cases(), quick=4000, thorough=100000,
    examples=[{"seed": 1, "other": 2, "given": {"velocity_amplitude": 0.0}, "end": None}],
)
def benchmarks(case):
    given, seed = case["given"], case["seed"]
    np.random.seed(case["other"] % 2**32)
    first = build(seed, case)
    np.random.seed((case["other"] + 1) % 2**32)
    build(case["other"], case)
    second = build(seed, case)
    require(first.seed == seed, "recorded seed", actual=first.seed)
    require(parameters_of(first) == parameters_of(second), "the same seed yields another benchmark",
            first=parameters_of(first), second=parameters_of(second))
    close(data_of(first), data_of(second), 0, "initial data of the same seed")
    again = build(first.as_dict()["seed"], case)
    require(parameters_of(again) == parameters_of(first), "the recorded seed yields another benchmark")
    expected = 40.0 if case["end"] is None else case["end"]
    require(first.end_time == expected, "end time", actual=first.end_time, expected=expected)
    require(first.as_dict()["end_time"] == expected, "recorded end time")
    overridden = check_ranges(first, given)
    other = build(case["other"], case)
    if case["other"] != seed:
        for name, value in parameters_of(first).items():
            if name not in given and name not in INTEGERS and name != "height_average":
                require(value != parameters_of(other)[name], "different seeds yield the same parameter", name=name, value=value)
    # drawn parameters are not all the same number in disguise
    relative = [
        (parameters_of(first)[name] - low) / (high - low)
        for name, (low, high) in RANGES.items() if name not in given and name not in INTEGERS and high > low
    ]
    require(len(set(np.round(relative, 12))) == len(relative), "parameters of a benchmark are not independent", relative=relative)
    for name in INTEGERS:
        require(parameters_of(first)[name] == int(parameters_of(first)[name]), "wave number")
    h = np.array([first.initial_data(x)[0] for x in np.linspace(0, 100, 33)])
    if "height_average" not in given and "height_amplitude" not in given:
        require(np.all(h > 0), "water height is not positive")
    if overridden:
        raise KnownFinding("vanishing-parameter", f"vanishing parameters {overridden} are replaced")
    return len(given) < 7, ["given" if given else "drawn"]


@st.composite
def generator_cases(draw):
    return {
        "seed": draw(seeds()),
        "number": draw(st.integers(1, 6)),
        "explicit": draw(st.lists(st.one_of(st.none(), st.none(), seeds()), min_size=6, max_size=6)),
        "given": {k: v for k, v in draw(given_parameters()).items() if v != 0},
        "end": draw(st.one_of(st.none(), gen.grid_float(0.125, 100, 8))),
    }


@check.facet(
    "sequences", generator_cases(), quick=3000, thorough=80000, rule="at least two benchmarks are drawn",
    examples=[{"seed": 1, "number": 1, "explicit": [0, None, None, None, None, None], "given": {}, "end": None}],
)
def sequences(case):
    finding = False

    def draw_all():
        generator = swe.RandomBenchmarkGenerator(case["seed"], end_time=case["end"], **case["given"])
        result = []
        for seed in case["explicit"][: case["number"]]:
            result.append(generator() if seed is None else generator(seed))
        return result

    np.random.seed(1)
    first = draw_all()
    np.random.seed(2)
    swe.RandomBenchmarkGenerator(case["seed"] + 1)()
    second = draw_all()
    expected_end = 40.0 if case["end"] is None else case["end"]
    for a, b, seed in zip(first, second, case["explicit"]):
        require(a.seed == b.seed and parameters_of(a) == parameters_of(b), "the same seed yields another sequence",
                first=a.as_dict(), second=b.as_dict())
        require(a.end_time == expected_end, "end time of a drawn benchmark", actual=a.end_time)
        check_ranges(a, case["given"])
        if seed == 0 and a.seed != 0:
            finding = True
        elif seed is not None:
            require(a.seed == seed, "seed of a requested benchmark", actual=a.seed, expected=seed)
        again = swe.RandomOscillationNoTopographyBenchmark(int(a.seed), end_time=expected_end, **case["given"])
        require(parameters_of(again) == parameters_of(a), "the recorded seed yields another benchmark", seed=a.seed)
    drawn = [b for b, seed in zip(first, case["explicit"]) if seed is None]
    require(len({int(b.seed) for b in drawn}) == len(drawn), "a sequence repeats itself", seeds=[b.seed for b in drawn])
    if finding:
        raise KnownFinding("vanishing-seed", "a generator ignores the explicitly given seed zero")
    return len(drawn) > 1


@check.facet("independence", st.fixed_dictionaries({"base": st.integers(0, 10**6)}), quick=64, thorough=800, rule="every case")
def independence(case):
    """Samples of many seeds are spread over the ranges and uncorrelated."""
    samples = []
    generator = swe.RandomBenchmarkGenerator(case["base"])
    for k in range(600):
        benchmark = swe.RandomOscillationNoTopographyBenchmark(case["base"] + k) if k % 2 else generator()
        samples.append(parameters_of(benchmark))
    names = [n for n in RANGES if n != "height_average"]
    table = np.array([[s[n] for n in names] for s in samples])
    for name, column in zip(names, table.T):
        low, high = RANGES[name]
        if name in INTEGERS:
            require(set(column) == set(range(low, high + 1)), "wave numbers of the range are missing", name=name, values=set(column))
        else:
            width = high - low
            require(column.min() < low + 0.05 * width and column.max() > high - 0.05 * width, "parts of a range are not drawn", name=name)
            close(column.mean(), (low + high) / 2, 0.07 * width, "mean of a drawn parameter")
    correlation = np.corrcoef(table.T) - np.eye(len(names))
    require(np.abs(correlation).max() < 0.25, "parameters are correlated", correlation=float(np.abs(correlation).max()))
    return True
