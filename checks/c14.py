"""Discrete solutions with and without history."""
import numpy as np
from hypothesis import strategies as st

import core
import finite_volume
from pbt import gen
from pbt.runner import Check, close, raises, require

check = Check(
    "C14",
    rule="A case is a kind of solution, an initial state and a sequence of updates, resets, rejected values,"
    " modifications of arrays passed in or read out, and reads. Non-trivial: at least two accepted changes.",
    assumptions=["the time of a solution is the exact floating point sum of the last set time and the steps since"],
)

KINDS = ["plain", "history", "coarse", "coarse history", "history of coarse"]


def arrays(n, width):
    number = st.one_of(gen.signed(4), gen.rough(-4, 4))
    if width is None:
        return st.lists(number, min_size=n, max_size=n)
    return st.lists(st.lists(number, min_size=width, max_size=width), min_size=n, max_size=n)


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(KINDS))
    degree = draw(st.one_of(st.integers(1, 4), st.integers(1, 9))) if "coarse" in kind else 1
    n = degree * draw(st.integers(2, 4))
    width = draw(st.one_of(st.none(), st.integers(1, 3)))
    value = arrays(n, width)
    time = st.one_of(gen.grid_float(0, 4, 8), gen.rough(-4, 4))
    step = st.one_of(gen.grid_float(1 / 8, 2, 8), gen.rough(1e-3, 2))
    update = st.tuples(st.just("update"), step, value)
    operations = st.one_of(
        update,
        update,
        update,
        st.tuples(st.just("set"), st.one_of(st.none(), time), value),
        st.tuples(st.just("set recorded"), st.integers(0, 9), value),
        st.tuples(st.just("bad update"), step, value, st.integers(0, n - 1), st.sampled_from(["nan", "inf", "-inf"])),
        st.tuples(st.just("bad set"), time, value, st.integers(0, n - 1), st.sampled_from(["nan", "inf"])),
        st.tuples(st.just("modify passed"), st.integers(0, n - 1), gen.signed(9)),
        st.tuples(st.just("modify read"), st.sampled_from(["value", "value_history", "time_history", "time_step_history"]), gen.signed(9)),
    )
    return {
        "kind": kind,
        "degree": degree,
        "value": draw(value),
        "start": draw(st.one_of(st.none(), time)),
        "a": draw(gen.signed(3)),
        "L": draw(st.sampled_from([1.0, 2.0, 0.5, 100.0])),
        "operations": draw(st.one_of(st.lists(operations, min_size=1, max_size=12), st.lists(operations, min_size=12, max_size=40))),
    }


def build(case, value):
    space = finite_volume.FiniteVolumeSpace(
        core.UniformMesh(core.Interval(case["a"], case["a"] + case["L"]), len(value))
    )
    arguments = {} if case["start"] is None else {"initial_time": case["start"]}
    fine = core.DiscreteSolution(value, space=space, **arguments)
    kind, degree = case["kind"], case["degree"]
    if kind == "plain":
        return fine, fine
    if kind == "history":
        return core.DiscreteSolutionWithHistory(fine), fine
    if kind == "coarse":
        return core.CoarseSolution(fine, degree), fine
    if kind == "coarse history":
        return core.CoarseSolutionWithHistory(fine, degree), fine
    return core.CoarseSolution(core.DiscreteSolutionWithHistory(fine), degree), fine


def averages(value, degree):
    value = np.asarray(value, dtype=float)
    return value.reshape((len(value) // degree, degree) + value.shape[1:]).mean(axis=1)


@check.facet("operation sequences", cases(), quick=8000, thorough=250000)
def sequences(case):
    passed = np.array(case["value"], dtype=float)
    solution, fine = build(case, passed)
    kind, degree = case["kind"], case["degree"]
    recorded = kind in ("history", "coarse history")
    time = case["start"] or 0.0
    value = passed.copy()
    history = [(time, value.copy())]
    changes = 0
    all_passed = [passed]
    size = 1e-14 * 10

    def compare():
        close(solution.time, time, 1e-13 * (1 + abs(time)), "time of the solution", kind=kind)
        expected = averages(value, degree)
        close(solution.value, expected, size if degree > 1 else 0, "value of the solution", kind=kind)
        close(fine.value, value, 0, "value of the fine solution", kind=kind)
        dimension = solution.dimension
        require(
            dimension == (expected.shape if expected.ndim > 1 else len(expected)), "dimension", actual=dimension
        )
        require(len(solution.space.mesh) == len(expected), "space does not fit to the values")
        width = case["L"] / len(expected)
        close(
            solution.grid, [case["a"] + (i + 0.5) * width for i in range(len(expected))],
            1e-13 * (abs(case["a"]) + case["L"]), "grid of the solution",
        )
        if recorded:
            close(solution.time_history, [t for t, _ in history], 1e-13 * 40, "recorded times")
            close(
                solution.value_history, [averages(v, degree) for _, v in history], size if degree > 1 else 0,
                "recorded values",
            )
            close(solution.time_step_history, np.diff([t for t, _ in history]), 1e-13 * 40, "recorded steps")

    compare()
    for operation in case["operations"]:
        name = operation[0]
        if name == "update":
            passed = np.array(operation[2], dtype=float)
            all_passed.append(passed)
            solution.update(operation[1], passed)
            require(np.array_equal(passed, np.array(operation[2], dtype=float)), "update modifies its argument")
            time, value = time + operation[1], passed.copy()
            history.append((time, value.copy()))
            changes += 1
        elif name in ("set", "set recorded"):
            if name == "set recorded":
                operation = ["set", history[operation[1] % len(history)][0], operation[2]]
            passed = np.array(operation[2], dtype=float)
            all_passed.append(passed)
            if operation[1] is None:
                solution.set_value(passed)
            else:
                solution.set_value(passed, time=operation[1])
            time, value = operation[1] or 0.0, passed.copy()
            history = [(t, v) for t, v in history if t < time] + [(time, value.copy())]
            changes += 1
        elif name in ("bad update", "bad set"):
            bad = np.array(operation[2], dtype=float)
            bad[operation[3]] = float(operation[4])
            if name == "bad update":
                raises(ValueError, lambda: solution.update(operation[1], bad), "update accepts a non-finite value")
            else:
                raises(ValueError, lambda: solution.set_value(bad, time=operation[1]), "reset accepts a non-finite value")
        elif name == "modify passed":
            for array in all_passed:
                array[operation[1]] += operation[2]
        elif hasattr(solution, operation[1]) and (recorded or operation[1] == "value"):
            array = getattr(solution, operation[1])
            if array.size:
                array[0] = operation[2]
        compare()
    return changes >= 2, [kind]


@st.composite
def bad_degrees(draw):
    degree = draw(st.integers(2, 6))
    n = draw(st.integers(2, 12).filter(lambda n: n % degree))
    return {"n": n, "degree": degree, "values": draw(arrays(n, draw(st.one_of(st.none(), st.just(2)))))}


@check.facet("inadmissible coarsening", bad_degrees(), quick=400, thorough=4000, rule="every case")
def inadmissible(case):
    space = finite_volume.FiniteVolumeSpace(core.UniformMesh(core.Interval(0, 1), case["n"]))
    fine = core.DiscreteSolution(np.array(case["values"]), space=space)
    raises((ValueError, AssertionError), lambda: core.CoarseSolution(fine, case["degree"]).value, "coarsening accepts an inadmissible degree")
    raises((ValueError, AssertionError), lambda: core.CoarseSolution(fine, case["degree"]).space, "coarsening accepts an inadmissible mesh")
    return True
