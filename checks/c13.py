"""Time stepping and step checks."""
import contextlib
import io
import math

import numpy as np
from hypothesis import strategies as st

import core
import finite_volume
import finite_volume.scalar as scalar
import finite_volume.shallow_water as swe
from pbt import bench, gen
from pbt.runner import Check, close, require

check = Check(
    "C13",
    rule="A case is an interval, a CFL number and a step function (or a problem). Non-trivial: at least two steps.",
    assumptions=["intervals are longer than 1e-3 and start within [-100, 100]", "step counts up to 400"],
)


@st.composite
def intervals(draw):
    start = draw(st.one_of(st.just(0.0), gen.signed(5), gen.rough(-100, 100)))
    duration = draw(st.one_of(st.just(1.0), gen.grid_float(1 / 64, 8), gen.log_float(1e-3, 500)))
    return {"start": start, "end": start + duration}


def cfl_numbers():
    return st.one_of(st.sampled_from([1.0, 0.5, 0.1, 0.025, 0.3]), gen.log_float(1e-3, 10))


class Optimum:
    """Step function returning the given values one after the other."""

    def __init__(self, values):
        self.values, self.calls = values, 0

    def __call__(self):
        self.calls += 1
        return self.values[min(self.calls, len(self.values)) - 1]


def collect(stepping, limit):
    steps = []
    for step in stepping:
        steps.append(step)
        require(len(steps) <= limit, "too many steps", limit=limit)
    return steps


def covers(steps, start, end, message):
    size = abs(start) + abs(end)
    require(all(s > 0 for s in steps), message + ": a step is not positive")
    close(sum(steps), end - start, 2e-12 + 1e-15 * len(steps) * size, message + ": steps do not sum to the interval")


@st.composite
def fixed_cases(draw):
    case = draw(intervals())
    case["cfl"] = draw(cfl_numbers())
    number = draw(st.one_of(st.integers(1, 12), st.integers(1, 200)))
    factor = draw(st.one_of(st.just(1.0), st.just(1.0), gen.grid_float(0.5, 4, 16), gen.rough(0.5, 1.5)))
    case["optimum"] = (case["end"] - case["start"]) / number * factor / case["cfl"]
    case["iterations"] = draw(st.integers(1, 3))
    case["ask length"] = draw(st.booleans())
    return case


@check.facet("fixed steps", fixed_cases(), quick=6000, thorough=200000)
def fixed(case):
    optimum = Optimum([case["optimum"], case["optimum"] / 3, case["optimum"] / 7])
    start, end = case["start"], case["end"]
    stepping = core.TimeStepping(end, case["cfl"], optimum, start_time=start)
    step = case["optimum"] * case["cfl"]
    number = (end - start) / step
    for _ in range(case["iterations"]):
        length = len(stepping) if case["ask length"] else None
        steps = collect(stepping, number + 3)
        covers(steps, start, end, "fixed steps")
        require(all(s <= step * (1 + 1e-14) for s in steps), "step exceeds CFL number times optimum", step=max(steps), bound=step)
        close(steps[:-1], [step] * (len(steps) - 1), 1e-14 * step, "a step before the last one differs")
        close(stepping.time, end, 1e-14 * (abs(start) + abs(end)), "final time")
        require(stepping.time_steps_number == len(steps), "number of steps", reported=stepping.time_steps_number, actual=len(steps))
        if length is not None:
            require(abs(length - len(steps)) <= 1, "announced number of steps", announced=length, actual=len(steps))
            margin = 1e-9 + 1e-13 * (abs(start) + abs(end))
            if margin < math.fmod(end - start, step) < step - margin:
                require(length == len(steps), "announced number of full steps and a rest", announced=length, actual=len(steps))
        require(abs(len(steps) - number) < 1 + 1e-6, "number of steps differs from the interval over the step", actual=len(steps), expected=number)
        require(optimum.calls == 1, "optimum is not evaluated once", calls=optimum.calls)
    return len(steps) > 1, ["one step" if len(steps) == 1 else "many"]


@st.composite
def adaptive_cases(draw):
    case = draw(intervals())
    case["cfl"] = draw(cfl_numbers())
    number = draw(st.integers(1, 60))
    scale = (case["end"] - case["start"]) / number / case["cfl"]
    factors = draw(st.lists(st.one_of(st.just(1.0), gen.grid_float(0.25, 4, 16), gen.rough(0.3, 3)), min_size=1, max_size=12))
    case["optima"] = [scale * f for f in factors]
    case["iterations"] = draw(st.integers(1, 2))
    case["ask length"] = draw(st.booleans())
    return case


@check.facet("adaptive steps", adaptive_cases(), quick=5000, thorough=150000)
def adaptive(case):
    start, end, optima = case["start"], case["end"], case["optima"]
    optimum = Optimum(optima)
    stepping = core.TimeStepping(end, case["cfl"], optimum, adaptive=True, start_time=start)
    require(optimum.calls == 0, "adaptive stepping evaluates the optimum in advance")
    for _ in range(case["iterations"]):
        if case["ask length"]:
            len(stepping)
        optimum.calls = 0
        steps = []
        bounds = []
        for step in stepping:
            require(optimum.calls == len(steps) + 1, "optimum is not evaluated once per step", calls=optimum.calls)
            bounds.append(case["cfl"] * optima[min(optimum.calls, len(optima)) - 1])
            steps.append(step)
            require(len(steps) <= 60 / 0.25 + 3, "too many steps")
        covers(steps, start, end, "adaptive steps")
        require(
            all(s <= b * (1 + 1e-14) for s, b in zip(steps, bounds)), "step exceeds CFL number times current optimum"
        )
        close(steps[:-1], bounds[:-1], 1e-14 * max(bounds), "a step before the last one differs from the optimum")
        close(stepping.time, end, 1e-14 * (abs(start) + abs(end)), "final time")
        require(stepping.time_steps_number == len(steps), "number of steps")
    return len(steps) > 1


################################################################################
# resolution limit and runs
################################################################################
class Solver(core.Solver):
    def reinitialize(self, benchmark):
        raise NotImplementedError


INTEGRATORS = list(bench.INTEGRATORS) + ["rk8"]


@st.composite
def run_cases(draw):
    case = draw(intervals())
    case["end"] = case["start"] + draw(st.sampled_from([1.0, 0.5, 2.0]))
    number = draw(st.integers(1, 12))
    case["cfl"] = draw(st.sampled_from([1.0, 0.5, 0.25]))
    case["adaptive"] = draw(st.booleans())
    scale = (case["end"] - case["start"]) / number / case["cfl"]
    factors = draw(st.lists(gen.grid_float(0.5, 2, 16), min_size=1, max_size=6))
    case["optima"] = [scale * f for f in factors]
    case["stop"] = draw(st.one_of(st.none(), st.none(), st.integers(0, 12)))
    case["tiny"] = draw(st.sampled_from([1e-13, 1e-15, 0.0]))
    case["values"] = draw(st.lists(gen.signed(2), min_size=1, max_size=4))
    case["integrator"] = draw(st.sampled_from(INTEGRATORS))
    case["checker"] = draw(st.one_of(st.none(), gen.grid_float(0.25, 4, 16)))
    case["history"] = draw(st.booleans())
    return case


@check.facet("solver runs", run_cases(), quick=4000, thorough=120000)
def runs(case):
    start, end = case["start"], case["end"]
    solution = core.DiscreteSolution(np.array(case["values"]), initial_time=start)
    if case["history"]:
        solution = core.DiscreteSolutionWithHistory(solution)
    asked, accepted, stages = [], [(start, np.array(case["values"]))], []

    def optimum(time, value):
        asked.append((time, value.copy()))
        if case["stop"] is not None and len(asked) > case["stop"]:
            return case["tiny"]
        return case["optima"][(len(asked) - 1) % len(case["optima"])]

    def rhs(time, value):
        stages.append((time, value.copy()))
        return np.sin(time) - 0.5 * value

    limit = None
    checker = None
    if case["checker"] is not None:
        limit = case["checker"] * case["optima"][0] * case["cfl"]
        checker = core.CFLChecker(lambda time, value: limit * (1.0 + 0.5 * float(np.sin(7 * time + value.sum()))))
    stepping = core.TimeStepping(
        end, case["cfl"], core.DiscreteSolutionDependentTimeStep(optimum, solution), adaptive=case["adaptive"],
        start_time=start,
    )
    method = {**bench.INTEGRATORS, "rk8": core.RungeKutta8}[case["integrator"]]
    solver = Solver(solution, rhs, method, stepping, cfl_checker=checker)
    output = io.StringIO()
    with contextlib.redirect_stdout(output), contextlib.redirect_stderr(output):
        solver.solve(disable=True)
    messages = output.getvalue()

    # model
    model = method(lambda t, x: np.sin(t) - 0.5 * x, np.array(case["values"]), initial_time=start)
    violations, steps, interrupted = 0, 0, False
    calls = 0

    def next_optimum():
        nonlocal calls
        calls += 1
        if case["stop"] is not None and calls > case["stop"]:
            return case["tiny"]
        return case["optima"][(calls - 1) % len(case["optima"])]

    constant = None if case["adaptive"] else next_optimum()
    time = start
    while True:
        step = min((next_optimum() if case["adaptive"] else constant) * case["cfl"], end - time)
        if step < 1e-12:
            interrupted = True
            break
        model.execute(step)
        if checker is not None and any(
            step > limit * (1.0 + 0.5 * float(np.sin(7 * t + x.sum())))
            for t, x in zip(model.time_nodes, model.stage_values)
        ):
            violations += 1
        time += step
        steps += 1
        accepted.append((time, model.solution.copy()))
        if end - time < 1e-12:
            break

    close(solver.solution.value, accepted[-1][1], 1e-10, "solution after the run", steps=steps)
    close(solver.solution.time, accepted[-1][0], 1e-10, "time after the run", steps=steps)
    require(("time step is too small" in messages) == interrupted, "warning of a too small step", output=messages, interrupted=interrupted)
    require(messages.count("CFL condition is violated") == violations, "warnings of violated steps", output=messages, expected=violations)
    if not interrupted:
        close(solver.solution.time, end, 1e-11 * (1 + abs(end)), "final time")
    if case["history"]:
        close(solution.time_history, [t for t, _ in accepted], 1e-10, "recorded times")
        close(solution.value_history, [v for _, v in accepted], 1e-10, "recorded values")
    if case["adaptive"]:
        expected = accepted if interrupted else accepted[:-1]
        require(len(asked) == len(expected), "optimum is not asked once before each step", asked=len(asked), steps=steps)
        for (t, v), (time, value) in zip(asked, expected):
            close(t, time, 1e-10, "time passed to the step function")
            close(v, value, 1e-10, "solution passed to the step function")
    else:
        require(len(asked) == 1, "optimum is not asked once", asked=len(asked))
    tags = ["adaptive" if case["adaptive"] else "fixed"]
    if interrupted:
        tags.append("interrupted")
    if violations:
        tags.append("violated steps")
    return steps > 1, tags


@st.composite
def checker_cases(draw):
    n = draw(st.integers(1, 4))
    return {
        "step": draw(gen.grid_float(1 / 64, 2)),
        "nodes": [draw(gen.signed(2)) for _ in range(n)],
        "optima": [draw(gen.grid_float(1 / 64, 2)) for _ in range(n)],
        "array": draw(st.booleans()),
    }


@check.facet("step check", checker_cases(), quick=3000, thorough=60000, rule="at least two stages")
def step_check(case):
    asked = []

    def optimum(time, value):
        index = int(value[0]) if case["array"] else int(value)
        asked.append((time, index))
        return case["optima"][index]

    stages = [np.array([float(i), -1.0]) if case["array"] else float(i) for i in range(len(case["nodes"]))]
    violated = any(case["step"] > o for o in case["optima"])
    try:
        core.CFLChecker(optimum)(case["step"], case["nodes"], *stages)
        raised = False
    except core.CFLConditionViolatedError:
        raised = True
    require(raised == violated, "step check", raised=raised, violated=violated)
    for time, index in asked:
        require(time == case["nodes"][index], "optimum of a stage is evaluated at another time")
    return len(case["nodes"]) > 1, ["violated" if violated else "admissible"]


################################################################################
# finite volume solvers
################################################################################
@st.composite
def solver_cases(draw):
    if draw(st.booleans()):
        case = draw(gen.swe_problem(heights=gen.grid_float(1, 3), velocities=gen.signed(1)))
        case["scheme"] = draw(st.sampled_from(["low-order", "mcl", "es1", "llf", "lw", "coarse:1"]))
        if case["scheme"] in ("llf", "lw", "coarse:1"):
            case["bottom"] = [0.0] * len(case["values"])
    else:
        case = draw(gen.scalar_problem())
        case["scheme"] = draw(st.sampled_from(list(bench.SCALAR_FV)))
    case["steps"] = draw(st.integers(1, 8))
    case["part"] = draw(st.one_of(st.just(1.0), gen.grid_float(0.25, 1, 16)))
    case["integrator"] = draw(st.sampled_from(bench.INTEGRATOR_NAMES))
    return case


@check.facet("finite volume runs", solver_cases(), quick=2400, thorough=60000)
def solver_runs(case):
    dt = 0.1 * bench.cell_size(case) / max(bench.case_speed(case, 5.0), 1e-3)
    end = case["start"] + (case["steps"] - 1 + case["part"]) * dt
    cfl = dt / bench.cell_size(case)
    solver = bench.build(case, case["scheme"], end, case["integrator"], cfl=cfl, history=True)
    try:
        bench.solve(solver)
    except ValueError as error:
        require("negative" in str(error) or "finite" in str(error), "unexpected refusal", error=str(error))
        return False, ["refused"]
    times = solver.solution.time_history
    close(times[0], case["start"], 0, "first recorded time")
    close(solver.solution.time, end, 1e-11 * (1 + abs(end)), "final time")
    close(times[-1], end, 1e-11 * (1 + abs(end)), "last recorded time")
    steps = np.diff(times)
    rounding = 1e-12 * (1 + abs(case["start"]) + abs(end))
    close(steps[:-1], [dt] * (len(steps) - 1), rounding, "step size is not CFL number times cell size")
    require(0 < steps[-1] <= dt + rounding, "last step", step=steps[-1], bound=dt)
    close(solver.solution.time_step_history, steps, 1e-15 * (1 + abs(end)), "recorded steps")
    return len(steps) > 1, [case["scheme"]]


@st.composite
def optimum_cases(draw):
    if draw(st.booleans()):
        case = draw(gen.swe_problem(boundaries=("periodic", "outflow", "wall")))
        case["two-sided"] = draw(st.booleans())
    else:
        case = draw(gen.scalar_problem(boundaries=("periodic", "outflow")))
        case["values"] = [v if v else 1.0 for v in case["values"]]
    return case


@check.facet("optimal step of finite volumes", optimum_cases(), quick=1500, thorough=40000, rule="the state is not uniform")
def optimum(case):
    shallow = case["problem"] == "shallow_water"
    values = np.array(case["values"])
    if shallow:
        speeds = swe.WaveSpeed(case["g"]) if case["two-sided"] else None
        solver = swe.RiemannSolver(case["g"], speeds)
        conditions = swe.get_boundary_conditions(*case["bc"])
    else:
        solver = scalar.get_riemann_solver(case["problem"])
        conditions = core.get_boundary_conditions(*case["bc"])
    dx = bench.cell_size(case)
    step = finite_volume.OptimalTimeStep(solver, conditions, dx)(case["start"], values)
    speed = bench.max_speed(values, case.get("g"), case["problem"])
    close(step, dx / speed, 1e-12 * dx / speed, "optimal step")
    return bool(np.any(values != values[0]))


@st.composite
def long_cases(draw):
    case = draw(gen.large(solver_cases(), high=150))
    case["steps"] = draw(st.integers(20, 250))
    if case["problem"] == "shallow_water":
        # calm water, so that runs are not refused
        case["values"] = [[h, 0.25 * q] for h, q in case["values"]]
    return case


@check.facet("longer runs", long_cases(), quick=80, thorough=2500, rule="meshes of up to 150 cells and up to 250 steps")
def long_runs(case):
    return solver_runs(case)
