"""Translation, reflection and unit changes."""
import numpy as np
from hypothesis import strategies as st

from pbt import bench, feref, fvref, gen, netref
from pbt.runner import Check, close, require

check = Check(
    "C08",
    rule="A case is a problem, a scheme, an integrator, a number of steps and a transformation; two runs of the"
    " public solver are compared. Non-trivial: the states are not uniform.",
    assumptions=["heights are moderate, since rounding errors are amplified for nearly dry states"],
)

FLUXES = ["central", "es", "es1", "llf", "low-order"]
BOTTOM = ["low-order", "central", "es", "es1", "mcl"] + ["mcl:" + f for f in FLUXES if f != "llf"]
FLAT = ["llf", "lw", "mcl:llf"]
NETWORK = ["reduced-llf", "reduced-llf-2", "mcl:reduced-llf"]


def heights():
    return st.one_of(gen.grid_float(0.25, 4), gen.rough(0.2, 5))


def velocities():
    return st.one_of(st.just(0.0), gen.signed(3), gen.rough(-3, 3))


@st.composite
def problems(draw, swe_boundaries, scalar_boundaries, scalar=("advection", "burgers"), extra=(), low=2):
    if draw(st.integers(0, 3)) or not scalar:
        scheme = draw(st.sampled_from(BOTTOM + BOTTOM + FLAT + list(extra)))
        flat = True if scheme in FLAT else None
        case = draw(
            gen.swe_problem(
                low=max(low, 4) if "reduced" in scheme else low, boundaries=swe_boundaries, flat=flat,
                heights=heights(), velocities=velocities(),
            )
        )
    else:
        case = draw(gen.scalar_problem(low=low, boundaries=scalar_boundaries))
        case["problem"] = draw(st.sampled_from(scalar))
        scheme = draw(st.sampled_from(list(bench.SCALAR_FV)))
    case["scheme"] = scheme
    case["integrator"] = draw(st.sampled_from(bench.INTEGRATOR_NAMES))
    case["steps"] = draw(st.integers(1, 3))
    case["cfl"] = draw(st.sampled_from([0.1, 0.25]))
    return case


def speed_of(case):
    return max(bench.case_speed(case, 1.0), 0.5 if case["problem"] != "shallow_water" else 0.0)


def refused(error):
    return "negative" in str(error) or "finite" in str(error)


def solve(case, dt):
    """Returns history or None, if the solution is refused."""
    solver = bench.run(case, case["scheme"], dt, case["steps"], case["integrator"])
    return solver.solution.time_history, solver.solution.value_history


def size_of(case, history, dt):
    """Magnitude of values and of changes of values during a step."""
    history = np.abs(history)
    ratio = dt / bench.cell_size(case)
    if case["problem"] == "shallow_water":
        h, q = history[..., 0].max(), history[..., 1].max()
        u = (history[..., 1] / history[..., 0]).max()
        b = np.abs(case["bottom"]).max()
        lam = u + np.sqrt(case["g"] * (h + b))
        return np.array([h + ratio * lam * (h + b), q + ratio * lam * lam * (h + b)])
    m = max([history.max(), 1e-4] + [abs(case[s][0]) + abs(case[s][1]) for s in ("left", "right") if s in case])
    return m + ratio * m * max(m, 1.0)


def conditioned(case, history):
    """Intermediate heights are not dominated by rounding."""
    if case["problem"] != "shallow_water":
        return True
    if (history[..., 0] < 1e-3).any():
        return False
    if "mcl" not in case["scheme"] and case["scheme"] != "low-order":
        return True
    reference = fvref.reference(case, case["scheme"])
    for k, values in enumerate(history):
        for d in reference.low_order(case["start"], values):
            total = d["l"][0] + d["r"][0]
            if min(d["bar"][0], d["star_l"][0] + d["star_r"][0], d["star_l"][0], d["star_r"][0]) < 1e-4 * total:
                return False
    return True


def compare(case, other, dt, other_dt, expected, message, single=1.0):
    """EXPECTED maps history of first run to history of second run."""
    try:
        _, first = solve(case, dt)
    except ValueError as error:
        if not refused(error):
            raise
        return False, ["refused"]
    if not np.isfinite(first).all() or np.abs(first).max() > 1e4 or not conditioned(case, first):
        return False, ["ill conditioned"]
    _, second = solve(other, other_dt)
    steps = min(len(first), len(second))
    require(abs(len(first) - len(second)) <= 1, "the numbers of steps differ")
    tolerance = 1e-9
    if "reduced" in case["scheme"]:
        tolerance = 2e-4
    image = expected(first)
    scale = np.abs(expected(np.broadcast_to(size_of(case, first, dt), first.shape).copy())).max(axis=tuple(range(image.ndim - 1))) \
        if case["problem"] == "shallow_water" else np.abs(expected(np.full(first.shape, size_of(case, first, dt)))).max()
    if "reduced" in case["scheme"]:
        scale = scale + 1.0
    # a last step of rounding size may be added
    for k in (range(steps - 1) if len(first) != len(second) else range(steps)):
        close(second[k], image[k], tolerance * scale, f"{message} ({case['scheme']})", step=k, bc=case["bc"])
    varying = bool(np.abs(np.diff(first[0], axis=0)).max() > 0) if len(first[0]) > 1 else False
    return varying, [case["scheme"].split(":")[0], case["integrator"], "/".join(sorted(set(case["bc"])))]


def step_of(case):
    return case["cfl"] * bench.cell_size(case) / speed_of(case)


@st.composite
def translations(draw):
    case = draw(problems(("periodic",), ("periodic",), extra=NETWORK + ["antidiffusion"]))
    n = len(case["values"])
    case["shift"] = draw(st.integers(1, n - 1)) if n > 1 else 0
    if case["problem"] == "shallow_water":
        # the bottom is level at both seams
        bottom = case["bottom"]
        bottom[case["shift"]] = bottom[case["shift"] - 1]
        if case["shift"] == n - 1:
            bottom[0] = bottom[-1]
    return case


@check.facet("translation", translations(), quick=2400, thorough=80000)
def translation(case):
    s = case["shift"]
    other = dict(case, values=case["values"][s:] + case["values"][:s])
    if "bottom" in case:
        other["bottom"] = case["bottom"][s:] + case["bottom"][:s]
    dt = step_of(case)
    return compare(case, other, dt, dt, lambda x: np.roll(x, -s, axis=1), "shifted data")


@st.composite
def moves(draw):
    case = draw(problems(("periodic", "outflow", "wall", "inflow"), ("periodic", "outflow", "inflow"), extra=NETWORK))
    case["dx"] = draw(gen.signed(30, 8))
    case["dt"] = draw(gen.signed(5, 8))
    return case


@check.facet("moved domain and time", moves(), quick=1200, thorough=40000,
             rule="the domain and the start time are moved, inflow data accordingly")
def moved(case):
    other = dict(case, a=case["a"] + case["dx"], start=case["start"] + case["dt"])
    dt = step_of(case)
    return compare(case, other, dt, dt, lambda x: x, "moved domain or time")


@st.composite
def reflections(draw):
    return draw(
        problems(("periodic", "outflow", "wall", "inflow"), ("periodic", "outflow", "inflow"), ("burgers",),
                 extra=["antidiffusion", "antidiffusion:es:0.05"])
    )


def mirrored(value):
    if isinstance(value, list):
        return [value[0], -value[1]]
    return -value


@check.facet("reflection", reflections(), quick=4000, thorough=120000)
def reflection(case):
    other = dict(case, values=[mirrored(v) for v in case["values"][::-1]], bc=case["bc"][::-1], a=-case["a"] - case["L"])
    if "bottom" in case:
        other["bottom"] = case["bottom"][::-1]
    for side, opposite in (("left", "right"), ("right", "left")):
        other.pop(side, None)
        if opposite in case:
            other[side] = [mirrored(v) for v in case[opposite]]
    sign = np.array([1.0, -1.0]) if case["problem"] == "shallow_water" else -1.0
    dt = step_of(case)
    return compare(case, other, dt, dt, lambda x: x[:, ::-1] * sign, "mirrored data")


@st.composite
def scalings(draw):
    case = draw(problems(("periodic", "outflow", "wall", "inflow"), ("periodic", "outflow", "inflow"), extra=NETWORK))
    case["factor"] = draw(st.one_of(st.sampled_from([0.5, 2.0, 4.0, 0.125, 10.0, 3.0]), gen.log_float(0.05, 20)))
    return case


def scaled_inflow(case, values, slopes):
    return {
        side: [values(case[side][0]), slopes(case[side][1])] for side in ("left", "right") if side in case
    }


def times(factor, value):
    return [f * v for f, v in zip(factor, value)] if isinstance(value, list) else factor * value


@check.facet("stretching space and time", scalings(), quick=2400, thorough=80000)
def stretching(case):
    f = case["factor"]
    pair = [f, f] if case["problem"] == "shallow_water" else f
    inverse = [1 / f, 1 / f] if case["problem"] == "shallow_water" else 1 / f
    other = dict(case, a=case["a"] * f, L=case["L"] * f, start=case["start"])
    other.update(scaled_inflow(case, lambda v: v, lambda v: times(inverse, v)))
    dt = step_of(case)
    return compare(case, other, dt, dt * f, lambda x: x, "stretched space and time")


@st.composite
def unit_cases(draw):
    case = draw(problems(("periodic", "outflow", "wall", "inflow"), (), scalar=()))
    case["factor"] = draw(st.one_of(st.sampled_from([0.5, 2.0, 4.0, 3.0]), gen.log_float(0.1, 10)))
    return case


@check.facet("gravity and velocities", unit_cases(), quick=2400, thorough=80000)
def gravity(case):
    f = case["factor"]
    other = dict(case, g=case["g"] * f * f, values=[times([1.0, f], v) for v in case["values"]])
    other.update(scaled_inflow(case, lambda v: times([1.0, f], v), lambda v: times([f, f * f], v)))
    dt = step_of(case)
    return compare(case, other, dt, dt / f, lambda x: x * np.array([1.0, f]), "rescaled gravity and velocities")


@check.facet("gravity and depths", unit_cases(), quick=2400, thorough=80000,
             rule="depths, bottom and discharges are scaled by a factor, gravity by its inverse")
def depths(case):
    f = case["factor"]
    other = dict(
        case, g=case["g"] / f, values=[times([f, f], v) for v in case["values"]],
        bottom=[f * b for b in case["bottom"]],
    )
    other.update(scaled_inflow(case, lambda v: times([f, f], v), lambda v: times([f, f], v)))
    dt = step_of(case)
    return compare(case, other, dt, dt, lambda x: x * f, "rescaled depths")


@st.composite
def burgers_cases(draw):
    case = draw(gen.scalar_problem(boundaries=("periodic", "outflow", "inflow")))
    case["scheme"] = draw(st.sampled_from(list(bench.SCALAR_FV)))
    case["integrator"] = draw(st.sampled_from(bench.INTEGRATOR_NAMES))
    case["steps"] = draw(st.integers(1, 3))
    case["cfl"] = draw(st.sampled_from([0.1, 0.25]))
    case["factor"] = draw(st.one_of(st.sampled_from([0.5, 2.0, 3.0]), gen.log_float(0.1, 10)))
    return case


@check.facet(
    "scalar values", burgers_cases(), quick=1200, thorough=40000,
    rule="advection is linear in the values for a positive or negative factor, Burgers with the time rescaled",
)
def scalar_values(case):
    f = case["factor"]
    dt = step_of(case)
    other = dict(case, values=[f * v for v in case["values"]])
    if case["problem"] == "advection":
        f = -f if int(1000 * f) % 2 else f
        other["values"] = [f * v for v in case["values"]]
        other.update(scaled_inflow(case, lambda v: f * v, lambda v: f * v))
        return compare(case, other, dt, dt, lambda x: x * f, "scaled values")
    other.update(scaled_inflow(case, lambda v: f * v, lambda v: f * f * v))
    return compare(case, other, dt, dt / f, lambda x: x * f, "scaled values and time")


@st.composite
def element_cases(draw):
    case = draw(feref.problem(degrees=(1, 1, 2, 3, 4), high=9))
    case["scheme"] = draw(st.sampled_from(feref.SCHEMES))
    case["integrator"] = draw(st.sampled_from(bench.INTEGRATOR_NAMES))
    case["exact"] = draw(st.booleans())
    case["adaptive"] = draw(st.booleans())
    case["cfl"] = draw(st.sampled_from([0.1, 0.25, 0.5]))
    case["steps"] = draw(st.integers(1, 3))
    case["shift"] = draw(st.integers(1, len(case["values"]) // case["degree"] - 1))
    return case


@check.facet("translation of finite elements", element_cases(), quick=1200, thorough=30000)
def element_translation(case):
    space = feref.space_of(case)
    s = case["shift"] * case["degree"]
    values = np.array(case["values"])
    speed = 1.0 if case["problem"] == "advection" else max(np.abs(values).max(), 0.1)
    if case["scheme"] == "cg":
        case = dict(case, cfl=case["cfl"] / speed / case["degree"] ** 2)
        step = space.size
    else:
        if case["problem"] == "burgers" and np.abs(values).max() < 1e-6:
            return False
        step = space.optimal_step(case["problem"], values)
    end = case["start"] + case["steps"] * case["cfl"] * step
    other = dict(case, values=case["values"][s:] + case["values"][:s])
    first, second = feref.build(case, end), feref.build(other, end)
    for solver in (first, second):
        try:
            feref.solve(solver)
        except ValueError as error:
            if refused(error):
                return False, ["refused"]
            raise
    one, two = first.solution.value_history, second.solution.value_history
    require(abs(len(one) - len(two)) <= 1, "the numbers of steps differ")
    steps = len(one) if len(one) == len(two) else min(len(one), len(two)) - 1
    rounding = 1e-9 + 1e-12 * (abs(case["a"]) + case["L"]) / space.size
    for k in range(steps):
        size = np.abs(one[: k + 1]).max() * case["degree"] ** 3
        if size > 1e6 * np.abs(values).max():
            break
        close(two[k], np.roll(one[k], -s), rounding * size, f"shifted nodal values ({case['scheme']})", step=k)
    return len(set(case["values"])) > 1, [case["scheme"], case["problem"], f"degree {case['degree']}"]


################################################################################
# larger meshes
################################################################################
@st.composite
def large_translations(draw):
    case = draw(gen.large(problems(("periodic",), ("periodic",), extra=NETWORK + ["antidiffusion"]), high=200))
    n = len(case["values"])
    case["shift"] = draw(st.integers(1, n - 1))
    if case["problem"] == "shallow_water":
        bottom = case["bottom"]
        bottom[case["shift"]] = bottom[case["shift"] - 1]
        if case["shift"] == n - 1:
            bottom[0] = bottom[-1]
    return case


@check.facet("translation on larger meshes", large_translations(), quick=160, thorough=5000, rule="meshes of up to 200 cells")
def large_translation(case):
    return translation(case)


@check.facet(
    "reflection on larger meshes", gen.large(reflections(), high=200), quick=160, thorough=5000,
    rule="meshes of up to 200 cells",
)
def large_reflection(case):
    return reflection(case)
