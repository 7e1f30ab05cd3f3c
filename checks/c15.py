"""Ghost cells and the assignment of face values to cells."""
import numpy as np
from hypothesis import strategies as st

import core
import finite_volume.shallow_water as swe
from pbt import bench, fvref, gen
from pbt.fvref import ghost
from pbt.runner import Check, close, raises, require

check = Check(
    "C15",
    rule="A case is a vector of cell values, a stencil radius and two boundary conditions. Non-trivial: not all cell"
    " values are equal.",
    assumptions=["at least as many cells as the stencil radius"],
)


@st.composite
def cases(draw, low_radius=1):
    shallow = draw(st.booleans())
    radius = draw(st.integers(low_radius, 4))
    n = draw(st.one_of(st.integers(radius, radius + 3), st.integers(radius, 12)))
    if shallow:
        number = st.one_of(gen.signed(4), gen.rough(-4, 4))
        values = draw(st.lists(st.lists(number, min_size=2, max_size=2), min_size=n, max_size=n))
        boundary = draw(gen.swe_boundary(n))
    else:
        values = draw(gen.scalar_values(n))
        boundary = draw(gen.scalar_boundary())
    return {
        "problem": "shallow_water" if shallow else "burgers",
        "values": values,
        "radius": radius,
        "time": draw(gen.signed(4)),
        "start": 0.0,
        "one name": draw(st.booleans()),
        **boundary,
    }


def conditions(case):
    shallow = case["problem"] == "shallow_water"
    names = case["bc"]
    if len(names) == 2 and names[0] == names[1] and case["one name"]:
        names = names[:1]
    builder = swe.get_boundary_conditions if shallow else core.get_boundary_conditions
    return builder(
        *names, radius=case["radius"], inflow_left=bench.inflow_function(case, "left"),
        inflow_right=bench.inflow_function(case, "right"),
    )


@check.facet("values around faces", cases(), quick=8000, thorough=250000)
def node_neighbours(case):
    shallow = case["problem"] == "shallow_water"
    values = np.array(case["values"], dtype=float)
    original = values.copy()
    radius, n = case["radius"], len(values)
    condition = conditions(case)
    stencils = condition.get_node_neighbours(values, radius=radius, time=case["time"])
    extended = ghost(
        [v if shallow else float(v) for v in values.tolist()], radius, case["bc"], case["time"],
        bench.inflow_function(case, "left"), bench.inflow_function(case, "right"), shallow,
    )
    extended = np.array([np.asarray(v, dtype=float) for v in extended])
    require(len(stencils) == 2 * radius, "number of values around a face", actual=len(stencils))
    for j, stencil in enumerate(stencils):
        close(stencil, extended[j : j + n + 1], 0, f"value {j} of {2 * radius} around the faces", bc=case["bc"])
    require(np.array_equal(values, original), "cell values are modified")
    # reading twice with other data is independent of the first call
    other = values[::-1].copy() + 1.0
    again = condition.get_node_neighbours(other, radius=radius, time=case["time"] + 1)
    repeated = condition.get_node_neighbours(values, radius=radius, time=case["time"])
    for a, b in zip(stencils, repeated):
        close(b, a, 0, "ghost cells depend on former calls")
    require(len(again) == len(stencils), "number of values around a face")
    # nearby times and arrays changed in place
    time = case["time"]
    for other in (np.nextafter(time, 10.0), time + 2.0**-30, time * (1 + 2.0**-24)):
        nearby = condition.get_node_neighbours(values, radius=radius, time=float(other))
        for side, stencil, index in (("left", nearby[0], 0), ("right", nearby[-1], -1)):
            inflow = bench.inflow_function(case, side)
            if inflow is not None and case["bc"][0 if side == "left" else -1] == "inflow":
                close(stencil[index], inflow(float(other)), 0, f"inflow at a nearby time on the {side}", time=time)
    values[0] = values[0] + 1.0
    changed = condition.get_node_neighbours(values, radius=radius, time=time)
    expected = ghost(
        [v if shallow else float(v) for v in values.tolist()], radius, case["bc"], time,
        bench.inflow_function(case, "left"), bench.inflow_function(case, "right"), shallow,
    )
    expected = np.array([np.asarray(v, dtype=float) for v in expected])
    for j, stencil in enumerate(changed):
        close(stencil, expected[j : j + n + 1], 0, "ghost cells of values changed in place", bc=case["bc"])
    values = original
    require(condition.periodic == (case["bc"] == ["periodic"]), "periodic flag", bc=case["bc"])
    return bool(np.any(values != values[0])), [" ".join(case["bc"]), f"radius {radius}", "n=radius" if n == radius else ""]


@st.composite
def cell_cases(draw):
    case = draw(cases().filter(lambda c: c["radius"] == 1))
    n = len(case["values"])
    case["left"], case["right"] = case.get("left"), case.get("right")
    number = st.lists(gen.signed(4), min_size=n + 1, max_size=n + 1)
    case["from left"] = draw(number)
    case["from right"] = draw(st.one_of(st.none(), number))
    if case["bc"] == ["periodic"]:
        # both outer faces are the same
        case["from left"][-1] = case["from left"][0]
        if case["from right"]:
            case["from right"][-1] = case["from right"][0]
    for side in ("left", "right"):
        if case[side] is None:
            del case[side]
    return case


@check.facet("face values of cells", cell_cases(), quick=4000, thorough=100000, rule="the face values differ")
def cell_neighbours(case):
    condition = conditions({**case, "radius": 1})
    n = len(case["values"])
    to_left = np.array(case["from left"])
    to_right = None if case["from right"] is None else np.array(case["from right"])
    copies = to_left.copy(), None if to_right is None else to_right.copy()
    left, right = condition.get_cell_neighbours(to_left, to_right)
    to_right = to_left if to_right is None else to_right
    # cells -1, ..., n: left face values come from the right sides, and vice versa
    expected_left = [None] + [to_right[i] for i in range(n + 1)]
    expected_right = [to_left[i] for i in range(n + 1)] + [None]
    require(len(left) == n + 2 and len(right) == n + 2, "number of cells", left=len(left), right=len(right))
    close(left[1:], expected_left[1:], 0, "value of the left face")
    close(right[:-1], expected_right[:-1], 0, "value of the right face")
    if case["bc"] == ["periodic"]:
        # cell -1 is cell n - 1, whose left face is n - 1; cell n is cell 0, whose right face is 1
        close(left[0], to_right[n - 1], 0, "left face of the left ghost cell")
        close(right[-1], to_left[1], 0, "right face of the right ghost cell")
    else:
        require(np.isnan(left[0]) and np.isnan(right[-1]), "outer faces of ghost cells are unknown")
    require(np.array_equal(copies[0], np.array(case["from left"])), "face values are modified")
    return len(set(case["from left"])) > 1, [case["bc"][0]]


@st.composite
def rejected(draw):
    shallow = draw(st.booleans())
    kind = draw(st.sampled_from(["unknown left", "unknown right", "missing left", "missing right"]))
    good = st.sampled_from(["outflow", "periodic"] + (["wall"] if shallow else []))
    unknown = draw(st.sampled_from(["Outflow", "inflo", "", "reflecting", "none"] + ([] if shallow else ["wall"])))
    name = unknown if "unknown" in kind else "inflow"
    names = [name, draw(good)] if "left" in kind else [draw(good), name]
    return {"shallow": shallow, "names": names, "kind": kind, "radius": draw(st.integers(1, 3)), "other": draw(st.booleans())}


@check.facet("rejected conditions", rejected(), quick=800, thorough=8000, rule="every case")
def rejections(case):
    builder = swe.get_boundary_conditions if case["shallow"] else core.get_boundary_conditions
    inflow = (lambda t: np.array([1.0, t])) if case["shallow"] else (lambda t: t)
    arguments = {}
    if case["kind"] == "missing left" and case["other"]:
        arguments["inflow_right"] = inflow
    if case["kind"] == "missing right" and case["other"]:
        arguments["inflow_left"] = inflow
    if "unknown" in case["kind"]:
        arguments = {"inflow_left": inflow, "inflow_right": inflow}
    raises(
        ValueError, lambda: builder(*case["names"], radius=case["radius"], **arguments),
        f"{case['kind']} condition is accepted", names=case["names"],
    )
    return True, [case["kind"]]


################################################################################
# solvers
################################################################################
@st.composite
def solver_cases(draw):
    if draw(st.integers(0, 2)):
        case = draw(gen.swe_problem(boundaries=("outflow", "wall", "inflow", "periodic"), flat=True))
        case["scheme"] = draw(st.sampled_from(["llf", "central"]))
    else:
        case = draw(gen.scalar_problem())
        case["scheme"] = draw(st.sampled_from(["llf", "central"]))
    case["integrator"] = draw(st.sampled_from(bench.INTEGRATOR_NAMES))
    case["fraction"] = draw(st.sampled_from([1.0, 0.5, 0.1]))
    return case


@check.facet(
    "boundary data of steps", solver_cases(), quick=2400, thorough=60000,
    rule="one step with inflow at the stage times, walls, outflow or periodic wrap; cell values differ or inflow is present",
)
def steps(case):
    speed = bench.case_speed(case, 1.0)
    dt = min(0.25 * case["fraction"] * bench.cell_size(case) / max(speed, 1e-3), 1.0)
    try:
        before, after = bench.one_step(case, case["scheme"], dt, case["integrator"])
    except ValueError:
        return False, ["refused"]
    reference = fvref.reference(case, case["scheme"])
    magnitude = np.zeros_like(before)

    def rhs(time, values):
        nonlocal magnitude
        rate, size = reference(time, values)
        magnitude = np.maximum(magnitude, size)
        return rate

    expected = fvref.integrate(rhs, case["start"], before, dt, case["integrator"])
    tolerance = 1e-10 * (dt * magnitude.max(axis=0) + np.abs(before).max(axis=0)) * (1 + 1 / max(1e-6, np.min(before[:, 0])) if before.ndim > 1 else 1)
    for cell in (0, -1):
        close(after[cell], expected[cell], tolerance, f"cell {cell} next to the boundary", bc=case["bc"], scheme=case["scheme"])
    return bool(np.any(before != before[0])) or "inflow" in case["bc"], [" ".join(case["bc"])]


@check.facet("boundary data on larger meshes", gen.large(solver_cases()), quick=160, thorough=5000, rule="meshes of up to 300 cells")
def large_steps(case):
    return steps(case)
