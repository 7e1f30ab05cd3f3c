"""Lake at rest."""
import numpy as np
from hypothesis import strategies as st

from pbt import bench, gen
from pbt.runner import Check, close, require

check = Check(
    "C07",
    rule="A case is a submerged bottom, a surface level, gravity, mesh, boundary conditions, a scheme and an"
    " integrator; the public solver runs some steps. Non-trivial: the bottom is uneven.",
    assumptions=["the bottom of periodic problems has equal values in the first and last cell"],
)

FLUXES = ["central", "es", "es1", "low-order"]
SCHEMES = (
    ["low-order", "central", "es", "es1", "mcl"]
    + ["mcl:" + f for f in FLUXES]
    + ["coarse:1:" + f for f in FLUXES]
)


@st.composite
def cases(draw):
    scheme = draw(st.sampled_from(SCHEMES))
    n = draw(gen.mesh_size(2, 12, 40))
    conditions = draw(st.lists(st.sampled_from(["outflow", "wall", "inflow"]), min_size=2, max_size=2))
    bc = ["periodic"] if draw(st.integers(0, 2)) == 0 else conditions
    factor = draw(st.sampled_from([1.0, 1.0, 0.01, 30.0]))
    bottom = [b * factor for b in draw(gen.bathymetry(n, bc == ["periodic"]))]
    depth = draw(st.one_of(gen.grid_float(1 / 64, 4), gen.log_float(1e-3, 100)))
    level = max(bottom) + depth
    case = {
        "problem": "shallow_water",
        "bottom": bottom,
        "level": level,
        "values": [[level - b, 0.0] for b in bottom],
        "g": draw(gen.gravity()),
        "start": draw(st.sampled_from([0.0, 2.5])),
        **draw(gen.domain()),
        "bc": bc,
        "scheme": scheme,
        "integrator": draw(st.sampled_from(bench.INTEGRATOR_NAMES)),
        "steps": draw(st.sampled_from([1, 2, 5, 15])),
        "cfl": draw(st.sampled_from([0.05, 0.2, 0.4])),
    }
    if max(v[0] for v in case["values"]) > 8 * min(v[0] for v in case["values"]):
        # rounding errors are amplified by the ratio of depths in every stage
        case["integrator"], case["steps"] = "euler", 1
    for side, cell in (("left", 0), ("right", -1)):
        if bc != ["periodic"] and bc[cell] == "inflow":
            case[side] = [case["values"][cell], [0.0, 0.0]]
    return case


@check.facet("lake at rest", cases(), quick=6000, thorough=200000)
def lake(case):
    values = np.array(case["values"])
    speed = bench.max_speed(values, case["g"])
    dt = case["cfl"] * bench.cell_size(case) / speed
    solver = bench.run(case, case["scheme"], dt, case["steps"], case["integrator"])
    history = solver.solution.value_history
    depth = values[:, 0].max() + np.abs(case["bottom"]).max() + abs(case["level"])
    require(len(history) >= 2, "the run has at least one step")
    relative = 1e-12 * len(history)
    close(
        history[:, :, 0], np.broadcast_to(values[:, 0], history.shape[:2]), relative * depth,
        f"{case['scheme']} disturbs the level of a lake at rest", bc=case["bc"],
    )
    close(
        history[:, :, 1], np.zeros(history.shape[:2]), relative * depth * speed,
        f"{case['scheme']} moves a lake at rest", bc=case["bc"],
    )
    return not bench.is_flat(case), [case["scheme"], "/".join(sorted(set(case["bc"])))]


@st.composite
def large_cases(draw):
    case = draw(cases())
    level = case["level"]
    n, seed = draw(st.integers(41, 300)), draw(st.integers(0, 2**20))
    rng = np.random.default_rng(seed)
    # steps and slopes between the given levels of the bottom
    levels = np.array(case["bottom"])
    nodes = np.interp(np.arange(n) * len(levels) / n, np.arange(len(levels)), levels)
    picked = levels[rng.integers(len(levels), size=n)]
    bottom = np.where(rng.uniform(size=n) < [0.0, 0.1, 1.0][seed % 3], picked, nodes)
    if case["bc"] == ["periodic"]:
        bottom[-1] = bottom[0]
    case["bottom"] = bottom.tolist()
    case["values"] = [[level - b, 0.0] for b in case["bottom"]]
    for side, cell in (("left", 0), ("right", -1)):
        if side in case:
            case[side] = [case["values"][cell], [0.0, 0.0]]
    return case


@check.facet("larger meshes", large_cases(), quick=200, thorough=8000, rule="meshes of up to 300 cells; the bottom is uneven")
def large_lake(case):
    return lake(case)
