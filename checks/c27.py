"""Network corrections are antisymmetric, scaled and survive storage."""
import builtins
import contextlib
import io
import os
import pickle
import re

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
import torch
from hypothesis import strategies as st
from sklearn.preprocessing import StandardScaler
from torch import nn

import core
import finite_volume
from checks import c22, c24, c31
from command.train_network import TrainNetwork
from finite_volume.shallow_water import solver as swe_solver
from pbt import bench, gen, netref
from pbt.runner import Check, close, construct, require

torch.set_num_threads(1)

check = Check(
    "C27",
    rule="A case is a network of random shape, weights and stored statistics with a base flux and states; or a training"
    " set with epochs, thinning, learning rate, seed and a sequence of trainings, stored, loaded and resumed."
    " Predictions are compared with a double precision evaluation of the stored weights between the stored statistics,"
    " fluxes with the base flux plus this evaluation for the four states around each face. Non-trivial: corrections and"
    " statistics differ from zero and one, trainings change the network.",
    assumptions=["networks compute in single precision", "without early stopping unless more than five epochs are trained"],
)
FILES = {"network_path": "model.pkl", "optimizer_path": "opt.pkl", "history_path": "history.json", "input_scaler_path": "input_scaler.pkl", "output_scaler_path": "output_scaler.pkl"}


def network_class(folder, sizes):
    class Module(nn.Module):
        def __init__(self):
            super().__init__()
            layers = []
            for a, b in zip(sizes, sizes[1:]):
                layers += [nn.Linear(a, b), nn.LeakyReLU()]
            self.layers = nn.Sequential(*layers[:-1])

        def forward(self, x):
            return self.layers(x)

    paths = {name: os.path.join(folder, path) for name, path in FILES.items()}
    return type("Network", (swe_solver.ReducedNetwork,), {"module_type": Module, "data_path": os.path.join(folder, "data.csv"), **paths})


def store_random(case, folder, radius):
    """Stores random weights and statistics; gives them for the evaluation."""
    generator = np.random.default_rng(case["seed"])
    sizes = [4 * radius, *case["hidden"], 2]
    layers, state = [], {}
    for k, (a, b) in enumerate(zip(sizes, sizes[1:])):
        weight = (generator.normal(size=(b, a)) / np.sqrt(a)).astype(np.float32)
        bias = generator.normal(size=b).astype(np.float32)
        layers.append((weight.astype(float), bias.astype(float)))
        state[f"layers.{2 * k}.weight"], state[f"layers.{2 * k}.bias"] = torch.tensor(weight), torch.tensor(bias)
    torch.save(state, os.path.join(folder, FILES["network_path"]))
    statistics = []
    for name, size in (("input_scaler_path", 4 * radius), ("output_scaler_path", 2)):
        mean = generator.normal(size=size).astype(np.float32).astype(float)
        scale = (2.0 ** generator.integers(-2, 3, size)).astype(float)
        scaler = StandardScaler().fit(np.stack([mean - scale, mean + scale]))
        statistics.append((scaler.mean_, scaler.scale_))
        with open(os.path.join(folder, FILES[name]), "wb") as file:
            pickle.dump(scaler, file)
    return sizes, (layers, *statistics)


def quiet(function, *args, **kwargs):
    with contextlib.redirect_stdout(io.StringIO()) as output, contextlib.redirect_stderr(output):
        result = function(*args, **kwargs)
    return result, output.getvalue()


def single(values):
    """Bound of the error of single precision computations."""
    return 2e-5 * (1 + np.max(np.abs(values)))


def magnitude(parameters, inputs):
    """Size of the terms a prediction adds up."""
    layers, scale_in, scale_out = parameters
    x = (np.abs(np.asarray(inputs)) + np.abs(scale_in[0])) / scale_in[1]
    for weight, bias in layers:
        x = x @ np.abs(weight).T + np.abs(bias)
    return float(np.max(x * scale_out[1] + np.abs(scale_out[0])))


@st.composite
def fluxes(draw):
    return {
        "seed": draw(st.integers(0, 2**32 - 1)),
        "hidden": draw(st.sampled_from([[5], [], [8, 3], [16, 16]])),
        "radius": draw(st.sampled_from([2, 2, 2, 1, 3])),
        "faces": draw(st.integers(1, 9)),
        "base": draw(st.sampled_from([None, "llf", "central", "es", "es1", "low-order"])),
        "g": draw(gen.gravity()),
        "extra": draw(st.sampled_from([0, 0, 1])),
    }


@check.facet("flux", fluxes(), quick=800, thorough=20000, rule="several faces and corrections larger than 0.01")
def flux(case):
    radius, faces = case["radius"], case["faces"]
    generator = np.random.default_rng(case["seed"] + 1)
    heights = generator.integers(16, 256, (2 * (radius + case["extra"]), faces)) / 64
    values = np.stack([heights, heights * generator.integers(-128, 128, heights.shape) / 64], axis=-1)
    states = list(values[case["extra"] : len(values) - case["extra"]] if case["extra"] else values)
    setting = {"problem": "shallow_water", "values": [[1.0, 0.0]] * max(faces, 4), "a": 0.0, "L": 1.0, "g": case["g"], "bc": ["periodic"]}
    benchmark = bench.make_benchmark(setting, 1.0)
    space = finite_volume.FiniteVolumeSpace(core.UniformMesh(core.Interval(0, 1), max(faces, 4)))
    with c22.scratch() as folder:
        sizes, parameters = store_random(case, folder, radius)
        network = network_class(folder, sizes)()
        base = swe_solver.SHALLOW_WATER_FLUX_GETTER[case["base"]] if case["base"] else None
        corrected = swe_solver.ReducedFluxGetter(2 * radius, network, **({"flux_getter": base} if base else {}))(benchmark, space)
        require(corrected.input_dimension == 2 * radius, "number of surrounding states", actual=corrected.input_dimension, expected=2 * radius)
        copies = [s.copy() for s in states]
        (left, right), output = quiet(corrected, *states)
        (left_again, right_again), _ = quiet(corrected, *states)
        direct = (base or swe_solver.SHALLOW_WATER_FLUX_GETTER["llf"])(benchmark, space)
        base_left, base_right = direct(*states[radius - 1 : radius + 1])
        # faces do not influence each other
        alone, _ = quiet(corrected, *[s[-1:] for s in states])
        back, _ = quiet(corrected, *[s[::-1] for s in states])
    require("could not be loaded" not in output, "stored network can not be loaded", output=output)
    require(all(np.array_equal(a, b) for a, b in zip(copies, states)), "the flux modifies its arguments")
    inputs = np.concatenate(states, axis=1)
    correction = netref.evaluate(*parameters, inputs)
    size = magnitude(parameters, inputs) + np.max(np.abs(base_right))
    tolerance = 2e-6 * size
    close(right - base_right, correction, tolerance, "correction of the right cell")
    close(left - base_left, -correction, tolerance, "correction of the left cell")
    close(left - base_left + right - base_right, np.zeros_like(correction), 1e-13 * size, "corrections of both cells differ")
    close([left_again, right_again], [left, right], 0, "second evaluation")
    close(alone[1][0], right[-1], tolerance, "face on its own")
    close(back[1][::-1], right, tolerance, "faces in reverse order")
    return faces > 1 and np.max(np.abs(correction)) > 0.01, [f"radius={radius}", case["base"] or "default"]


@st.composite
def step_cases(draw):
    case = draw(gen.swe_problem(low=4, high=10, large=16, boundaries=("periodic",), heights=gen.grid_float(0.5, 4), velocities=gen.signed(2)))
    case |= {"seed": draw(st.integers(0, 2**32 - 1)), "hidden": draw(st.sampled_from([[5], [8, 3]])), "base": draw(st.sampled_from(["llf", "low-order", "es", "es1", "central"]))}
    case["outer"] = draw(st.sampled_from(["coarse", "antidiffusion"]))
    return case


@check.facet("steps", step_cases(), quick=600, thorough=15000, rule="the correction changes the result and the bottom or the state is not uniform")
def steps(case):
    """One step with a corrected flux differs from one with the base flux by the differences of the corrections."""
    n, dx = len(case["values"]), bench.cell_size(case)
    dt = 1e-3 * dx / bench.case_speed(case)
    values = np.array(case["values"])
    with c22.scratch() as folder:
        sizes, parameters = store_random(case, folder, 2)
        base = swe_solver.SHALLOW_WATER_FLUX_GETTER[case["base"]]
        getter = swe_solver.ReducedFluxGetter(4, network_class(folder, sizes)(), flux_getter=base)
        results = []
        for flux_getter in (base, getter):
            benchmark = bench.make_benchmark(case, case["start"] + dt)
            arguments = {"mesh_size": n, "cfl_number": 2 * dt / dx + 1, "ode_solver_type": core.ForwardEuler, "flux_getter": flux_getter}
            if case["outer"] == "coarse":
                solver = swe_solver.CoarseSolver(benchmark, coarsening_degree=1, **arguments)
            else:
                solver = swe_solver.LinearAntidiffusiveSolver(benchmark, gamma=0.25, **arguments)
            quiet(bench.solve, solver)
            results.append(solver.solution.value)
    inputs = np.concatenate([np.roll(values, s, axis=0) for s in (2, 1, 0, -1)], axis=1)  # around the left face
    correction = netref.evaluate(*parameters, inputs)
    expected = correction - np.roll(correction, -1, axis=0)
    actual = (results[1] - results[0]) * dx / dt
    size = magnitude(parameters, inputs) * 2e-6 + 1e-12 * (np.max(np.abs(results)) * dx / dt)
    close(actual, expected, 2 * size, "change by the correction")
    return np.max(np.abs(expected)) > 100 * size, [case["outer"], case["base"]]


# training #####################################################################
KINDS = {"llf": ("reduced-llf", swe_solver.LaxFriedrichsNetwork, swe_solver.ReducedLaxFriedrichsSolver), "llf2": ("reduced-llf-2", swe_solver.LaxFriedrichs2Network, swe_solver.ReducedLaxFriedrichs2Solver)}


@st.composite
def trainings(draw):
    return {
        "kind": draw(st.sampled_from(["llf", "llf", "llf2"])),
        "seed": draw(st.integers(0, 2**32 - 1)),
        "rows": draw(st.sampled_from([60, 100, 160, 50, 12, 27])),
        "constant": draw(st.sampled_from([None, None, None, 0, 5])),
        "epochs": draw(st.sampled_from([2, 3, 1, 4, 5])),
        "skip": draw(st.sampled_from([None, 2, 2, 3, 1, 5])),
        "train seed": draw(st.integers(1, 10**6)),
        "lr": draw(st.sampled_from([None, 0.003, 0.05])),
        "format": "repr",
        "index": draw(st.sampled_from(["range", "random", "equal"])),
        "space": draw(st.booleans()),
        "answers": draw(st.sampled_from([None, None, ["y"], ["n"], ["maybe", "YES"], ["", "No"], ["x", "yes", "n"]])),
        "plot": draw(st.sampled_from([False, False, True])),
        "again": draw(st.integers(1, 4)),
    }


def training_rows(case):
    """States around the usual ones with fluxes depending on them."""
    generator = np.random.default_rng(case["seed"])
    n = case["rows"]
    means = np.array([2.0, 1.0] * 4) * generator.choice([0.5, 1.0, 2.0])
    X = means + generator.normal(size=(n, 8)) * generator.choice([0.1, 0.5], size=8)
    if case["constant"] is not None:
        X[:, case["constant"]] = 1.75
    weights = generator.normal(size=(8, 2))
    y = 0.3 * np.sin(X @ weights) + 0.1 * generator.normal(size=2) + 0.5 * X[:, :2]
    return np.concatenate([X, y], axis=1)


def folder_of(case):
    return os.path.join("data", KINDS[case["kind"]][0])


def write_data(case, rows):
    os.makedirs(folder_of(case), exist_ok=True)
    c31.write(case, os.path.join(folder_of(case), "data.csv"), rows)


def train_arguments(case, skip=None, epochs=None, resume=False):
    arguments = ["train-network", case["kind"], "-e", str(epochs or case["epochs"]), "--seed", str(case["train seed"])]
    skip = skip or case["skip"]
    arguments += ["--skip", str(skip)] if skip else []
    arguments += ["-p", "lr", repr(case["lr"])] if case["lr"] else []
    arguments += ["--resume"] if resume else []
    return arguments


def train(arguments, answers=None):
    """Executes a command line; gives the network, the output and the number of questions."""
    asked = []
    original, show = builtins.input, plt.show

    def reply(prompt=""):
        asked.append(prompt)
        require(answers is not None and len(asked) <= len(answers), "unexpected question", asked=asked)
        return answers[len(asked) - 1]

    builtins.input, plt.show = reply, lambda *a, **k: None
    try:
        output = io.StringIO()
        with contextlib.redirect_stdout(output), contextlib.redirect_stderr(output):
            parsed = vars(c24.parser().parse_arguments(arguments))
            construct(parsed["command"], {k: v for k, v in parsed.items() if k not in ("args", "profile", "command")}).execute()
    finally:
        builtins.input, plt.show = original, show
    return parsed["network"], output.getvalue(), len(asked)


def stored(case):
    folder = folder_of(case)
    return {name: open(os.path.join(folder, name), "rb").read() for name in sorted(os.listdir(folder)) if name != "data.csv"}


def probes(case):
    return training_rows(case | {"rows": 7, "seed": case["seed"] + 1})[:, :8].astype(np.float32)


def predictions(case, network=None):
    """Predictions of a network or of a new one with the stored parameters."""
    if network is None:
        network = KINDS[case["kind"]][1]()
        _, output = quiet(network.load_params)
        require("could not be loaded" not in output, "stored network can not be loaded", output=output)
    return np.array(network.predict(probes(case)), dtype=float)


def check_statistics(case, rows):
    """Stored statistics are those of the used rows; stored weights between them give the predictions."""
    parameters = netref.parameters.__wrapped__(folder_of(case))
    for (mean, scale), data, name in ((parameters[1], rows[:, :8], "input"), (parameters[2], rows[:, 8:], "output")):
        size = 1e-5 * (1 + np.abs(data).max())
        close(mean, data.mean(axis=0), size, f"stored mean of the {name}")
        deviation = np.sqrt(((data - data.mean(axis=0)) ** 2).mean(axis=0))
        close(scale, np.where(deviation < 1e-6, 1.0, deviation), size, f"stored deviation of the {name}")
    return netref.evaluate(*parameters, probes(case))


@check.facet("training", trainings(), quick=300, thorough=8000, rule="two epochs, more than one used row in two and saved parameters")
def training(case):
    plt.close("all")
    rows = training_rows(case)
    used = rows[:: case["skip"] or 1]
    if len(used) < 10:
        return False, ["too few rows"]
    with c31.scratch():
        write_data(case, rows)
        data = open(os.path.join(folder_of(case), "data.csv"), "rb").read()
        # saved without being asked
        network, output, _ = train(train_arguments(case))
        require(sorted(stored(case)) == sorted(FILES.values()), "stored files", actual=sorted(stored(case)))
        require(len(network.history) == case["epochs"], "number of epochs", actual=len(network.history), expected=case["epochs"])
        require(open(os.path.join(folder_of(case), "data.csv"), "rb").read() == data, "training changes the data")
        expected = predictions(case, network)
        reference = check_statistics(case, used)
        close(expected, reference, single(reference), "predictions differ from those of the stored parameters")
        close(predictions(case), expected, 0, "predictions after loading")
        first = stored(case)

        # questions whether to save
        if case["answers"] is not None or case["plot"]:
            arguments = train_arguments(case | {"train seed": case["train seed"] + 1})
            arguments += (["--confirm"] if case["answers"] is not None else []) + (["--plot-loss"] if case["plot"] else [])
            other, _, asked = train(arguments, case["answers"])
            saved = True
            if case["answers"] is not None:
                position = next(k for k, a in enumerate(case["answers"]) if a.lower() in ("y", "yes", "n", "no"))
                saved = case["answers"][position].lower() in ("y", "yes")
                require(asked == position + 1, "number of questions", actual=asked, expected=position + 1)
            if saved:
                close(predictions(case), predictions(case, other), 0, "confirmed parameters")
                require(not np.array_equal(predictions(case), expected), "another seed gives the same network")
            else:
                require(stored(case) == first, "parameters are saved despite the answer")
            if case["plot"]:
                lines = {line.get_label(): line for line in plt.gca().get_lines()}
                require(set(lines) == {"training loss", "validation loss"}, "plotted losses", actual=sorted(lines))
                for label, key in (("training loss", "train_loss"), ("validation loss", "valid_loss")):
                    close(lines[label].get_ydata(), np.log10(other.history[:, key]), 1e-9, f"plotted {label}")
                    close(lines[label].get_xdata(), np.arange(len(other.history)), 0, "plotted epochs")
            plt.close("all")

        # the same seed gives the same network, whatever happened before
        repeated, _, _ = train(train_arguments(case))
        close(predictions(case, repeated), expected, 0, "second training with the same seed")
        close(predictions(case), expected, 0, "predictions after storing again")
        # thinning is the same as training with a thinned file
        write_data(case | {"rows": len(used)}, used)
        thinned, _, _ = train(train_arguments(case, skip=1))
        close(predictions(case, thinned), expected, 0, "training with thinned data")
        # constructed directly
        settings = {"lr": case["lr"]} if case["lr"] else {}
        direct = KINDS[case["kind"]][1](warm_start=True, **settings)
        quiet(TrainNetwork(direct, epochs=case["epochs"], skip=1, seed=case["train seed"]).execute)
        close(predictions(case, direct), expected, 0, "direct training")
    return case["epochs"] > 1 and len(used) > 20, [case["kind"], f"skip={case['skip']}"] + (["asked"] if case["answers"] else []) + (["lr"] if case["lr"] else []) + (["plot"] if case["plot"] else [])


@check.facet("resumed training", trainings(), quick=200, thorough=5000, rule="several epochs before and afterwards")
def resumed(case):
    rows = training_rows(case | {"rows": max(case["rows"], 60)})
    used = rows[:: case["skip"] or 1]
    with c31.scratch():
        write_data(case, rows)
        network, _, _ = train(train_arguments(case))
        before, history = predictions(case, network), network.history[:, "train_loss"]
        # continue the network in memory
        quiet(TrainNetwork(network, epochs=case["again"], skip=case["skip"], seed=case["train seed"] + 5).execute)
        expected = predictions(case, network)
        losses = network.history[:, "train_loss"]
        train(train_arguments(case))
        continued, _, _ = train(train_arguments(case | {"train seed": case["train seed"] + 5}, epochs=case["again"], resume=True))
        require(len(continued.history) == case["epochs"] + case["again"], "number of epochs", actual=len(continued.history), expected=case["epochs"] + case["again"])
        close(continued.history[:, "train_loss"], losses, 1e-12, "losses of the resumed training")
        close(continued.history[: case["epochs"], "train_loss"], history, 1e-12, "losses before resuming")
        close(predictions(case, continued), expected, 0, "resumed training")
        close(predictions(case), expected, 0, "predictions after loading")
        loaded = KINDS[case["kind"]][1]()
        quiet(loaded.load_params, load_history=True)
        close(loaded.history[:, "train_loss"], losses, 1e-12, "loaded losses")
        reference = check_statistics(case, used)
        close(expected, reference, single(reference), "predictions differ from those of the stored parameters")
        require(not np.array_equal(before, expected), "resuming does not change the network")
    return case["epochs"] > 1 and case["again"] > 1, [case["kind"]]


@st.composite
def learning_cases(draw):
    case = draw(trainings())
    return case | {"rows": draw(st.integers(600, 900)), "epochs": draw(st.integers(60, 100)), "lr": 0.1, "skip": draw(st.sampled_from([None, 1, 2])), "constant": None}


@check.facet("learning", learning_cases(), quick=40, thorough=800, rule="the data are not constant")
def learning(case):
    rows = training_rows(case)
    X, y = rows[:, :8], rows[:, 8:]
    slopes = np.random.default_rng(case["seed"]).normal(size=(8, 2)) + 0.5
    y = (X - X.mean(axis=0)) / X.std(axis=0) @ slopes * 3.0 + 7.0
    rows = np.concatenate([X, y], axis=1)
    with c31.scratch():
        write_data(case, rows)
        train(train_arguments(case))
        network = KINDS[case["kind"]][1]()
        quiet(network.load_params)
        predicted = network.predict(X.astype(np.float32))
    error = np.mean((predicted - y) ** 2, axis=0) / np.var(y, axis=0)
    require(np.all(error < 0.7), "the network does not learn a linear relation", error=error.tolist())
    return True, [case["kind"]]


@st.composite
def printed_cases(draw):
    return {"kind": draw(st.sampled_from(["llf", "llf2"])), "seed": draw(st.integers(0, 2**32 - 1)), "shipped": draw(st.integers(0, 5)) == 0}


@check.facet("print-network", printed_cases(), quick=60, thorough=1000, rule="random parameters")
def printed(case):
    folder = folder_of(case)
    with contextlib.ExitStack() as stack:
        if not case["shipped"]:
            stack.enter_context(c31.scratch())
            os.makedirs(folder)
            sizes = [8, 32, 32, 2] if case["kind"] == "llf" else [8, 128, 128, 128, 2]
            store_random({"seed": case["seed"], "hidden": sizes[1:-1]}, folder, 2)
            state = torch.load(os.path.join(folder, "model.pkl"))
            torch.save({k.replace("layers", "linear_relu_stack"): v for k, v in state.items()}, os.path.join(folder, "model.pkl"))
        before = stored(case)
        parameters = netref.parameters.__wrapped__(folder)
        _, output, _ = train(["print-network", case["kind"]])
        require(stored(case) == before, "printing changes the stored parameters")
    texts = output.split("Parameter containing:")[1:]
    expected = [p for layer in parameters[0] for p in layer]
    require(len(texts) == len(expected), "number of printed parameters", actual=len(texts), expected=len(expected))
    for text, values in zip(texts, expected):
        body = text[text.index("tensor(") : text.index("requires_grad")]
        if "..." in body:
            continue
        numbers = [float(x) for x in re.findall(r"-?\d+\.\d*(?:e[+-]\d+)?", body)]
        require(len(numbers) == values.size, "number of printed values", actual=len(numbers), expected=values.size)
        close(numbers, values.ravel(), 1e-4 * (1 + np.abs(values).max()), "printed values")
    return not case["shipped"], [case["kind"], "shipped" if case["shipped"] else "random"]


@st.composite
def chains(draw):
    case = draw(c22.generate_cases(modes=1))
    case |= {"scheme": draw(st.sampled_from(["llf", "es1"])), "radius": 2, "node": 2, "degree": draw(st.integers(2, 4)), "cfl": 0.05, "number": 2}
    case["mesh"] = 6 * case["degree"]
    case["end"] = 12 * case["cfl"] * 100.0 / case["mesh"]
    case["modes"] = [True]
    case |= {"kind": draw(st.sampled_from(["llf", "llf2"])), "epochs": draw(st.integers(1, 5)), "train seed": draw(st.integers(1, 10**6)), "skip": None, "lr": None}
    case["state"] = draw(gen.swe_problem(low=4, high=8, large=8, boundaries=("periodic",), heights=gen.grid_float(1, 3), velocities=gen.signed(2), flat=True))
    return case


@check.facet("from data to solver", chains(), quick=60, thorough=1500, rule="the correction is not negligible")
@c22.refusable
def chain(case):
    """Generated data are learned and used by the solver."""
    setting = case["state"]
    n, dx = len(setting["values"]), bench.cell_size(setting)
    dt = 1e-3 * dx / bench.case_speed(setting)
    with c31.scratch():
        os.makedirs(folder_of(case))
        c22.generate(case, folder_of(case))
        rows = c31.read(os.path.join(folder_of(case), "data.csv"))[2]
        os.remove(os.path.join(folder_of(case), "benchmark.csv"))
        train(train_arguments(case))
        check_statistics(case | {"seed": 0, "constant": None}, rows)
        parameters = netref.parameters.__wrapped__(folder_of(case))
        results = []
        for solver_type in (swe_solver.LaxFriedrichsSolver, KINDS[case["kind"]][2]):
            benchmark = bench.make_benchmark(setting, setting["start"] + dt)
            solver = solver_type(benchmark, mesh_size=n, cfl_number=2 * dt / dx + 1, ode_solver_type=core.ForwardEuler)
            quiet(bench.solve, solver)
            results.append(solver.solution.value)
    values = np.array(setting["values"])
    inputs = np.concatenate([np.roll(values, s, axis=0) for s in (2, 1, 0, -1)], axis=1)
    correction = netref.evaluate(*parameters, inputs)
    expected = correction - np.roll(correction, -1, axis=0)
    size = magnitude(parameters, inputs) * 2e-6 + 1e-12 * (np.max(np.abs(results)) * dx / dt)
    close((results[1] - results[0]) * dx / dt, expected, 2 * size, "change by the correction")
    return np.max(np.abs(expected)) > 100 * size, [case["kind"]]
