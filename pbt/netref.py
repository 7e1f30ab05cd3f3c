"""Independent evaluation of stored networks."""
import functools
import os
import pickle

import numpy as np


@functools.lru_cache(None)
def parameters(folder):
    import torch

    state = torch.load(os.path.join(folder, "model.pkl"), map_location="cpu")
    names = sorted({k.rsplit(".", 1)[0] for k in state}, key=lambda k: int(k.split(".")[-1]))
    layers = [
        (state[n + ".weight"].double().numpy(), state[n + ".bias"].double().numpy()) for n in names
    ]
    with open(os.path.join(folder, "input_scaler.pkl"), "rb") as file:
        scale_in = pickle.load(file)
    with open(os.path.join(folder, "output_scaler.pkl"), "rb") as file:
        scale_out = pickle.load(file)
    return layers, (scale_in.mean_, scale_in.scale_), (scale_out.mean_, scale_out.scale_)


def evaluate(layers, scale_in, scale_out, inputs):
    x = (np.asarray(inputs, dtype=float) - scale_in[0]) / scale_in[1]
    for i, (weight, bias) in enumerate(layers):
        x = x @ weight.T + bias
        if i < len(layers) - 1:
            x = np.where(x > 0, x, 0.01 * x)
    return x * scale_out[1] + scale_out[0]


def predict(kind, inputs):
    folder = {"reduced-llf": "data/reduced-llf", "reduced-llf-2": "data/reduced-llf-2"}[kind]
    return evaluate(*parameters(folder), inputs).tolist()
