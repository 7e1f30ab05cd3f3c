"""Smooth and discontinuous exact solutions, independent of the program."""
import numpy as np

GAUSS = np.polynomial.legendre.leggauss(5)


def cell_averages(function, a, length, n):
    """Averages of FUNCTION(x) (vectorised, components last) over N cells."""
    x, w = GAUSS
    size = length / n
    points = a + size * (np.arange(n)[:, None] + (x[None, :] + 1) / 2)
    values = np.asarray(function(points.ravel()))
    return np.tensordot(values.reshape(n, len(x), *values.shape[1:]), w / 2, axes=([1], [0]))


def wave(case):
    """Smooth periodic profile and its steepest descent."""
    mean, amplitude, k, phase = case["mean"], case["amplitude"], case["k"], case["phase"]
    a, length = case["a"], case["L"]
    frequency = 2 * np.pi * k / length

    def profile(x):
        return mean + amplitude * np.sin(frequency * (np.asarray(x) - a) + 2 * np.pi * phase)

    return profile, amplitude * frequency


def transport(profile, low, high, steepness, x, t):
    """Solution of w_t + w w_x = 0 before breaking: w = profile(x - w t)."""
    x = np.asarray(x, dtype=float)
    if t == 0:
        return profile(x)
    # w - profile(x - w t) increases in w
    left, right = np.full_like(x, low), np.full_like(x, high)
    for _ in range(60):
        middle = (left + right) / 2
        positive = middle - profile(x - middle * t) > 0
        right = np.where(positive, middle, right)
        left = np.where(positive, left, middle)
    return (left + right) / 2


def simple_wave(w, invariant, g):
    """State of a simple wave with u + c = W and u - 2 c = INVARIANT."""
    c = (w - invariant) / 3
    h = c * c / g
    return np.stack([h, h * (invariant + 2 * c)], axis=-1)


def steady_depth(q, head, bottom, g):
    """Subcritical depth with q^2/(2 h^2) + g (h + b) = HEAD."""
    bottom = np.asarray(bottom, dtype=float)
    critical = (q * q / g) ** (1 / 3)
    low, high = np.full_like(bottom, critical), np.full_like(bottom, head / g) - bottom
    for _ in range(70):
        middle = (low + high) / 2
        above = q * q / (2 * middle**2) + g * (middle + bottom) > head
        high = np.where(above, middle, high)
        low = np.where(above, low, middle)
    return (low + high) / 2


def burgers_riemann(left, right, xi):
    """Entropy solution of Burgers' equation at x/t = XI."""
    xi = np.asarray(xi, dtype=float)
    if left > right:
        return np.where(xi < (left + right) / 2, left, right)
    return np.clip(xi, left, right)


def swe_riemann(left, right, g, xi):
    """Exact solution of the Riemann problem for the shallow water equations
    without dry states at x/t = XI.

    """
    (hl, ql), (hr, qr) = left, right
    ul, ur = ql / hl, qr / hr
    cl, cr = np.sqrt(g * hl), np.sqrt(g * hr)

    def change(h, h0):
        if h <= h0:
            return 2 * (np.sqrt(g * h) - np.sqrt(g * h0))
        return (h - h0) * np.sqrt(g / 2 * (h + h0) / (h * h0))

    assert ul + 2 * cl > ur - 2 * cr
    low, high = 1e-12, 10 * max(hl, hr) + (ul - ur) ** 2 / g
    for _ in range(200):
        middle = (low + high) / 2
        if change(middle, hl) + change(middle, hr) + ur - ul > 0:
            high = middle
        else:
            low = middle
    h = (low + high) / 2
    u = (ul + ur + change(h, hr) - change(h, hl)) / 2
    c = np.sqrt(g * h)

    xi = np.asarray(xi, dtype=float)
    result_h, result_u = np.empty_like(xi), np.empty_like(xi)
    for k, s in enumerate(xi.ravel()):
        if s <= u:  # left of the contact
            if h > hl:
                speed = ul - cl * np.sqrt((h + hl) * h / 2) / hl
                state = (hl, ul) if s < speed else (h, u)
            elif s < ul - cl:
                state = (hl, ul)
            elif s > u - c:
                state = (h, u)
            else:
                local = (ul + 2 * cl - s) / 3
                state = (local**2 / g, s + local)
        else:
            if h > hr:
                speed = ur + cr * np.sqrt((h + hr) * h / 2) / hr
                state = (hr, ur) if s > speed else (h, u)
            elif s > ur + cr:
                state = (hr, ur)
            elif s < u + c:
                state = (h, u)
            else:
                local = (s - ur + 2 * cr) / 3
                state = (local**2 / g, s - local)
        result_h.ravel()[k], result_u.ravel()[k] = state
    return np.stack([result_h, result_h * result_u], axis=-1)


def swe_speeds(left, right, g):
    """Bound of all speeds of a Riemann problem."""
    (hl, ql), (hr, qr) = left, right
    return max(abs(ql / hl) + 3 * np.sqrt(g * hl), abs(qr / hr) + 3 * np.sqrt(g * hr))
