"""Slow reference of the finite volume schemes, written face by face."""
import math

import numpy as np

EPS = 1e-15


################################################################################
# boundary
################################################################################
def ghost(values, radius, bc, time, inflow_left, inflow_right, shallow_water):
    """Extends list of cell values by RADIUS cells on both sides."""
    n = len(values)

    def mirrored(value):
        return [value[0], -value[1]]

    def left(i):  # i-th cell left of the boundary, starting with 0
        condition = bc[0]
        if condition == "periodic":
            return values[(-1 - i) % n]
        if condition == "outflow":
            return values[0]
        if condition == "wall":
            return mirrored(values[i])
        return inflow_left(time)

    def right(i):
        condition = bc[-1]
        if condition == "periodic":
            return values[i % n]
        if condition == "outflow":
            return values[-1]
        if condition == "wall":
            return mirrored(values[n - 1 - i])
        return inflow_right(time)

    return [left(i) for i in range(radius - 1, -1, -1)] + list(values) + [right(i) for i in range(radius)]


################################################################################
# physics
################################################################################
def swe_velocity(state):
    h, q = state
    return 2 * h * q / (h**2 + max(h, EPS) ** 2)


def swe_flux(state, g):
    h, q = state
    if h < EPS:
        return [0.0, 0.0]
    return [q, q * q / h + g * h * h / 2]


def swe_speed(left, right, g):
    return max(
        abs(swe_velocity(left)) + math.sqrt(g * left[0]),
        abs(swe_velocity(right)) + math.sqrt(g * right[0]),
    )


def scalar_flux(problem, u):
    return u if problem == "advection" else u * u / 2


def scalar_speed(problem, left, right):
    speed = 1.0 if problem == "advection" else max(abs(left), abs(right))
    return max(speed, EPS)


def bottom_steps(bottom):
    """Bottom jump at each face; the bottom is continued constantly."""
    n = len(bottom)
    if all(abs(b - bottom[0]) < EPS for b in bottom):
        return [0.0] * (n + 1)
    extended = [bottom[0], *bottom, bottom[-1]]
    return [extended[i + 1] - extended[i] for i in range(n + 1)]


################################################################################
# schemes: each returns contributions (to the left cell, to the right cell) per face
################################################################################
def add(x, y, factor=1.0):
    return [a + factor * b for a, b in zip(x, y)]


def scale(factor, x):
    return [factor * a for a in x]


class Reference:
    """Right hand side of a scheme for the data of a case."""

    def __init__(self, case, scheme, inflow_left=None, inflow_right=None, network=None, time_step=None):
        self.case = case
        self.scheme = scheme
        self.n = len(case["values"])
        self.dx = case["L"] / self.n
        self.bc = case["bc"]
        self.periodic = self.bc == ["periodic"]
        self.shallow_water = case["problem"] == "shallow_water"
        self.inflow_left, self.inflow_right = inflow_left, inflow_right
        self.network = network
        self.time_step = time_step
        if self.shallow_water:
            self.g = case["g"]
            self.bottom = case.get("bottom") or [0.0] * self.n
            self.step = bottom_steps(self.bottom)
            flat = all(s == 0.0 for s in self.step)
            self.bottom_extended = (
                [0.0] * (self.n + 2) if flat else [self.bottom[0], *self.bottom, self.bottom[-1]]
            )

    def __call__(self, time, values):
        """Returns right hand side and magnitude of the terms entering it."""
        values = np.asarray(values, dtype=float).tolist()
        left, right, size = self.contributions(self.scheme, time, values)
        rhs = []
        magnitude = []
        for i in range(self.n):
            a, b = right[i], left[i + 1]
            if self.shallow_water:
                rhs.append([(a[0] + b[0]) / self.dx, (a[1] + b[1]) / self.dx])
                magnitude.append([(size[i][k] + size[i + 1][k]) / self.dx for k in range(2)])
            else:
                rhs.append((a + b) / self.dx)
                magnitude.append((size[i] + size[i + 1]) / self.dx)
        return np.array(rhs), np.array(magnitude)

    def faces(self, time, values, radius=1):
        extended = ghost(
            values, radius, self.bc, time, self.inflow_left, self.inflow_right, self.shallow_water
        )
        extended = [list(map(float, v)) if self.shallow_water else float(v) for v in extended]
        return [extended[i : i + 2 * radius] for i in range(self.n + 1)]

    def contributions(self, scheme, time, values):
        if not self.shallow_water:
            return self.scalar(scheme, time, values)

        kind, *options = scheme.split(":")
        if kind == "antidiffusion":
            base = options[0] if options else "llf"
            gamma = float(options[1]) if len(options) > 1 else 0.1
            left, right, size = self.contributions(base, time, values)
            for i, (l, r) in enumerate(self.faces(time, values)):
                f = scale(gamma / self.dx, add(r, l, -1))
                left[i], right[i] = add(left[i], f, -1), add(right[i], f)
                size[i] = add(size[i], [abs(x) + abs(y) for x, y in zip(scale(gamma / self.dx, l), scale(gamma / self.dx, r))])
            return left, right, size
        if kind in ("reduced-llf", "reduced-llf-2"):
            left, right, size = self.contributions("llf", time, values)
            stencils = self.faces(time, values, radius=2)
            corrections = self.network(kind, [sum(s, []) for s in stencils])
            for i, f in enumerate(corrections):
                left[i], right[i] = add(left[i], f, -1), add(right[i], f)
                size[i] = add(size[i], np.abs(f).tolist())
            return left, right, size
        if kind == "mcl":
            return self.mcl(options[0] if options else "central", time, values)
        if kind == "low-order":
            data = self.low_order(time, values)
            return [d["left"] for d in data], [d["right"] for d in data], [d["size"] for d in data]

        lefts, rights, sizes = [], [], []
        for i, (l, r) in enumerate(self.faces(time, values)):
            flux, size = self.two_point(kind, l, r, i)
            source = (
                self.g / 2 * (l[0] + r[0]) / 2 * self.step[i] if kind != "lw" else 0.0
            )
            lefts.append([-flux[0], -flux[1] - source])
            rights.append([flux[0], flux[1] - source])
            sizes.append([size[0], size[1] + abs(source)])
        return lefts, rights, sizes

    def two_point(self, kind, l, r, face):
        g = self.g
        fl, fr = swe_flux(l, g), swe_flux(r, g)
        speed = swe_speed(l, r, g)
        jump = add(r, l, -1)
        size = [
            abs(fl[k]) + abs(fr[k]) + speed * (abs(l[k]) + abs(r[k])) for k in range(2)
        ]
        mean = scale(0.5, add(fl, fr))
        if kind == "central":
            return mean, size
        if kind == "llf":
            return add(mean, scale(speed / 2, jump), -1), size
        if kind == "lw":
            factor = self.time_step * speed**2 / (2 * self.dx)
            size = [s + (factor + speed) * (abs(a) + abs(b)) for s, a, b in zip(size, l, r)]
            return add(mean, scale(factor, jump), -1), size
        if kind in ("es", "es1"):
            h = (l[0] + r[0]) / 2
            ul, ur = swe_velocity(l), swe_velocity(r)
            u = (ul + ur) / 2
            flux = [h * u, h * u * u + g / 4 * (l[0] ** 2 + r[0] ** 2)]
            size = [s + abs(f) for s, f in zip(size, flux)]
            if kind == "es":
                return flux, size
            bl, br = self.bottom_extended[face], self.bottom_extended[face + 1]
            entropy_l = [g * (l[0] + bl) - ul * ul / 2, ul]
            entropy_r = [g * (r[0] + br) - ur * ur / 2, ur]
            mean_velocity = swe_velocity([h, (l[1] + r[1]) / 2])
            c = math.sqrt(g * h)
            diffusion = [0.0, 0.0]
            for eigenvalue in (mean_velocity - c, mean_velocity + c):
                # eigenvectors (1, eigenvalue) / sqrt(2 g)
                product = (entropy_r[0] - entropy_l[0]) + eigenvalue * (entropy_r[1] - entropy_l[1])
                weight = abs(eigenvalue) / (2 * g) / 2
                diffusion[0] += weight * product
                diffusion[1] += weight * product * eigenvalue
                absolute = abs(entropy_r[0]) + abs(entropy_l[0]) + g * (abs(bl) + abs(br)) + abs(eigenvalue) * (
                    abs(entropy_r[1]) + abs(entropy_l[1])
                )
                size = [size[0] + weight * absolute, size[1] + weight * absolute * abs(eigenvalue)]
            return add(flux, diffusion, -1), size
        raise KeyError(kind)

    def low_order(self, time, values):
        g = self.g
        data = []
        for i, (l, r) in enumerate(self.faces(time, values)):
            fl, fr = swe_flux(l, g), swe_flux(r, g)
            speed = swe_speed(l, r, g)
            bar = [(l[k] + r[k]) / 2 - (fr[k] - fl[k]) / (2 * speed) for k in range(2)]
            step = self.step[i]
            fix = math.copysign(min(abs(step) / 2, bar[0]), step) if step != 0 else 0.0
            source = -g * (l[0] + r[0]) / 2 * fix / speed
            u = (swe_velocity(l) + swe_velocity(r)) / 2
            star_l = [bar[0] + fix, bar[1] + u * fix + source]
            star_r = [bar[0] - fix, bar[1] - u * fix + source]
            size = [
                abs(fl[k]) + abs(fr[k]) + speed * (abs(l[k]) + abs(r[k])) for k in range(2)
            ]
            size = [size[0] + speed * abs(fix), size[1] + speed * (abs(u * fix) + abs(source))]
            data.append(
                {
                    "l": l,
                    "r": r,
                    "speed": speed,
                    "bar": bar,
                    "star_l": star_l,
                    "star_r": star_r,
                    "left": [speed * (star_l[k] - l[k]) - fl[k] for k in range(2)],
                    "right": [speed * (star_r[k] - r[k]) + fr[k] for k in range(2)],
                    "size": size,
                }
            )
        return data

    def mcl(self, high_order, time, values):
        n = self.n
        low = self.low_order(time, values)
        _, high_right, high_size = self.contributions(high_order, time, values)

        def at_cells(face_left, face_right):
            """Values at the left and right face of cells -1, ..., n."""
            result = []
            for cell in range(-1, n + 1):
                left_face, right_face = cell, cell + 1
                if self.periodic:
                    a = face_right[left_face % n] if left_face != n else face_right[n]
                    b = face_left[right_face % n] if right_face != n else face_left[n]
                    if left_face == -1:
                        a = face_right[n - 1]
                    if right_face == n + 1:
                        b = face_left[1]
                else:
                    a = face_right[left_face] if left_face >= 0 else face_right[0]
                    b = face_left[right_face] if right_face <= n else face_left[n]
                result.append((a, b))
            return result

        star_h = at_cells([d["star_l"][0] for d in low], [d["star_r"][0] for d in low])
        h_max = [max(x) for x in star_h]
        h_min = [min(x) for x in star_h]

        height_left, height_right, flux_h = [], [], []
        for i, d in enumerate(low):
            target = high_right[i][0] - d["right"][0]
            upper = d["speed"] * min(h_max[i + 1] - d["star_r"][0], d["star_l"][0] - h_min[i])
            lower = d["speed"] * max(h_min[i + 1] - d["star_r"][0], d["star_l"][0] - h_max[i])
            f = max(lower, min(upper, target))
            flux_h.append(f)
            # heights of the limited states left and right of the face
            height_left.append(d["bar"][0] - f / d["speed"])
            height_right.append(d["bar"][0] + f / d["speed"])

        bar_velocity = [
            (d["star_l"][1] + d["star_r"][1]) / (d["star_l"][0] + d["star_r"][0]) for d in low
        ]
        bar_height = [d["bar"][0] for d in low]
        at_velocity = at_cells(bar_velocity, bar_velocity)
        at_height = at_cells(bar_height, bar_height)
        at_discharge = at_cells([d["star_l"][1] for d in low], [d["star_r"][1] for d in low])
        v_max, v_min = [], []
        for (va, vb), (ha, hb), (qa, qb) in zip(at_velocity, at_height, at_discharge):
            candidates = (va, vb, qa / ha, qb / hb)
            v_max.append(max(candidates))
            v_min.append(min(candidates))

        lefts, rights, sizes = [], [], []
        for i, d in enumerate(low):
            v, h = bar_velocity[i], height_right[i]
            shift = d["speed"] * (d["star_r"][1] - h * v)
            target = high_right[i][1] - d["right"][1] + shift
            upper = d["speed"] * min(h * (v_max[i + 1] - v), height_left[i] * (v - v_min[i]))
            lower = d["speed"] * max(h * (v_min[i + 1] - v), height_left[i] * (v - v_max[i]))
            f = max(lower, min(upper, target)) - shift
            lefts.append(add(d["left"], [flux_h[i], f], -1))
            rights.append(add(d["right"], [flux_h[i], f]))
            spread = max(abs(x) for x in (v_max[i], v_max[i + 1], v_min[i], v_min[i + 1], v))
            sizes.append(
                [
                    d["size"][0] + high_size[i][0] + abs(flux_h[i]),
                    d["size"][1] + high_size[i][1] + 2 * abs(shift) + abs(f) + 2 * d["speed"] * (abs(h) + abs(height_left[i])) * spread,
                ]
            )
        return lefts, rights, sizes

    def scalar(self, scheme, time, values):
        problem = self.case["problem"]
        faces = self.faces(time, values)
        llf, central, speeds, bars, sizes = [], [], [], [], []
        for l, r in faces:
            fl, fr = scalar_flux(problem, l), scalar_flux(problem, r)
            speed = scalar_speed(problem, l, r)
            bars.append((l + r) / 2 - (fr - fl) / (2 * speed))
            llf.append((fl + fr) / 2 - speed / 2 * (r - l))
            central.append((fl + fr) / 2)
            speeds.append(speed)
            sizes.append(abs(fl) + abs(fr) + speed * (abs(l) + abs(r)))
        if scheme == "llf":
            flux = llf
        elif scheme == "central":
            flux = central
        else:
            extended = [faces[0][0]] + [f[1] for f in faces]
            n = self.n
            upper, lower = [], []
            for c in range(n + 2):
                neighbours = extended[max(c - 1, 0) : c + 2]
                if self.periodic:
                    inner = (c - 1) % n
                    neighbours = [values[inner - 1], values[inner], values[(inner + 1) % n]]
                upper.append(max(neighbours))
                lower.append(min(neighbours))
            flux = []
            for i in range(n + 1):
                target = central[i] - llf[i]
                most = speeds[i] * min(upper[i + 1] - bars[i], bars[i] - lower[i])
                least = speeds[i] * max(lower[i + 1] - bars[i], bars[i] - upper[i])
                flux.append(llf[i] + max(least, min(most, target)))
        return [-f for f in flux], flux, sizes


def reference(case, scheme, network=None, time_step=None):
    from . import bench

    return Reference(
        case,
        scheme,
        bench.inflow_function(case, "left"),
        bench.inflow_function(case, "right"),
        network=network,
        time_step=time_step,
    )


################################################################################
# integrators
################################################################################
TABLEAUS = {
    "euler": ([[]], [1.0], [0.0]),
    "heun": ([[], [1.0]], [0.5, 0.5], [0.0, 1.0]),
    "ssp3": ([[], [1.0], [0.25, 0.25]], [1 / 6, 1 / 6, 2 / 3], [0.0, 1.0, 0.5]),
}


def integrate(rhs, time, value, dt, integrator):
    """One step of an explicit Runge-Kutta method; RHS(t, u) returns array."""
    matrix, weights, nodes = TABLEAUS[integrator]
    stages = []
    for row, node in zip(matrix, nodes):
        stage = value.copy()
        for coefficient, k in zip(row, stages):
            stage = stage + dt * coefficient * k
        stages.append(rhs(time + node * dt, stage))
    for weight, k in zip(weights, stages):
        value = value + dt * weight * k
    return value
