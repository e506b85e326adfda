"""Reference for periodic lines."""
import numpy as np
from scipy.integrate import cumulative_trapezoid
from scipy.interpolate import interp1d, splev, splrep


def spline(a, order):
    n = len(a)
    t = 2 * np.pi * np.arange(n) / n
    return splrep(np.append(t, 2 * np.pi), np.append(a, a[0]), per=True, k=order)


def value(a, order, theta, der):
    return splev(np.remainder(theta, 2 * np.pi), spline(a, order), der=der)


def at_points(a, order, der):
    n = len(a)
    return splev(2 * np.pi * np.arange(n) / n, spline(a, order), der=der)


def weight(w, n):
    t = np.linspace(0, 1, len(w) + 1)
    return interp1d(t, np.append(w, w[0]))(np.linspace(0, 1, n, endpoint=False))


def weighted(R, Z, order, sample, w):
    t = np.linspace(0.0, 2 * np.pi, sample * len(R) + 1)
    dl = np.sqrt(value(R, order, t, 1) ** 2 + value(Z, order, t, 1) ** 2)
    return cumulative_trapezoid(dl * weight(w, len(t)), t, initial=0.0)[::sample]


def distance(R, Z, order, sample):
    t = np.linspace(0.0, 2 * np.pi, sample * len(R) + 1)
    dl = np.sqrt(value(R, order, t, 1) ** 2 + value(Z, order, t, 1) ** 2)
    return cumulative_trapezoid(dl, t, initial=0.0)[::sample]


def spaced(R, Z, order, n, dist):
    m = len(R)
    pos = np.linspace(dist[0], dist[-1], n, endpoint=False)
    t = interp1d(dist, np.append(2 * np.pi * np.arange(m) / m, 2 * np.pi))(pos)
    return value(R, order, t, 0), value(Z, order, t, 0)


def area(r, z):
    return np.sum((r - np.roll(r, 1)) * (z + np.roll(z, 1)))
