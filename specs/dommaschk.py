"""Dommaschk potentials, written from the formulas of the original paper
(W. Dommaschk, Comp. Phys. Comm. 40 (1986) 203)."""
from math import gamma

import numpy as np
from sympy import Symbol, cos, diff, factorial, lambdify, log, sin


def alpha(n, m):
    if n < 0:
        return 0
    return (-1) ** n / (gamma(m + n + 1) * gamma(n + 1) * 2 ** (2 * n + m))


def alpha_star(n, m):
    return (2 * n + m) * alpha(n, m)


def beta(n, m):
    if n < 0 or n >= m:
        return 0
    return gamma(m - n) / (gamma(n + 1) * 2 ** (2 * n - m + 1))


def beta_star(n, m):
    return (2 * n - m) * beta(n, m)


def delta(n, m):
    if n <= 0:
        return 0
    s = 0
    for i in range(1, n + 1):
        s = s + 1 / i + 1 / (m + i)
    return alpha(n, m) * s / 2


def delta_star(n, m):
    return (2 * n + m) * delta(n, m)


def C_D(m, k, R):
    s = 0
    for j in range(k + 1):
        up = (
            alpha(j, m) * (alpha_star(k - m - j, m) * log(R) + delta_star(k - m - j, m) - alpha(k - m - j, m))
            - delta(j, m) * alpha_star(k - m - j, m)
            + alpha(j, m) * beta_star(k - j, m)
        )
        s = s - up * R ** (2 * j + m) + beta(j, m) * alpha_star(k - j, m) * R ** (2 * j - m)
    return s


def C_N(m, k, R):
    s = 0
    for j in range(k + 1):
        up = (
            alpha(j, m) * (alpha(k - m - j, m) * log(R) + delta(k - m - j, m))
            - delta(j, m) * alpha(k - m - j, m)
            + alpha(j, m) * beta(k - j, m)
        )
        s = s + up * R ** (2 * j + m) - beta(j, m) * alpha(k - j, m) * R ** (2 * j - m)
    return s


def D(m, l, R, Z):
    s = 0
    for k in range(l // 2 + 1):
        s = s + Z ** (l - 2 * k) / factorial(l - 2 * k) * C_D(m, k, R)
    return s


def N(m, l, R, Z):
    s = 0
    if l < 0:
        return s
    for k in range(l // 2 + 1):
        s = s + Z ** (l - 2 * k) / factorial(l - 2 * k) * C_N(m, k, R)
    return s


def field(A, R_0, B_0, modes, x, z, y):
    R, phi, Z = Symbol("R"), Symbol("phi"), Symbol("Z")
    U = phi
    for m, l in modes:
        a, b, c, d = A[m, l, 0], A[m, l, 1], A[m, l, 2], A[m, l, 3]
        U = U + (a * cos(m * phi) + b * sin(m * phi)) * D(m, l, R / R_0, Z / R_0)
        U = U + (c * cos(m * phi) + d * sin(m * phi)) * N(m, l - 1, R / R_0, Z / R_0)
    BR = lambdify((R, phi, Z), diff(U, R))
    Bphi = lambdify((R, phi, Z), diff(U, phi) / R)
    BZ = lambdify((R, phi, Z), diff(U, Z))
    scale = B_0 / Bphi(R_0, 0, 0)
    return BR(x, y, z) * scale, Bphi(x, y, z) * scale, BZ(x, y, z) * scale
