import numpy as np
from scipy.interpolate import CubicSpline


def field_line_length(RZ, y, refine):
    n = (len(y) - 1) * refine + 1
    yf = CubicSpline(np.linspace(0, 1, len(y)), y)(np.linspace(0, 1, n))
    R = CubicSpline(y, RZ[..., 0])(yf)
    Z = CubicSpline(y, RZ[..., 1])(yf)
    yy = yf.reshape((n,) + (1,) * (len(R.shape) - 1))
    X = R * np.cos(yy)
    Y = R * np.sin(yy)
    total = 0
    return np.sum(
        np.sqrt((X[1:] - X[:-1]) ** 2 + (Y[1:] - Y[:-1]) ** 2 + (Z[1:] - Z[:-1]) ** 2),
        axis=0,
    )
