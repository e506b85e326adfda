"""Reference for structured poloidal grids."""
import numpy as np
from scipy.interpolate import RectBivariateSpline


def coordinate(a, x, z, dx, dz):
    nx, nz = a.shape
    s = RectBivariateSpline(np.arange(nx), np.arange(nz * 3), np.concatenate((a, a, a), axis=1))
    return s(x, np.remainder(z, nz) + nz, dx=dx, dy=dz, grid=False)
