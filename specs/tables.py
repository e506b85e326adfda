"""Reference construction of tabulated fields."""
import numpy as np
from scipy.interpolate import RegularGridInterpolator, griddata


class Box:
    pass


def vmec(r_stz, z_stz, br, bphi, bz, zeta, nr, nz):
    r1 = np.linspace(r_stz.min(), r_stz.max(), nr)
    z1 = np.linspace(z_stz.min(), z_stz.max(), nz)
    R, Z = np.meshgrid(r1, z1, indexing="ij")
    out = []
    for b, fill in ((br, 0.0), (bphi, 1.0), (bz, 0.0)):
        t = np.zeros((nr, nz, zeta.size))
        for k in range(zeta.size):
            pts = np.column_stack((r_stz[:, :, k].T.flatten(), z_stz[:, :, k].T.flatten()))
            t[:, :, k] = griddata(pts, b[:, :, k].T.flatten(), (R, Z), method="linear", fill_value=fill)
        f = RegularGridInterpolator((r1, z1, zeta), t, bounds_error=False, fill_value=fill)
        out.append(lambda x, z, phi, f=f: f((x, z, phi)))
    return out
