import numpy as np


def set_anisotropic_ktensor(ktensors, k_iso, azim, dip, anirat):
    imax = k_iso.shape[0]
    jmax = k_iso.shape[1]
    kmax = k_iso.shape[2]
    for i in range(imax):
        for j in range(jmax):
            for k in range(kmax):
                kiso = k_iso[i, j, k]
                c = 1 / anirat[i, j, k] - 1
                nx = np.sin(dip[i, j, k]) * np.cos(azim[i, j, k])
                ny = -np.sin(dip[i, j, k]) * np.sin(azim[i, j, k])
                nz = np.cos(dip[i, j, k])
                ktensors[i, j, k, 0, 0] = kiso * (1 + c * nx * nx)
                ktensors[i, j, k, 0, 1] = kiso * c * nx * ny
                ktensors[i, j, k, 0, 2] = kiso * c * nx * nz
                ktensors[i, j, k, 1, 0] = kiso * c * ny * nx
                ktensors[i, j, k, 1, 1] = kiso * (1 + c * ny * ny)
                ktensors[i, j, k, 1, 2] = kiso * c * ny * nz
                ktensors[i, j, k, 2, 0] = kiso * c * nz * nx
                ktensors[i, j, k, 2, 1] = kiso * c * nz * ny
                ktensors[i, j, k, 2, 2] = kiso * (1 + c * nz * nz)
