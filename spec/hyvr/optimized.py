from math import sin, cos, sqrt
import numpy as np
import numpy.typing as npt

def set_anisotropic_ktensor(ktensors: npt.NDArray[np.float64], k_iso: npt.NDArray[np.float64], azim: npt.NDArray[np.float64], dip: npt.NDArray[np.float64], anirat: npt.NDArray[np.float64]):
    imax = k_iso.shape[0]
    jmax = k_iso.shape[1]
    kmax = k_iso.shape[2]
    for i in range(imax):
        for j in range(jmax):
            for k in range(kmax):
                kappa = azim[i, j, k]
                psi = dip[i, j, k]
                a = 1 / anirat[i, j, k]
                sink = np.sin(kappa)
                cosk = np.cos(kappa)
                sinp = np.sin(psi)
                cosp = np.cos(psi)
                kiso = k_iso[i, j, k]
                a00 = kiso * (sink ** 2 + cosk ** 2 * (cosp ** 2 + a * sinp ** 2))
                a01 = kiso * (1 - a) * sink * cosk * sinp ** 2
                a02 = kiso * ((a - 1) * (sin(kappa + 2 * psi) - sin(kappa - 2 * psi))) / 4
                a11 = kiso * ((a - 1) * sink ** 2 * sinp ** 2 + 1)
                a12 = kiso * ((1 - a) * (cos(kappa - 2 * psi) - cos(kappa + 2 * psi))) / 4
                a22 = kiso * (a * cosp ** 2 + sinp ** 2)
                ktensors[i, j, k, 0, 0] = a00
                ktensors[i, j, k, 0, 1] = a01
                ktensors[i, j, k, 0, 2] = a02
                ktensors[i, j, k, 1, 0] = a01
                ktensors[i, j, k, 1, 1] = a11
                ktensors[i, j, k, 1, 2] = a12
                ktensors[i, j, k, 2, 0] = a02
                ktensors[i, j, k, 2, 1] = a12
                ktensors[i, j, k, 2, 2] = a22

def sign(x: float):
    return (x >= 0) - (x < 0)

def curve_interp(xc: npt.NDArray[np.float64], yc: npt.NDArray[np.float64], spacing: float):
    nc = len(xc)
    t = np.arange(xc[0], nc, spacing * 0.1)
    xc = np.interp(t, np.arange(nc), xc)
    yc = np.interp(t, np.arange(nc), yc)
    tol = spacing
    ic, idx = (0, [0])
    while ic < nc:
        total_dist = 0
        j = ic + 1
        for j in range(ic + 1, nc):
            total_dist += sqrt((xc[j] - xc[j - 1]) ** 2 + (yc[j] - yc[j - 1]) ** 2)
            if total_dist > tol:
                idx.append(j)
                break
        ic = j + 1
    xn = np.zeros(len(idx))
    yn = np.zeros(len(idx))
    for i, ic in enumerate(idx):
        xn[i] = xc[ic]
        yn[i] = yc[ic]
    return (xn, yn)
