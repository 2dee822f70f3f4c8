import numpy as np
from hyvr.optimized import curve_interp

def ferguson_curve(grid, h, k, ds, eps_factor, flow_angle, domain_length, xstart, ystart, width):
    ds += 1e-10
    ns = domain_length * 2
    s = np.arange(0, ns, ds)
    xp = 0
    yp = 0
    theta = ferguson_theta(s, eps_factor, k, h)
    s_interp, th_interp = curve_interp(s, theta, 0.1)
    outputs = np.zeros((len(th_interp), 4))
    for th_idx, th_i in enumerate(th_interp):
        vx = ds * np.cos(th_i)
        vy = ds * np.sin(th_i)
        outputs[th_idx, 0] = xp
        outputs[th_idx, 1] = yp
        outputs[th_idx, 2] = vx
        outputs[th_idx, 3] = vy
        xp += vx
        yp += vy
    rot_angle = -np.mean(th_interp) + flow_angle
    rotMatrix = np.array([[np.cos(rot_angle), -np.sin(rot_angle)], [np.sin(rot_angle), np.cos(rot_angle)]])
    roro = np.dot(rotMatrix, outputs[:, 0:2].transpose())
    outputs[:, 2:] = np.dot(rotMatrix, outputs[:, 2:].transpose()).transpose()
    outputs[:, 0] = roro[0, :].transpose()
    outputs[:, 1] = roro[1, :].transpose()
    outputs[:, 0] += xstart
    outputs[:, 1] += ystart
    indomain = np.logical_and(outputs[:, 0] >= grid.x0 - width, outputs[:, 0] <= grid.xmax + width)
    outputs = outputs[indomain, :]
    return outputs

def ferguson_theta(s, eps_factor, k, h):
    th_store = np.zeros(len(s))
    for idex, si in enumerate(s):
        if idex == 0:
            t1 = 0
            t2 = 0
            eps = 0
        elif idex == 1:
            t1 = th_store[idex - 1]
            t2 = 0
            eps = np.random.normal() * eps_factor
        else:
            t1 = th_store[idex - 1]
            t2 = th_store[idex - 2]
            eps = np.random.normal() * eps_factor
        th_store[idex] = thetaAR2(t1, t2, k, h, eps)
    return th_store

def thetaAR2(t1, t2, k, h, eps):
    b1 = 2 * np.exp(-k * h) * np.cos(k * np.arcsin(h))
    b2 = -np.exp(-2 * k * h)
    return eps + b1 * t1 + b2 * t2
