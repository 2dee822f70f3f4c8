import numpy as np

class Grid:

    def __init__(self, x0: float, y0: float, z0: float, dx: float, dy: float, dz: float, lx: float, ly: float, lz: float, periodic: int):
        self.x0 = x0
        self.y0 = y0
        self.z0 = z0
        self.lx = lx
        self.ly = ly
        self.lz = lz
        self.dx = dx
        self.dy = dy
        self.dz = dz
        self.xmax = self.x0 + self.lx
        self.ymax = self.y0 + self.ly
        self.zmax = self.z0 + self.lz
        self.periodic = periodic
        self.x = np.arange(x0 + dx / 2, x0 + lx, dx)
        self.y = np.arange(y0 + dy / 2, y0 + ly, dy)
        self.z = np.arange(z0 + dz / 2, z0 + lz, dz)
        self.nx = len(self.x)
        self.ny = len(self.y)
        self.nz = len(self.z)
        self.Y, self.X, self.Z = np.meshgrid(self.y, self.x, self.z)
        self.X_centered = self.X - (np.min(self.X) + np.max(self.X)) / 2
        self.Y_centered = self.Y - (np.min(self.Y) + np.max(self.Y)) / 2
        self.Z_centered = self.Z - (np.min(self.Z) + np.max(self.Z)) / 2
