import numpy as np
import numpy.typing as npt
from hyvr.geo.grid import Grid
from hyvr.geo.contact_surface import ContactSurface
import hyvr.utils as hu

class Sheet:
    dipsets: npt.NDArray[np.float64]
    num_facies: npt.NDArray[np.float64] = 0
    zmin: npt.NDArray[np.float64]
    zmax: npt.NDArray[np.float64]
    dip: npt.NDArray[np.float64]
    azim: npt.NDArray[np.float64]
    shift: npt.NDArray[np.float64] = 0
    layer_dist: npt.NDArray[np.float64] = 0
    normvec_x: npt.NDArray[np.float64] = 0
    normvec_y: npt.NDArray[np.float64] = 0
    normvec_z: npt.NDArray[np.float64] = 0
    facies: npt.NDArray[np.int32] = 0
    num_ha: npt.NDArray[np.int32] = 0
    facies_array: npt.NDArray[np.int32]
    bottom_surface: ContactSurface
    top_surface: ContactSurface

    def __init__(self, type_params, bottom_surface, top_surface, grid):
        self.bottom_surface = bottom_surface
        self.top_surface = top_surface
        self.zmin = self.bottom_surface.zmin
        self.zmax = self.top_surface.zmax
        self.dipsets = type_params['structure'] == 'dip'
        if self.dipsets:
            self.layer_dist = type_params['dipset_dist']
            self.azim = np.random.uniform(*type_params['azimuth'])
            self.dip = np.random.uniform(*type_params['dip'])
            sin_dip = np.sin(self.dip * np.pi / 180)
            cos_dip = np.cos(self.dip * np.pi / 180)
            sin_azim = np.sin(self.azim * np.pi / 180)
            cos_azim = np.cos(self.azim * np.pi / 180)
            self.normvec_x = sin_dip * cos_azim
            self.normvec_y = -sin_dip * sin_azim
            self.normvec_z = cos_dip
            xc = grid.x0 + grid.lx / 2
            yc = grid.y0 + grid.ly / 2
            zc = self.bottom_surface.zmean
            self.shift = self.normvec_x * xc + self.normvec_y * yc + self.normvec_z * zc
            self.shift += np.random.rand() * self.layer_dist
            self.num_facies = int(np.ceil((grid.lx + grid.ly + 2 * grid.lz) / self.layer_dist)) + 10
            self.facies_array = hu.get_alternating_facies(self.num_facies, type_params)
        else:
            self.azim = np.random.uniform(*type_params['azimuth'])
            self.dip = np.random.uniform(*type_params['dip'])
            self.facies = np.random.choice(type_params['facies'])
