import numpy as np
cimport numpy as np
cimport cython
from hyvr.geo.grid cimport Grid
from libc.math cimport sqrt, sin, cos, atan2
import hyvr.utils as hu

cdef class Channel:

    cdef public:
        np.float_t[:] x_center, y_center, vx, vy
        np.int32_t[:,:] dont_check
        np.float_t a, width, depth, min_dx_dy
        np.int32_t len_centerline
        np.float_t zmin, zmax
        np.float_t ztop
        np.float_t dip, azim, sin_dip, cos_dip
        np.float_t shift, layer_dist
        np.float_t lag_height
        np.int32_t facies, num_ha, lag_facies, num_facies
        np.int32_t [:] facies_array
        np.int32_t dipsets


    def __init__(self, type_params, x_center, y_center, vx, vy, z, width, depth, grid):
        cdef int i
        cdef np.float_t dist_along_curve
        self.x_center = x_center
        self.y_center = y_center
        self.vx = vx
        self.vy = vy
        self.len_centerline = len(x_center)

        self.dont_check = np.zeros((grid.nx, grid.ny), dtype=np.int32)
        self.min_dx_dy = min(grid.dx, grid.dy)

        self.ztop = z
        self.zmax = z
        self.zmin = z - depth


        self.depth = depth
        self.width = width
        self.a = 4*self.depth/self.width**2

        self.lag_height = type_params['lag_height']
        self.lag_facies = type_params['lag_facies']


        self.dipsets = type_params['structure'] == 'dip'
        if self.dipsets:
            self.layer_dist = type_params['dipset_dist']
            self.dip = np.random.uniform(*type_params['dip'])
            self.sin_dip = sin(self.dip*np.pi/180)
            self.cos_dip = cos(self.dip*np.pi/180)
            self.shift = np.random.uniform(0, self.layer_dist)

            dist_along_curve = 0
            for i in range(1, self.len_centerline):
                dist_along_curve += sqrt((self.x_center[i] - self.x_center[i-1])**2
                                            +(self.y_center[i] - self.y_center[i-1])**2
                )
            self.num_facies = int(
                np.ceil(dist_along_curve*self.sin_dip/self.layer_dist + self.shift)
                + np.ceil(self.depth/self.layer_dist)
            )
            self.num_facies += 10  # just to be sure
            self.facies_array = hu.get_alternating_facies(self.num_facies, type_params)
        else:
            self.dip = np.random.uniform(*type_params['dip'])
            self.facies = np.random.choice(type_params['facies'])
