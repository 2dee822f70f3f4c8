import numpy as np
cimport hyvr.optimized as ho
import hyvr.utils as hu
from libc.math cimport sin, cos, ceil, acos, sqrt
cimport numpy as np
from hyvr.geo.grid cimport Grid
cimport cython

cdef class Trough:
    cdef public:
        np.float_t x, y, z
        np.float_t a, b, c
        np.float_t max_ab
        np.float_t zmin, zmax
        np.float_t alpha
        np.float_t sinalpha, cosalpha
        np.float_t lag, shift
        np.int32_t structure
        np.float_t layer_dist
        np.float_t dip, azim
        np.int32_t facies, lag_facies, num_ha
        np.float_t cosdip
        np.float_t normvec_x, normvec_y, normvec_z
        np.int32_t num_facies
        np.int32_t [:] facies_array

    def __init__(self, type_params, *, x, y, z, a, b, c, alpha):
        cdef np.float_t sin_dip, cos_dip, sin_azim, cos_azim

        self.x = x
        self.y = y
        self.z = z
        self.a = a
        self.b = b
        self.c = c
        self.max_ab = max(a, b)
        self.zmin = z - c
        self.zmax = z
        self.alpha = alpha

        self.sinalpha = np.sin(alpha*np.pi/180)
        self.cosalpha = np.cos(alpha*np.pi/180)

        self.lag = type_params['lag_height']
        self.lag_facies = type_params['lag_facies']

        self.structure = ['massive', 'dip', 'bulb', 'bulb_sets', 'random'].index(type_params['structure'])
        if self.structure == 4: # random
            self.structure = np.random.randint(4)
        if self.structure == 0:  # massive
            self.facies = np.random.choice(type_params['facies'])
            self.azim = np.random.uniform(*type_params['azimuth']) + self.alpha
            self.dip = np.random.uniform(*type_params['dip'])
        elif self.structure == 1: # dip
            self.layer_dist = type_params['dipset_dist']

            self.azim = np.random.uniform(*type_params['azimuth']) + self.alpha
            self.dip = np.random.uniform(*type_params['dip'])
            sin_dip = sin(self.dip*np.pi/180)
            cos_dip = cos(self.dip*np.pi/180)
            sin_azim = sin(self.azim*np.pi/180)
            cos_azim = cos(self.azim*np.pi/180)
            self.normvec_x = sin_dip*cos_azim
            self.normvec_y = -sin_dip*sin_azim
            self.normvec_z = cos_dip

            self.shift = np.random.uniform(0, self.layer_dist)

            self.num_facies = int(np.ceil((2*max(a, b, c) + self.shift)/self.layer_dist)) + 2
            self.facies_array = hu.get_alternating_facies(self.num_facies, type_params)
        elif self.structure == 2: # bulb
            self.facies = np.random.choice(type_params['facies'])
            self.dip = np.random.uniform(*type_params['dip'])
        elif self.structure == 3: # bulb_sets
            self.layer_dist = type_params['bulbset_dist']
            self.shift = np.random.uniform()
            self.num_facies = int(ceil((1 + self.shift)*c/self.layer_dist)) + 1
            self.facies_array = hu.get_alternating_facies(self.num_facies, type_params)
            self.dip = np.random.uniform(*type_params['dip'])
        else:
            print("Structure number:", self.structure)
            raise NotImplementedError('This structure is not implemented yet')
