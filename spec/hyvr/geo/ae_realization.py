import numpy as np
import numpy.typing as npt
from hyvr.geo.contact_surface import ContactSurface
from hyvr.geo.grid import Grid

class AERealization:

    def __init__(self, bottom_surface: ContactSurface, top_surface: ContactSurface, type_name: str, type_params: dict, stratum, grid: Grid):
        self.bottom_surface = bottom_surface
        self.top_surface = top_surface
        self.type_params = type_params
        self.type_name = type_name
        self.type_id = type_params['ae_id']
        self.object_list = []
        self.object_zmin_list = []
        self.object_zmax_list = []
        self.zmin = self.bottom_surface.zmin
        self.zmax = self.top_surface.zmax
        if self.type_params['bg_facies'] != -1:
            self.bg_facies = self.type_params['bg_facies']
        else:
            self.bg_facies = stratum.bg_facies
        if not np.isnan(self.type_params['bg_azim']):
            self.bg_azim = self.type_params['bg_azim']
        else:
            self.bg_azim = stratum.bg_azim
        if not np.isnan(self.type_params['bg_dip']):
            self.bg_dip = self.type_params['bg_dip']
        else:
            self.bg_dip = stratum.bg_dip
        self.generate_objects(grid)
        self.n_objects = len(self.object_list)
        self._create_common_object_arrays()
        self.create_object_arrays()

    def _create_common_object_arrays(self):
        self.object_zmins = np.array(self.object_zmin_list)
        self.object_zmaxs = np.array(self.object_zmax_list)
        self.object_azim = np.zeros(self.n_objects, dtype=np.float64)
        self.object_dip = np.zeros(self.n_objects, dtype=np.float64)
        self.object_facies = np.zeros(self.n_objects, dtype=np.int32)
        self.object_num_ha = np.zeros(self.n_objects, dtype=np.int32)
        self.object_num_facies = np.zeros(self.n_objects, dtype=np.int32)
        for i, obj in enumerate(self.object_list):
            self.object_azim[i] = obj.azim
            self.object_dip[i] = obj.dip
            self.object_facies[i] = obj.facies
            self.object_num_ha[i] = obj.num_ha
            self.object_num_facies[i] = obj.num_facies
        if self.n_objects > 0:
            max_num_facies = np.max(self.object_num_facies)
        else:
            max_num_facies = 0
        self.object_facies_array = np.zeros((self.n_objects, max_num_facies), dtype=np.int32)
        for i, obj in enumerate(self.object_list):
            num_facies = self.object_num_facies[i]
            for j in range(num_facies):
                self.object_facies_array[i, j] = obj.facies_array[j]

    def generate_objects(self, grid):
        raise NotImplementedError("You must override the method 'generate_objects' in subclasses of AERealization!")

    def _add_object(self, object_):
        self.object_list.append(object_)
        self.object_zmin_list.append(object_.zmin)
        if object_.zmin < self.zmin:
            self.zmin = object_.zmin
        self.object_zmax_list.append(object_.zmax)
        if object_.zmax > self.zmax:
            self.zmax = object_.zmax

    def create_object_arrays(self):
        raise NotImplementedError("You must override the method 'create_object_arrays' in subclasses of AERealization!")

    def maybe_assign_points_to_object(self, oi: int, geo_ids: npt.NDArray[np.int32], angles: npt.NDArray[np.float64], x: float, y: float, z: float, x_idx: int, y_idx: int, grid: Grid):
        raise NotImplementedError("You must override the method 'maybe_assign_points_to_object' in subclasses of AERealization!")
