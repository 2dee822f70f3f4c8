
import numpy as np
import numpy.typing as npt

from hyvr.geo.sheet import Sheet
from hyvr.geo.grid import Grid
from hyvr.geo.contact_surface import ContactSurface


from hyvr.geo.ae_realization cimport AERealization

class SheetAE(AERealization):

    def create_object_arrays(self):

        self.object_shift = np.zeros(self.n_objects, dtype=np.float64)
        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float64)
        self.object_normvec_x = np.zeros(self.n_objects, dtype=np.float64)
        self.object_normvec_y = np.zeros(self.n_objects, dtype=np.float64)
        self.object_normvec_z = np.zeros(self.n_objects, dtype=np.float64)
        self.object_bottom_surface_zmean = np.zeros(self.n_objects, dtype=np.float64)
        self.object_dipsets = np.zeros(self.n_objects, dtype=np.int32)

        if self.n_objects > 0:
            nx, ny = self.object_list[0].bottom_surface.surface.shape
        else:
            nx, ny = 0, 0
        self.object_bottom_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float64)
        self.object_top_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float64)

        for i, obj in enumerate(self.object_list):
            self.object_shift[i] = obj.shift
            self.object_layer_dist[i] = obj.layer_dist
            self.object_normvec_x[i] = obj.normvec_x
            self.object_normvec_y[i] = obj.normvec_y
            self.object_normvec_z[i] = obj.normvec_z
            self.object_bottom_surface_zmean[i] = obj.bottom_surface.zmean
            self.object_dipsets[i] = obj.dipsets
            top_surface = obj.top_surface.surface
            bottom_surface = obj.bottom_surface.surface
            for j in range(nx):
                for k in range(ny):
                    self.object_top_surface[i,j,k] = top_surface[j,k]
                    self.object_bottom_surface[i,j,k] = bottom_surface[j,k]


    def generate_objects(self, grid):


        if self.type_params['lens_thickness'] == -1:
            thickness = self.zmax - self.zmin
        elif self.type_params['size_ztrend'] is not None:
            zfactor = np.interp(np.mean([self.zmin, self.zmax]),
                                [grid.z0, grid.zmax],
                                self.type_params['size_ztrend'])
            thickness = self.type_params['lens_thickness'] * zfactor
        else:
            thickness = self.type_params['lens_thickness']

        zbottom = self.zmax - thickness
        top_surface = self.top_surface
        last_sheet = False
        while not last_sheet:
            if zbottom > self.zmin:
                bottom_surface = ContactSurface(grid, mode='flat', z=zbottom)
                bottom_surface.use_lower_surface_value(top_surface)

                bottom_surface.use_higher_surface_value(self.bottom_surface)

            else:
                last_sheet = True
                bottom_surface = self.bottom_surface

            sheet = Sheet(self.type_params, bottom_surface, top_surface, grid)
            self._add_object(sheet)

            zbottom -= thickness
            top_surface = bottom_surface




    def maybe_assign_points_to_object(self, oi: int,
                                        geo_ids: npt.NDArray[np.int32],
                                        angles: npt.NDArray[np.float64],
                                        x: np.float64, y: np.float64, z: np.float64,
                                        x_idx: int, y_idx: int,
                                        grid: Grid):

        normvec_x = self.object_normvec_x[oi]
        normvec_y = self.object_normvec_y[oi]
        normvec_z = self.object_normvec_z[oi]

        z_above = self.object_top_surface[oi, x_idx, y_idx]
        z_below = self.object_bottom_surface[oi, x_idx, y_idx]
        if z < z_below or z > z_above:
            geo_ids[0] = -1
            return

        angles[0] = self.object_azim[oi]
        angles[1] = self.object_dip[oi]
        geo_ids[2] = self.object_num_ha[oi]
        if self.object_dipsets[oi]:
            d = self.object_normvec_x[oi]*x + self.object_normvec_y[oi]*y + self.object_normvec_z[oi]*z - self.object_shift[oi]
            n = int(d/self.object_layer_dist[oi]) + self.object_num_facies[oi]//2
            geo_ids[0] = self.object_facies_array[oi,n]
            return
        else:
            geo_ids[0] = self.object_facies[oi]
            return
