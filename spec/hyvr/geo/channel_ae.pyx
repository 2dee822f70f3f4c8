
import numpy as np
from hyvr.geo.channel_utils import ferguson_curve
from hyvr.geo.channel import Channel

cimport cython
cimport numpy as np
from libc.math cimport sqrt, atan2
from hyvr.geo.ae_realization cimport AERealization


cdef class ChannelAE(AERealization):

    @cython.boundscheck(False)
    @cython.wraparound(False)
    cpdef create_object_arrays(self):
        cdef int i, nx, ny, j, k, max_len_centerline
        self.object_a = np.zeros(self.n_objects, dtype=np.float64)
        self.object_width = np.zeros(self.n_objects, dtype=np.float64)
        self.object_depth = np.zeros(self.n_objects, dtype=np.float64)
        self.object_min_dx_dy = np.zeros(self.n_objects, dtype=np.float64)
        self.object_len_centerline = np.zeros(self.n_objects, dtype=np.int32)
        self.object_ztop = np.zeros(self.n_objects, dtype=np.float64)
        self.object_sin_dip = np.zeros(self.n_objects, dtype=np.float64)
        self.object_cos_dip = np.zeros(self.n_objects, dtype=np.float64)
        self.object_shift = np.zeros(self.n_objects, dtype=np.float64)
        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float64)
        self.object_lag_height = np.zeros(self.n_objects, dtype=np.float64)
        self.object_lag_facies = np.zeros(self.n_objects, dtype=np.int32)
        self.object_dipsets = np.zeros(self.n_objects, dtype=np.int32)

        if self.n_objects > 0:
            nx, ny = self.object_list[0].dont_check.shape
        else:
            nx, ny = 0, 0
        self.object_dont_check = np.zeros((self.n_objects, nx, ny), dtype=np.int32)

        for i, obj in enumerate(self.object_list):
            self.object_a[i] = obj.a
            self.object_width[i] = obj.width
            self.object_depth[i] = obj.depth
            self.object_min_dx_dy[i] = obj.min_dx_dy
            self.object_len_centerline[i] = obj.len_centerline
            self.object_ztop[i] = obj.ztop
            self.object_sin_dip[i] = obj.sin_dip
            self.object_cos_dip[i] = obj.cos_dip
            self.object_shift[i] = obj.shift
            self.object_layer_dist[i] = obj.layer_dist
            self.object_lag_height[i] = obj.lag_height
            self.object_lag_facies[i] = obj.lag_facies
            self.object_dipsets[i] = obj.dipsets
            for j in range(nx):
                for k in range(ny):
                    self.object_dont_check[i,j,k] = obj.dont_check[j,k]

        if self.n_objects > 0:
            max_len_centerline = np.max(self.object_len_centerline)
        else:
            max_len_centerline = 0
        self.object_x_center = np.zeros((self.n_objects, max_len_centerline), dtype=np.float64)
        self.object_y_center = np.zeros((self.n_objects, max_len_centerline), dtype=np.float64)
        self.object_vx = np.zeros((self.n_objects, max_len_centerline), dtype=np.float64)
        self.object_vy = np.zeros((self.n_objects, max_len_centerline), dtype=np.float64)

        for i, obj in enumerate(self.object_list):
            for j in range(self.object_len_centerline[i]):
                self.object_x_center[i,j] = obj.x_center[j]
                self.object_y_center[i,j] = obj.y_center[j]
                self.object_vx[i,j] = obj.vx[j]
                self.object_vy[i,j] = obj.vy[j]


    def generate_objects(self, grid):

        n_channels = self.type_params['channel_no']

        flow_angle = self.type_params['flow_angle']*np.pi/180
        domain_width = np.abs(grid.lx * np.sin(flow_angle)) + np.abs(grid.ly * np.cos(flow_angle))
        domain_length = np.abs(grid.lx * np.cos(flow_angle)) + np.abs(grid.ly * np.sin(flow_angle))
        ystart = np.random.uniform(-domain_width/2, domain_width/2, n_channels)


        dz = self.type_params['agg']
        if self.type_params['size_ztrend'] is not None:
            z = 0.5*(self.top_surface.zmean + self.bottom_surface.zmean)
            zfactor = np.interp(z, [grid.z0, grid.zmax], self.type_params['size_ztrend'])
        else:
            zfactor = 1
        depth = self.type_params['depth'] * zfactor
        zbottom = self.bottom_surface.zmean + depth*self.type_params['buffer']
        ztop = self.top_surface.zmean

        z = ztop - dz
        while z > zbottom:


            if self.type_params['size_ztrend'] is not None:
                zfactor = np.interp(z, [grid.z0, grid.zmax], self.type_params['size_ztrend'])
            else:
                zfactor = 1
            width = self.type_params['width'] * zfactor
            depth = self.type_params['depth'] * zfactor

            for i in range(n_channels):
                ystart_grid = (grid.y0 + grid.ymax)/2 - (domain_length+width)/2 * np.sin(flow_angle) + ystart[i] * np.cos(flow_angle)
                xstart_grid = (grid.x0 + grid.xmax)/2 - (domain_length+width)/2 * np.cos(flow_angle) - ystart[i] * np.sin(flow_angle)
                outputs = ferguson_curve(grid,
                                         self.type_params['h'],
                                         self.type_params['k'],
                                         self.type_params['ds'],
                                         self.type_params['eps_factor'],
                                         flow_angle,
                                         domain_length,
                                         xstart_grid,
                                         ystart_grid,
                                         width,
                )
                x_center = outputs[:,0]
                y_center = outputs[:,1]
                vx = outputs[:,2]
                vy = outputs[:,3]


                channel = Channel(self.type_params, x_center, y_center, vx, vy, z, width, depth, grid)
                self._add_object(channel)

                if self.type_params['mig'] is not None:
                    ystart[i] -= np.random.uniform(-self.type_params['mig'], self.type_params['mig'])

            z -= dz



    @cython.boundscheck(False)
    @cython.wraparound(False)
    @cython.nonecheck(False)
    @cython.cdivision(True)
    cpdef maybe_assign_points_to_object(self, int oi,
                                        np.int32_t [:] geo_ids,
                                        np.float_t [:] angles,
                                        np.float_t x, np.float_t y, np.float_t z,
                                        int x_idx, int y_idx,
                                        Grid grid):
        cdef double xy_dist, dz, radius, dist, weight, sum_weights, vx_now, vy_now
        cdef double dist_along_curve, dist_along_curve_tmp
        cdef int nx, ny, i, j, n, closest_idx


        dz = z - self.object_ztop[oi]
        if dz > 0:
            geo_ids[0] = -1
            return


        if self.object_dont_check[oi,x_idx, y_idx]:
            geo_ids[0] = -1
            return


        sum_weights = 0
        vx_now = 0
        vy_now = 0
        dist_along_curve_tmp = 0
        dist_along_curve = 0
        xy_dist = 1e100
        if self.object_dipsets[oi]:
            for i in range(self.object_len_centerline[oi]):
                if i > 0:
                    dist_along_curve_tmp += sqrt((self.object_x_center[oi,i] - self.object_x_center[oi,i-1])**2
                                                +(self.object_y_center[oi,i] - self.object_y_center[oi,i-1])**2
                    )
                dist = sqrt((x - self.object_x_center[oi,i])**2 + (y - self.object_y_center[oi,i])**2)
                weight = 1/(dist + 1e-20)
                vx_now += self.object_vx[oi,i] * weight
                vy_now += self.object_vy[oi,i] * weight
                sum_weights += weight
                if dist < xy_dist:
                    dist_along_curve = dist_along_curve_tmp
                    xy_dist = dist
                    closest_idx = i
            vx_now /= sum_weights
            vy_now /= sum_weights
        else:
            for i in range(self.object_len_centerline[oi]):
                dist = (x - self.object_x_center[oi,i])**2 + (y - self.object_y_center[oi,i])**2
                if dist < xy_dist:
                    xy_dist = dist
            xy_dist = sqrt(xy_dist)


        radius = xy_dist - self.object_width[oi]
        if radius > self.object_min_dx_dy[oi]:
            nx = int(radius/grid.dx)
            for i in range(nx):
                if x_idx-i >= 0 and x_idx+i < grid.nx:
                    ny = int(sqrt(radius**2 - (i*grid.dx)**2)/grid.dy)
                    for j in range(ny):
                        if y_idx-j >= 0 and y_idx+j < grid.ny:
                            self.object_dont_check[oi,x_idx+i, y_idx+j] = 1
                            self.object_dont_check[oi,x_idx+i, y_idx-j] = 1
                            self.object_dont_check[oi,x_idx-i, y_idx+j] = 1
                            self.object_dont_check[oi,x_idx-i, y_idx-j] = 1

        if dz >= self.object_a[oi]*xy_dist**2 - self.object_depth[oi]:
            geo_ids[2] = self.object_num_ha[oi]
            if z < self.object_ztop[oi] - self.object_depth[oi] + self.object_lag_height[oi]:
                angles[0] = 0
                angles[1] = 0
                geo_ids[0] = self.object_lag_facies[oi]
                return

            if self.object_dipsets[oi]:
                angles[0] = atan2(vy_now, vx_now)/np.pi*180
                angles[1] = self.object_dip[oi]

                d = dist_along_curve * self.object_sin_dip[oi] + dz*self.object_cos_dip[oi] + self.object_shift[oi]
                n = int((d + self.object_depth[oi])/self.object_layer_dist[oi])
                geo_ids[0] = self.object_facies_array[oi,n]
                return
            else:
                angles[0] = self.object_azim[oi]
                angles[1] = self.object_dip[oi]
                geo_ids[0] = self.object_facies[oi]
                return

        else:
            self.object_dont_check[oi,x_idx, y_idx] = 1
            geo_ids[0] = -1
            return