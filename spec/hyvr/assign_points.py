import sys
import numpy as np
import numpy.typing as npt
import hyvr.utils as hu
from hyvr.geo.grid import Grid
from hyvr.geo.ae_realization import AERealization
from hyvr.geo.sheet_ae import SheetAE

def assign_points(model):
    nx = model.grid.nx
    ny = model.grid.ny
    nz = model.grid.nz
    gridX = model.grid.X
    gridY = model.grid.Y
    gridz = model.grid.z
    n_strata = model.n_strata
    strata_zmins = model.strata_zmins
    hu.print_to_stdout('Assigning parameters to grid cells:')
    facies_array = np.zeros((nx, ny, nz), dtype=np.int32)
    strata_array = np.zeros((nx, ny, nz), dtype=np.int32)
    ae_array = -1 * np.ones((nx, ny, nz), dtype=np.int32)
    ha_array = -1 * np.ones((nx, ny, nz), dtype=np.int32)
    hat_array = -1 * np.ones((nx, ny, nz), dtype=np.int32)
    azim_array = np.zeros((nx, ny, nz), dtype=np.float64)
    dip_array = np.zeros((nx, ny, nz), dtype=np.float64)
    geo_ids = np.empty(4, dtype=np.int32)
    angles = np.empty(2, dtype=np.float64)
    total_n = nx * ny
    for loop_idx in range(total_n):
        x_idx = loop_idx // ny
        y_idx = loop_idx % ny
        x = gridX[x_idx, y_idx, 0]
        y = gridY[x_idx, y_idx, 0]
        si = 0
        aei = 0
        oi = 0
        for z_idx in range(nz - 1, -1, -1):
            z = gridz[z_idx]
            geo_ids[0] = -1
            angles[0] = np.nan
            angles[1] = np.nan
            geo_ids[1] = -1
            geo_ids[2] = -1
            geo_ids[3] = -1
            while si < n_strata:
                if z < strata_zmins[si]:
                    si += 1
                    aei = 0
                    oi = 0
                    continue
                else:
                    stratum = model.strata[si]
                    aei, oi = maybe_assign_points_to_stratum(stratum.aes, stratum.n_ae, stratum.ae_zmaxs, stratum.ae_zmins, geo_ids, angles, x, y, z, x_idx, y_idx, aei, oi, model.grid)
                    if geo_ids[0] != -1:
                        facies_array[x_idx, y_idx, z_idx] = geo_ids[0]
                        azim_array[x_idx, y_idx, z_idx] = angles[0]
                        dip_array[x_idx, y_idx, z_idx] = angles[1]
                        ae_array[x_idx, y_idx, z_idx] = geo_ids[1]
                        ha_array[x_idx, y_idx, z_idx] = geo_ids[2]
                        hat_array[x_idx, y_idx, z_idx] = geo_ids[3]
                        strata_array[x_idx, y_idx, z_idx] = si
                        break
                    else:
                        si += 1
                        aei = 0
                        oi = 0
                        continue
            if si == n_strata:
                print('Warning: Something went wrong: Cell can not be assigned to any stratum')
    model.data['facies'] = np.asarray(facies_array)
    model.data['azim'] = np.asarray(azim_array)
    model.data['dip'] = np.asarray(dip_array)
    model.data['strata'] = np.asarray(strata_array)
    model.data['ae'] = np.asarray(ae_array)
    model.data['ha'] = np.asarray(ha_array)
    model.data['hat'] = np.asarray(hat_array)
    hu.print_to_stdout('Done  ')

def maybe_assign_points_to_stratum(stratum_aes: list, n_ae: int, ae_zmaxs: npt.NDArray[np.float64], ae_zmins: npt.NDArray[np.float64], geo_ids: npt.NDArray[np.int32], angles: npt.NDArray[np.float64], x: float, y: float, z: float, x_idx: int, y_idx: int, aei: int, oi: int, grid: Grid):
    oi_orig = int(oi)
    aei_orig = int(aei)
    while aei < n_ae:
        if z < ae_zmins[aei]:
            oi = 0
            aei += 1
            continue
        else:
            oi = maybe_assign_points_to_ae(stratum_aes[aei], geo_ids, angles, x, y, z, x_idx, y_idx, oi, grid)
            if geo_ids[0] != -1:
                return (aei, oi)
            else:
                aei += 1
                oi = 0
                continue
    geo_ids[0] = -1
    return (0, 0)

def maybe_assign_points_to_ae(ae: AERealization, geo_ids: npt.NDArray[np.int32], angles: npt.NDArray[np.float64], x: float, y: float, z: float, x_idx: int, y_idx: int, oi: int, grid: Grid):
    oi_orig = int(oi)
    n_objects = ae.n_objects
    object_zmaxs = ae.object_zmaxs
    object_zmins = ae.object_zmins
    top_surface = ae.top_surface.surface
    bottom_surface = ae.bottom_surface.surface
    while oi < n_objects:
        if z > object_zmaxs[oi]:
            break
        elif z < object_zmins[oi]:
            oi += 1
            continue
        else:
            ae.maybe_assign_points_to_object(oi, geo_ids, angles, x, y, z, x_idx, y_idx, grid)
            if geo_ids[0] != -1:
                geo_ids[1] = ae.num
                geo_ids[3] = ae.type_id
                return oi
            else:
                oi += 1
                continue
    if isinstance(ae, SheetAE):
        return 0
    z_above = top_surface[x_idx, y_idx]
    z_below = bottom_surface[x_idx, y_idx]
    if z_below <= z and z <= z_above:
        geo_ids[0] = ae.bg_facies
        angles[0] = ae.bg_azim
        angles[1] = ae.bg_dip
        geo_ids[1] = ae.num
        geo_ids[3] = ae.type_id
        return oi_orig
    else:
        return 0
