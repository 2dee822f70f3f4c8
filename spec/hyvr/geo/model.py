import numpy as np
import hyvr.utils as hu
import hyvr.optimized as ho
from hyvr.geo.contact_surface import ContactSurface
from hyvr.geo.stratum import Stratum
from hyvr.geo.ae_types import AEType
from hyvr.geo.grid import Grid

class Model:

    def __init__(self, model_dict, strata_dict, elements, flowtrans_section):
        self.grid = Grid(model_dict['x0'], model_dict['y0'], model_dict['z0'], model_dict['dx'], model_dict['dy'], model_dict['dz'], model_dict['lx'], model_dict['ly'], model_dict['lz'], model_dict['periodic'])
        self.generate_ae_types(elements)
        self.strata_dict = strata_dict
        self.generate_anisotropy = model_dict['anisotropy']
        self.generate_hydraulics = model_dict['hydraulics']
        self.generate_heterogeneity = model_dict['heterogeneity']
        self.heterogeneity_level = model_dict['heterogeneity_level']
        self.flowtrans = flowtrans_section
        self.data = {}

    def generate_ae_types(self, elements):
        self.ae_types = {}
        for elem in elements:
            self.ae_types[elem] = AEType(elements[elem], elem)

    def generate_model(self):
        hu.print_to_stdout('Generating model...')
        strata_dict = self.strata_dict
        self.strata = []
        self.n_strata = len(strata_dict['strata'])
        param_names = ['bg_facies', 'bg_azim', 'bg_dip', 'ae_prob', 'ae_z_mean', 'avul', 'avul_prob', 'strata']
        top_surface = ContactSurface(self.grid, mode='flat', z=self.grid.zmax)
        for si in range(self.n_strata):
            if si == self.n_strata - 1:
                bottom_surface = ContactSurface(self.grid, mode='flat', z=self.grid.z0)
            else:
                bottom_surface = ContactSurface(self.grid, **strata_dict['contact_models'][-1 - si])
            bottom_surface.use_lower_surface_value(top_surface)
            stratum_params = {name: strata_dict[name][-1 - si] for name in param_names}
            ae_types = [self.ae_types[ae_type] for ae_type in strata_dict['ae_in_strata'][-1 - si]]
            stratum = Stratum(bottom_surface, top_surface, stratum_params, ae_types, self.grid)
            self.strata.append(stratum)
            top_surface = bottom_surface
        self.strata_zmins = np.array([stratum.zmin for stratum in self.strata])
        self.strata_zmaxs = np.array([stratum.zmax for stratum in self.strata])
        num_ae = 0
        num_ha = 0
        for stratum in self.strata:
            for ae in stratum.aes:
                ae.num = num_ae
                num_ae += 1
                for oi, obj in enumerate(ae.object_list):
                    obj.num_ha = num_ha
                    ae.object_num_ha[oi] = num_ha
                    num_ha += 1

    def generate_hydraulic_parameters(self, hydraulics):
        hu.print_to_stdout('Generating hydraulic parameters')
        het = self.generate_heterogeneity
        ha_arr = self.data['ha']
        fac = self.data['facies']
        ae_arr = self.data['ae']
        azim = self.data['azim']
        dip = self.data['dip']
        self.data['k_iso'] = np.zeros((self.grid.nx, self.grid.ny, self.grid.nz), dtype=np.float64)
        self.data['poros'] = np.zeros((self.grid.nx, self.grid.ny, self.grid.nz), dtype=np.float64)
        self.data['anirat'] = np.ones((self.grid.nx, self.grid.ny, self.grid.nz), dtype=np.float64)
        k_iso = self.data['k_iso']
        poros = self.data['poros']
        anirat = self.data['anirat']
        if het:
            for mi in np.unique(ha_arr):
                for fi in np.unique(fac[ha_arr == mi]):
                    mifi = (ha_arr == mi) & (fac == fi)
                    if self.heterogeneity_level == 'internal':
                        k_flat = hu.specsim(self.grid, hydraulics['sig_y'][fi], hydraulics['ycorlengths'][fi], covmod='exp', selection_mask=mifi)
                        k_flat = np.exp(k_flat) * hydraulics['k_h'][fi]
                        k_iso[mifi] = k_flat
                        n_flat = hu.specsim(self.grid, hydraulics['sig_n'][fi], hydraulics['ncorlengths'][fi], covmod='exp', selection_mask=mifi) + hydraulics['n'][fi]
                        poros[mifi] = n_flat
                    elif self.heterogeneity_level == 'facies':
                        k_iso[mifi] = hydraulics['k_h'][fi]
                        poros[mifi] = hydraulics['n'][fi]
                    anirat[mifi] = hydraulics['k_ratio'][fi]
            ' Assign background heterogeneity per architectural element '
            if self.heterogeneity_level == 'internal':
                for stratum in self.strata:
                    for ae in stratum.aes:
                        m0 = ha_arr == -1
                        ms = ae_arr == ae.num
                        ae_mask = m0 & ms
                        if np.all(ae_mask == False):
                            continue
                        ae_bg_facies = ae.bg_facies
                        k_ae_flat = hu.specsim(self.grid, hydraulics['sig_y'][ae_bg_facies], hydraulics['ycorlengths'][ae_bg_facies], covmod='exp', selection_mask=ae_mask)
                        k_ae_flat = np.exp(k_ae_flat) * hydraulics['k_h'][ae_bg_facies]
                        k_iso[ae_mask] = k_ae_flat
                        n_flat = hu.specsim(self.grid, hydraulics['sig_n'][ae_bg_facies], hydraulics['ncorlengths'][ae_bg_facies], covmod='exp', selection_mask=ae_mask)
                        n_flat = n_flat + hydraulics['n'][ae_bg_facies]
                        poros[ae_mask] = n_flat
                        anirat[ae_mask] = hydraulics['k_ratio'][ae_bg_facies]
                ' Assign architectural element trends to the cells of the element '
                for stratum in self.strata:
                    for ae in stratum.aes:
                        ms = ae_arr == ae.num
                        for name, values in [('k', k_iso), ('n', poros)]:
                            if ae.type_params[name + '_ztrend'] is not None:
                                zf_vec = np.linspace(*ae.type_params[name + '_ztrend'], self.grid.nz)
                                values[ms] *= np.broadcast_to(zf_vec, values.shape)[ms]
                            if ae.type_params[name + '_xtrend'] is not None:
                                xf_vec = np.linspace(*ae.type_params[name + '_xtrend'], self.grid.nx)
                                values[ms] *= np.broadcast_to(xf_vec[:, np.newaxis, np.newaxis], values.shape)[ms]
                ' Assign trends to hydraulic parameters globally '
                if hydraulics['k_ztrend'] is not None:
                    zf_vec = np.linspace(*hydraulics['k_ztrend'], self.grid.nz)
                    k_iso *= zf_vec
                if hydraulics['k_xtrend'] is not None:
                    xf_vec = np.linspace(*hydraulics['k_xtrend'], self.grid.nx)
                    k_iso *= xf_vec[:, np.newaxis, np.newaxis]
                if hydraulics['n_ztrend'] is not None:
                    zf_vec = np.linspace(*hydraulics['n_ztrend'], self.grid.nz)
                    poros *= zf_vec
                if hydraulics['n_xtrend'] is not None:
                    xf_vec = np.linspace(*hydraulics['n_xtrend'], self.grid.nx)
                    poros *= xf_vec[:, np.newaxis, np.newaxis]
        else:
            for hy_idx, hyi in enumerate(hydraulics['hydrofacies']):
                hyi = hy_idx
                k_iso[fac == hyi] = hydraulics['k_h'][hy_idx]
                poros[fac == hyi] = hydraulics['n'][hy_idx]
                anirat[fac == hyi] = hydraulics['k_ratio'][hy_idx]
        self.data['ktensors'] = np.zeros((self.grid.nx, self.grid.ny, self.grid.nz, 3, 3), dtype=np.float64)
        ho.set_anisotropic_ktensor(self.data['ktensors'], k_iso, azim * np.pi / 180, dip * np.pi / 180, anirat)

    def print_model(self):
        print('Number of strata:', self.n_strata)
        print()
        print('====================================')
        print()
        for si in range(self.n_strata):
            print('Stratum:', self.strata[si].name)
            print('number of AEs:', self.strata[si].n_ae)
            print('zmin:', self.strata[si].zmin)
            print('zmax:', self.strata[si].zmax)
            print('---------------------------')
            for aei in range(self.strata[si].n_ae):
                print('AE:', self.strata[si].aes[aei].type_name)
                print('number of objects:', self.strata[si].aes[aei].n_objects)
                print('zmin', self.strata[si].aes[aei].zmin)
                print('zmax', self.strata[si].aes[aei].zmax)
                print('object_zmins:')
                print(self.strata[si].aes[aei].object_zmins)
                print('object_zmaxs:')
                print(self.strata[si].aes[aei].object_zmaxs)
                print()
            print()
            print('====================================')
            print()
