import numpy as np
import hyvr.optimized as ho
import hyvr.utils as hu
from hyvr.geo.contact_surface import ContactSurface

def prob_choose(types, probs):
    return np.random.choice(types, p=np.asarray(probs) / np.sum(probs))

class Stratum:

    def __init__(self, bottom_surface, top_surface, params, ae_types, grid):
        self.bottom_surface = bottom_surface
        self.top_surface = top_surface
        self.params = params
        self.name = params['strata']
        self.ae_types = ae_types
        self.ae_type_names = [ae_type.name for ae_type in ae_types]
        self.bg_facies = params['bg_facies']
        self.bg_azim = params['bg_azim']
        self.bg_dip = params['bg_dip']
        self.zmin = self.bottom_surface.zmin
        self.zmax = self.top_surface.zmax
        self.ae_zmins = []
        self.ae_zmaxs = []
        self.aes = []
        ae_top_surface = self.top_surface
        curr_ae_type = prob_choose(self.ae_types, self.params['ae_prob'])
        znow = self.top_surface.zmean
        while znow > self.bottom_surface.zmean:
            num_type = self.ae_type_names.index(curr_ae_type.name)
            hu.print_to_stdout('Generating', curr_ae_type.name, 'from {:2.3f} m'.format(znow))
            mean_height = self.params['ae_z_mean'][num_type]
            height = np.random.normal(mean_height, mean_height * 0.1)
            if np.random.uniform() <= self.params['avul_prob'][0]:
                dz = -np.random.uniform(*self.params['avul'])
            else:
                dz = 0
            znow -= height + dz
            next_ae_type = prob_choose(self.ae_types, self.params['ae_prob'])
            if znow <= self.bottom_surface.zmean:
                znow = self.bottom_surface.zmean
                ae_bottom_surface = self.bottom_surface
            else:
                bottom_surface_params = next_ae_type.params['contact_model']
                bottom_surface_params['z'] = znow
                ae_bottom_surface = ContactSurface(grid, **bottom_surface_params)
            ae_bottom_surface.use_lower_surface_value(ae_top_surface)
            ae_bottom_surface.use_higher_surface_value(self.bottom_surface)
            element = curr_ae_type.generate_realization(ae_bottom_surface, ae_top_surface, self, grid)
            self.aes.append(element)
            ae_zmin = element.zmin
            if ae_zmin < self.zmin:
                self.zmin = ae_zmin
            self.ae_zmins.append(ae_zmin)
            ae_zmax = element.zmax
            if ae_zmax > self.zmax:
                self.zmax = ae_zmax
            self.ae_zmaxs.append(ae_zmax)
            ae_top_surface = ae_bottom_surface
            curr_ae_type = next_ae_type
        self.n_ae = len(self.aes)
        self.ae_zmaxs = np.array(self.ae_zmaxs)
        self.ae_zmins = np.array(self.ae_zmins)
