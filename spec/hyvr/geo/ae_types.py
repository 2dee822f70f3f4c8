from hyvr.geo.ae_realization import AERealization
from hyvr.geo.sheet_ae import SheetAE
from hyvr.geo.channel_ae import ChannelAE
from hyvr.geo.trough_ae import TroughAE

class AEType:

    def __init__(self, ae_section, name):
        self.params = ae_section
        self.geometry = ae_section['geometry']
        self.name = name
        if self.params['structure'] == 'flat':
            self.params['structure'] = 'massive'

    def generate_realization(self, bottom_surface, top_surface, stratum, grid):
        if self.geometry == 'trough':
            return TroughAE(bottom_surface, top_surface, self.name, self.params, stratum, grid)
        elif self.geometry == 'channel':
            return ChannelAE(bottom_surface, top_surface, self.name, self.params, stratum, grid)
        elif self.geometry == 'sheet':
            return SheetAE(bottom_surface, top_surface, self.name, self.params, stratum, grid)
        else:
            raise ValueError('No such geometry in ' + self.name + ': ' + self.geometry)
