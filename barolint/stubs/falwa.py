# Interface of falwa.barotropic_field.BarotropicField as used for the exchange of fields.
import numpy as np


class BarotropicField:

    def __init__(self, xlon, ylat, pv_field, **kwargs):
        self.xlon = xlon
        self.ylat = ylat
        self.pv_field = pv_field
        self.kwargs = kwargs
        self.nlon = xlon.size
        self.nlat = ylat.size
        self.dphi = np.deg2rad((ylat[1:] - ylat[:-1]))
