# Model of pyspharm: spherical harmonic transforms as opaque linear operators.
# Analysed (never executed) together with the package.


def _shape2(field, nlat, nlon):
    shape = field.shape
    if len(shape) != 2:
        raise ValueError
    if shape[0] != nlat or shape[1] != nlon:
        raise ValueError


class Spharmt:

    def __init__(self, nlon, nlat, rsphere=6.3712e6, gridtype="regular", legfunc="stored"):
        if gridtype != "regular" and gridtype != "gaussian":
            raise ValueError
        if legfunc != "stored" and legfunc != "computed":
            raise ValueError
        if nlat < 3 or nlon < 4:
            raise ValueError
        self.nlon = nlon
        self.nlat = nlat
        self.rsphere = rsphere
        self.gridtype = gridtype
        self.legfunc = legfunc

    def grdtospec(self, datagrid, ntrunc=None):
        _shape2(datagrid, self.nlat, self.nlon)
        if ntrunc is None:
            ntrunc = self.nlat - 1
        if ntrunc < 0 or ntrunc + 1 > self.nlat:
            raise ValueError
        return _linop("grdtospec", datagrid, (_triangle(ntrunc),), "c8", self.gridtype)

    def spectogrd(self, dataspec):
        if len(dataspec.shape) != 1:
            raise ValueError
        return _linop("spectogrd", dataspec, (self.nlat, self.nlon), "f4", self.gridtype)

    def getvrtdivspec(self, ugrid, vgrid, ntrunc=None):
        if ugrid.shape != vgrid.shape:
            raise ValueError
        _shape2(ugrid, self.nlat, self.nlon)
        if ntrunc is None:
            ntrunc = self.nlat - 1
        if ntrunc < 0 or ntrunc + 1 > self.nlat:
            raise ValueError
        m = (_triangle(ntrunc),)
        vrt = _linop("vrt_u", ugrid, m, "c8", self.gridtype) + _linop("vrt_v", vgrid, m, "c8", self.gridtype)
        div = _linop("div_u", ugrid, m, "c8", self.gridtype) + _linop("div_v", vgrid, m, "c8", self.gridtype)
        return vrt / self.rsphere, div / self.rsphere

    def getuv(self, vrtspec, divspec):
        if vrtspec.shape != divspec.shape:
            raise ValueError
        if len(vrtspec.shape) != 1:
            raise ValueError
        s = (self.nlat, self.nlon)
        u = _linop("u_vrt", vrtspec, s, "f4", self.gridtype) + _linop("u_div", divspec, s, "f4", self.gridtype)
        v = _linop("v_vrt", vrtspec, s, "f4", self.gridtype) + _linop("v_div", divspec, s, "f4", self.gridtype)
        return u * self.rsphere, v * self.rsphere

    def getgrad(self, chispec):
        if len(chispec.shape) != 1:
            raise ValueError
        s = (self.nlat, self.nlon)
        return (_linop("grad_x", chispec, s, "f4", self.gridtype) / self.rsphere,
                _linop("grad_y", chispec, s, "f4", self.gridtype) / self.rsphere)


def getspecindx(ntrunc):
    return _specindx("m", ntrunc), _specindx("n", ntrunc)
