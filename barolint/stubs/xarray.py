# Model of the parts of xarray used for the exchange of datasets.
# Analysed (never executed) together with the package.
import numpy as np


def _data(x):
    if isinstance(x, DataArray):
        return x.values
    x = np.asarray(x)
    if _is_dates(x):
        return x.astype("datetime64[ns]")
    return x


class _Attrs(dict):
    pass


class Coordinates:

    def __init__(self, owner, items):
        self._owner = owner
        self._items = items

    def __getitem__(self, name):
        if name in self._items:
            return DataArray(*self._owner._variable(name))
        return self._owner._virtual(name)

    def __contains__(self, name):
        return name in self._items

    def __iter__(self):
        return iter(list(self._items))

    def __len__(self):
        return len(self._items)

    def keys(self):
        return list(self._items)

    def values(self):
        return [self[k] for k in self._items]

    def items(self):
        return [(k, self[k]) for k in self._items]

    def get(self, name, default=None):
        return self[name] if name in self._items else default


class DataArray:

    def __init__(self, data, coords=None, dims=None, name=None, attrs=None, _c=None):
        if isinstance(data, DataArray):
            if dims is None:
                dims = data.dims
            if name is None:
                name = data.name
        data = _data(data)
        if dims is None:
            dims = ["dim_%d" % i for i in range(data.ndim)]
        elif isinstance(dims, str):
            dims = [dims]
        if len(dims) != data.ndim:
            raise ValueError
        self._data = data
        self.dims = tuple(dims)
        self.name = name
        self.attrs = {} if attrs is None else {k: attrs[k] for k in attrs}
        # names of coordinates -> (dims, data, attrs)
        self._coords = {} if _c is None else _c
        if coords is not None:
            for k in coords:
                c = coords[k]
                if isinstance(c, tuple):
                    self._coords[k] = ((c[0],) if isinstance(c[0], str) else tuple(c[0]), _data(c[1]), {})
                elif isinstance(c, DataArray):
                    self._coords[k] = (c.dims, c._data, c.attrs)
                else:
                    c = _data(c)
                    self._coords[k] = ((k,) if c.ndim == 1 else (), c, {})

    def _variable(self, name):
        d, x, a = self._coords[name]
        return x, None, d, name, a, {k: self._coords[k] for k in self._coords if _subset(self._coords[k][0], d)}

    def _virtual(self, name):
        if name in self.dims:
            return DataArray(np.arange(self._data.shape[self.dims.index(name)]), None, (name,), name)
        raise KeyError

    @property
    def coords(self):
        return Coordinates(self, self._coords)

    @property
    def indexes(self):
        return {k: self._coords[k][1] for k in self._coords if self._coords[k][0] == (k,)}

    @property
    def values(self):
        if self._data.ndim == 0:
            return _zerodim(self._data)
        return self._data

    @property
    def data(self):
        return self.values

    def to_numpy(self):
        return self.values

    def item(self):
        return self._data.item()

    @property
    def shape(self):
        return self._data.shape

    @property
    def sizes(self):
        return {self.dims[i]: self._data.shape[i] for i in range(len(self.dims))}

    @property
    def ndim(self):
        return self._data.ndim

    @property
    def size(self):
        return self._data.size

    @property
    def dtype(self):
        return self._data.dtype

    def __array__(self, dtype=None):
        return self._data

    def __float__(self):
        return float(self._data)

    def __len__(self):
        return len(self._data)

    def __iter__(self):
        return iter([self[i] for i in range(len(self._data))])

    def __getitem__(self, i):
        if isinstance(i, dict):
            return self.isel(i)
        if isinstance(i, tuple):
            return self.isel({self.dims[k]: i[k] for k in range(len(i))})
        return self.isel({self.dims[0]: i})

    def isel(self, indexers=None, drop=False, **kw):
        indexers = dict(indexers, **kw) if indexers is not None else kw
        for k in indexers:
            if k not in self.dims:
                raise ValueError
        dims, data = _isel(self.dims, self._data, indexers)
        c = {}
        for k in self._coords:
            d, x, a = self._coords[k]
            nd, nx = _isel(d, x, indexers)
            if not (drop and len(d) > len(nd)):
                c[k] = (nd, nx, a)
        return DataArray(data, None, dims, self.name, self.attrs, c)

    def sel(self, indexers=None, method=None, tolerance=None, drop=False, **kw):
        indexers = dict(indexers, **kw) if indexers is not None else kw
        return self.isel({k: self._lookup(k, indexers[k]) for k in indexers}, drop=drop)

    def _lookup(self, k, value):
        if isinstance(value, DataArray):
            value = value.values
        if k not in self._coords:
            if k not in self.dims:
                raise KeyError
            return value
        return _label_index(self._coords[k][1], value)

    def squeeze(self, dim=None, drop=False):
        return self.isel({k: 0 for k in self.dims if self._data.shape[self.dims.index(k)] == 1}, drop=drop)

    def to_dataset(self, dim=None, name=None):
        if name is None:
            name = self.name
        if name is None:
            raise ValueError
        return Dataset({name: (self.dims, self._data)}, {k: (self._coords[k][0], self._coords[k][1]) for k in self._coords})

    def transpose(self, *dims):
        return DataArray(self._data.transpose(*[self.dims.index(d) for d in dims]), None, dims, self.name, self.attrs, self._coords)

    def __sub__(self, other):
        return DataArray(self._data - _data(other), None, self.dims, self.name)

    def __rsub__(self, other):
        return DataArray(_data(other) - self._data, None, self.dims, self.name)

    def __add__(self, other):
        return DataArray(self._data + _data(other), None, self.dims, self.name)

    __radd__ = __add__

    def __mul__(self, other):
        return DataArray(self._data * _data(other), None, self.dims, self.name)

    __rmul__ = __mul__

    def __truediv__(self, other):
        return DataArray(self._data / _data(other), None, self.dims, self.name)

    def __neg__(self):
        return DataArray(-self._data, None, self.dims, self.name)

    def __lt__(self, other):
        return DataArray(self._data < _data(other), None, self.dims, self.name)

    def __le__(self, other):
        return DataArray(self._data <= _data(other), None, self.dims, self.name)

    def __gt__(self, other):
        return DataArray(self._data > _data(other), None, self.dims, self.name)

    def __ge__(self, other):
        return DataArray(self._data >= _data(other), None, self.dims, self.name)

    def __bool__(self):
        return bool(self._data)

    def min(self):
        return DataArray(np.min(self._data), None, ())

    def max(self):
        return DataArray(np.max(self._data), None, ())

    def diff(self, dim):
        return DataArray(np.diff(self._data), None, self.dims, self.name)


def _subset(a, b):
    for x in a:
        if x not in b:
            return False
    return True


def _isel(dims, data, indexers):
    nd, ix = [], []
    for d in dims:
        if d in indexers:
            i = indexers[d]
            ix.append(i)
            if isinstance(i, slice):
                nd.append(d)
        else:
            nd.append(d)
            ix.append(slice(None))
    if len(ix) == 0:
        return tuple(nd), data
    return tuple(nd), np.asarray(data[tuple(ix)])


class Dataset:

    def __init__(self, data_vars=None, coords=None, attrs=None):
        self.attrs = {} if attrs is None else {k: attrs[k] for k in attrs}
        self._vars = {}
        self._cnames = []
        self.sizes = {}
        for items, iscoord in ((coords, True), (data_vars, False)):
            if items is None:
                continue
            for k in items:
                v = items[k]
                if isinstance(v, DataArray):
                    d, x, a = v.dims, v._data, v.attrs
                    for c in v._coords:
                        self._add(c, v._coords[c][0], v._coords[c][1], v._coords[c][2], True)
                elif isinstance(v, tuple):
                    d, x, a = (v[0],) if isinstance(v[0], str) else tuple(v[0]), _data(v[1]), {}
                else:
                    x, a = _data(v), {}
                    d = () if x.ndim == 0 else (k,)
                self._add(k, d, x, a, iscoord)

    def _add(self, k, d, x, a, iscoord):
        if len(d) != x.ndim:
            raise ValueError
        for i in range(len(d)):
            if d[i] in self.sizes:
                if self.sizes[d[i]] != x.shape[i]:
                    raise ValueError
            else:
                self.sizes[d[i]] = x.shape[i]
        self._vars[k] = (d, x, a)
        if (iscoord or d == (k,)) and k not in self._cnames:
            self._cnames.append(k)

    @property
    def dims(self):
        return self.sizes

    def _variable(self, name):
        d, x, a = self._vars[name]
        return x, None, d, name, a, {k: self._vars[k] for k in self._cnames if _subset(self._vars[k][0], d)}

    def _virtual(self, name):
        if name in self.sizes:
            return DataArray(np.arange(self.sizes[name]), None, (name,), name)
        raise KeyError

    def __getitem__(self, name):
        if isinstance(name, list):
            keep = [k for k in self._vars if k in name or k in self._cnames]
            return self._new({k: self._vars[k] for k in keep})
        if name not in self._vars:
            return self._virtual(name)
        return DataArray(*self._variable(name))

    def _new(self, v):
        r = Dataset()
        r.attrs = self.attrs
        for k in v:
            r._add(k, v[k][0], v[k][1], v[k][2], k in self._cnames)
        return r

    @property
    def coords(self):
        return Coordinates(self, {k: self._vars[k] for k in self._cnames})

    @property
    def data_vars(self):
        return {k: self[k] for k in self._vars if k not in self._cnames}

    @property
    def variables(self):
        return {k: self[k] for k in self._vars}

    def __contains__(self, name):
        return name in self._vars

    def __iter__(self):
        return iter([k for k in self._vars if k not in self._cnames])

    def keys(self):
        return [k for k in self._vars if k not in self._cnames]

    def get(self, name, default=None):
        return self[name] if name in self._vars else default

    def __len__(self):
        return len([k for k in self._vars if k not in self._cnames])

    def __bool__(self):
        return len(self) > 0

    def squeeze(self, dim=None, drop=False):
        ix = {k: 0 for k in self.sizes if self.sizes[k] == 1}
        return self.isel(ix, drop=drop)

    def isel(self, indexers=None, drop=False, **kw):
        indexers = dict(indexers, **kw) if indexers is not None else kw
        for k in indexers:
            if k not in self.sizes:
                raise ValueError
        out = {}
        for k in self._vars:
            d, x, a = self._vars[k]
            nd, nx = _isel(d, x, indexers)
            if not (drop and k in self._cnames and len(d) > len(nd)):
                out[k] = (nd, nx, a)
        return self._new(out)

    def sel(self, indexers=None, method=None, tolerance=None, drop=False, **kw):
        indexers = dict(indexers, **kw) if indexers is not None else kw
        ix = {}
        for k in indexers:
            v = indexers[k]
            if isinstance(v, DataArray):
                v = v.values
            ix[k] = _label_index(self._vars[k][1], v) if k in self._vars else v
        return self.isel(ix, drop=drop)

    def drop_vars(self, names):
        if isinstance(names, str):
            names = [names]
        return self._new({k: self._vars[k] for k in self._vars if k not in names})

    def rename(self, names):
        r = Dataset()
        r.attrs = self.attrs
        for k in self._vars:
            d, x, a = self._vars[k]
            r._add(names.get(k, k), tuple(names.get(y, y) for y in d), x, a, k in self._cnames)
        return r

    def assign_coords(self, coords):
        out = {k: self._vars[k] for k in self._vars}
        for k in coords:
            out[k] = ((k,), _data(coords[k]), {})
        return self._new(out)


def concat(objs, dim):
    _unmodelled("xarray.concat")
