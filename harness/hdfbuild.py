"""Writing HDF4 and netCDF files the way the products' own programs lay them out."""
import os

import numpy as np

SD_TYPES = {'i1': 'INT8', 'u1': 'UINT8', 'i2': 'INT16', 'u2': 'UINT16', 'i4': 'INT32', 'f4': 'FLOAT32', 'f8': 'FLOAT64'}


def sdt(t):
    from pyhdf.SD import SDC
    return getattr(SDC, SD_TYPES[t])


def attr_value(at, t, v):
    """one attribute: text, a number or a list of numbers of storage type t"""
    from pyhdf.SD import SDC
    if isinstance(v, str):
        at.set(SDC.CHAR, v)
    elif t[0] == 'f':
        at.set(sdt(t), [float(x) for x in v] if isinstance(v, list) else float(v))
    else:
        at.set(sdt(t), [int(x) for x in v] if isinstance(v, list) else int(v))


class Hdf(object):
    """a new HDF4 file of arrays and tables; some products look for the first table of the file"""
    def __init__(self, path, first=None):
        from pyhdf.SD import SD, SDC
        self.path = path
        self.tables = []
        if first:
            self.table(*first)
            self.write_tables(True)
        self.sd = SD(path, SDC.WRITE if first else SDC.WRITE | SDC.CREATE | SDC.TRUNC)

    def array(self, name, data, t, attrs=(), dims=()):
        """attrs: (name, storage type, value)"""
        data = np.asarray(data, dtype=t)
        s = self.sd.create(name, sdt(t), data.shape)
        for k, d in enumerate(dims):
            s.dim(k).setname(d)
        s[:] = data
        for n, at, v in attrs:
            attr_value(s.attr(n), at, v)
        s.endaccess()

    def attribute(self, name, value):
        attr_value(self.sd.attr(name), 'u1', value)

    def table(self, name, data, t, attrs=(), field=None, order=1):
        self.tables.append((name, data, t, attrs, field or name, order))

    def close(self):
        self.sd.end()
        if self.tables:
            self.write_tables(False)

    def write_tables(self, new):
        from pyhdf.HDF import HDF, HC
        import pyhdf.VS  # noqa
        h = HDF(self.path, HC.WRITE | HC.CREATE | HC.TRUNC if new else HC.WRITE)
        vs = h.vstart()
        for name, data, t, attrs, field, order in self.tables:
            vd = vs.create(name, ((field, getattr(HC, SD_TYPES[t]), order),))
            conv = float if t[0] == 'f' else int
            vd.write([[[conv(y) for y in x]] if order > 1 else [conv(x)] for x in data])
            for n, at, v in attrs:
                a = vd.attr(n)
                c = float if at[0] == 'f' else int
                if isinstance(v, str):
                    a.set(HC.CHAR8, v)
                else:
                    a.set(getattr(HC, SD_TYPES[at]), [c(x) for x in v] if isinstance(v, list) else c(v))
            vd.detach()
        vs.end()
        h.close()
        self.tables = []
