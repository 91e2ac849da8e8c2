"""In-memory stand-in for pyhdf (SD, HDF, VS) used while exploring; concrete replays write and read real HDF4 files."""
import os

import numpy as np
import pyhdf.SD
import pyhdf.HDF
import pyhdf.VS

from .engine import Ctx, Sym
from .trig import SymArray
from . import fakenc

NOTE = ('HDF4 files: an in-memory stand-in for pyhdf (SD datasets with attributes and start/count/stride reads, '
        'Vdatas); concrete replays write and read real files')
FILES = {}
REAL_SD, REAL_HDF = pyhdf.SD.SD, pyhdf.HDF.HDF


class _File(object):
    def __init__(self):
        self.sd, self.vd, self.attrs = {}, {}, {}


def _use(filename):
    return Ctx.current is not None and str(filename) in FILES


class SDS(object):
    def __init__(self, name, entry, idx):
        self.n, self.d, self.a, self.dims, self.idx = name, entry[0], entry[1], entry[2], idx

    def get(self, start=None, count=None, stride=None):
        if start is None and count is None and stride is None:
            return self.d.copy()
        nd = self.d.ndim
        start = list(start) if start is not None else [0] * nd
        stride = list(stride) if stride is not None else [1] * nd
        count = list(count) if count is not None else [1 + (n - s - 1) // t for n, s, t in
                                                       zip(self.d.shape, start, stride)]
        for s, c, t, n in zip(start, count, stride, self.d.shape):
            if s + (c - 1) * t >= n:
                raise pyhdf.error.HDF4Error('SDS get: outside of the dataset')
        return self.d[tuple(slice(s, s + (c - 1) * t + 1, t) for s, c, t in zip(start, count, stride))].copy()

    def __getitem__(self, k):
        return self.d[k].copy()

    def attributes(self, full=0):
        return dict(self.a)

    def info(self):
        sh = list(self.d.shape)
        return self.n, len(sh), (sh if len(sh) > 1 else sh[0]), 6, len(self.a)

    def dimensions(self, full=0):
        return dict(zip(self.dims, self.d.shape))

    def endaccess(self):
        pass


class SD(object):
    def __new__(cls, path, *a, **k):
        return object.__new__(cls) if _use(path) else REAL_SD(path, *a, **k)

    def __init__(self, path, mode=1):
        self.f = FILES[str(path)]

    def datasets(self):
        return dict((n, (e[2], tuple(e[0].shape), 6, i)) for i, (n, e) in enumerate(self.f.sd.items()))

    def select(self, name):
        if isinstance(name, int):
            name = list(self.f.sd)[name]
        if name not in self.f.sd:
            raise pyhdf.error.HDF4Error('select: non-existent dataset')
        return SDS(name, self.f.sd[name], list(self.f.sd).index(name))

    def attributes(self, full=0):
        return dict(self.f.attrs)

    def info(self):
        return len(self.f.sd), len(self.f.attrs)

    def end(self):
        pass


class VD(object):
    def __init__(self, name, entry):
        self._name, self.fields, self.recs, self.a = name, entry[0], entry[1], entry[2]
        self.pick = list(range(len(self.fields)))

    def setfields(self, *names):
        names = names[0].split(',') if len(names) == 1 and isinstance(names[0], str) else names
        self.pick = [self.fields.index(n.strip()) for n in names]

    def inquire(self):
        return len(self.recs), 0, list(self.fields), 8, self._name

    def read(self, nRec=1):
        return [[r[i] for i in self.pick] for r in self.recs[:nRec]]

    def attrinfo(self):
        return dict((k, (6, 1, v, 8)) for k, v in self.a.items())

    def detach(self):
        pass


class VS(object):
    def __init__(self, f):
        self.f = f

    def attach(self, name, write=0):
        if isinstance(name, int):
            name = list(self.f.vd)[name - 2]
        if name not in self.f.vd:
            raise pyhdf.error.HDF4Error('attach: vdata not found')
        return VD(name, self.f.vd[name])

    def next(self, ref):
        return 2 if ref == -1 else ref + 1

    def find(self, name):
        return list(self.f.vd).index(name) + 2

    def vdatainfo(self, listAttr=0):
        return [(n, '', i + 2, getattr(e[1], 'records', None) or len(e[1]), len(e[0]), len(e[2]), 8, 1962, 0) for i, (n, e) in enumerate(self.f.vd.items())]

    def end(self):
        pass


class HDF(object):
    def __new__(cls, path, *a, **k):
        return object.__new__(cls) if _use(path) else REAL_HDF(path, *a, **k)

    def __init__(self, path, mode=1, *a):
        self.f = FILES[str(path)]

    def vstart(self):
        return VS(self.f)

    def close(self):
        pass


def install():
    pyhdf.SD.SD = SD
    pyhdf.HDF.HDF = HDF
    import cis.data_io.hdf_vd as hv
    hv.HDF = HDF
    np.ma.core.default_filler['O'] = 1e20
    for fn in ('array', 'asarray', 'concatenate', 'broadcast_to'):
        orig = getattr(np, fn)

        def wrapped(*a, orig=orig, **k):
            out = orig(*a, **k)
            if Ctx.current is None or out.dtype != object or type(out) is not np.ndarray:
                return out
            if out.size and all(isinstance(v, str) for v in out.flat):
                try:
                    return orig([float(v) for v in out.flat], dtype=object).reshape(out.shape)
                except ValueError:
                    return out
            if any(isinstance(v, Sym) for v in out.flat) and k.get('subok', True):
                return out.view(SymArray)
            return out
        setattr(np, fn, wrapped)


def fresh():
    FILES.clear()
    fakenc.fresh()


def path(name='x'):
    return fakenc.path(name, '.hdf')


def _array(vals):
    shape = np.shape(vals)
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        v = vals
        for j in i:
            v = v[j]
        out[i] = v
    return out


def write(S, path, sd=(), vd=(), attrs=None):
    """sd: [(name, nested values, dims, {attributes}, dtype 'f8'|'i2')]; vd: [(name, {field: values or nested}, {attrs})]
    where a Vdata with one field called like itself has one record per value, and any other has one record holding all
    the values of each of its fields."""
    if S.symbolic:
        f = _File()
        f.attrs.update(attrs or {})
        for name, vals, dims, at, dtype in sd:
            f.sd[name] = (_array(vals).view(SymArray), dict(at), tuple(dims))
        for name, fields, at in vd:
            if list(fields) == [name]:
                f.vd[name] = ([name], [[v] for v in fields[name]], dict(at))
            else:
                f.vd[name] = (list(fields), [[list(v) for v in fields.values()]], dict(at))
        FILES[path] = f
        open(path, 'w').close()
        return path
    from pyhdf.HDF import HC
    from pyhdf.SD import SDC
    if os.path.exists(path):
        os.unlink(path)
    if vd:
        h = REAL_HDF(path, HC.WRITE | HC.CREATE)
        vs = h.vstart()
        for name, fields, at in vd:
            if list(fields) == [name]:
                d = vs.create(name, [(name, HC.FLOAT64, 1)])
                d.write([[float(v)] for v in fields[name]])
            else:
                d = vs.create(name, [(k, HC.FLOAT64, len(v)) for k, v in fields.items()])
                d.write([[[float(x) for x in v] if len(v) > 1 else float(v[0]) for v in fields.values()]])
            for k, v in at.items():
                if isinstance(v, str):
                    d.attr(k).set(HC.CHAR8, v)
                else:
                    d.attr(k).set(HC.FLOAT64, [float(x) for x in v] if isinstance(v, (list, tuple)) else float(v))
            d.detach()
        vs.end()
        h.close()
    if sd:
        s = REAL_SD(path, SDC.WRITE | (0 if vd else SDC.CREATE))
        for k, v in (attrs or {}).items():
            s.attr(k).set(SDC.CHAR, v)
        for name, vals, dims, at, dtype in sd:
            arr = np.array(vals, dtype=dtype or 'f8')
            d = s.create(name, {'f8': SDC.FLOAT64, 'i2': SDC.INT16}[dtype or 'f8'], arr.shape)
            for i, n in enumerate(dims):
                d.dim(i).setname(n)
            d[:] = arr
            for k, v in at.items():
                if isinstance(v, str):
                    d.attr(k).set(SDC.CHAR, v)
                elif k in ('_FillValue', 'fillvalue', 'missing', 'valid_range') and dtype == 'i2':
                    d.attr(k).set(SDC.INT16, [int(x) for x in v] if isinstance(v, (list, tuple)) else int(v))
                else:
                    d.attr(k).set(SDC.FLOAT64, [float(x) for x in v] if isinstance(v, (list, tuple)) else float(v))
            d.endaccess()
        s.end()
    return path


class Sized(list):
    """an array or records of which only the (symbolic) sizes are known"""
    def __init__(self, shape):
        list.__init__(self)
        self.shape, self.records = tuple(shape), shape[0]


def sizes(S, path, sd=(), vd=()):
    """a file of which only the sizes matter.  sd: [(name, sizes, dims)], vd: [(name, size)]; sizes may be symbolic"""
    if not S.symbolic:
        def zeros(shape):
            return np.zeros([int(n) for n in shape]).tolist()
        return write(S, path, [(n, zeros(sh), dims, {}, None) for n, sh, dims in sd],
                     [(n, {n: zeros((k,))} if not isinstance(k, list) else {n + 's': zeros((len(k),))}, {}) for n, k in vd])
    f = _File()
    for n, sh, dims in sd:
        f.sd[n] = (Sized(sh), {}, tuple(dims))
    for n, k in vd:
        f.vd[n] = ([n], Sized((k,)), {}) if not isinstance(k, list) else ([n + 's'], [[[0.] * len(k)]], {})
    FILES[path] = f
    open(path, 'w').close()
    return path
