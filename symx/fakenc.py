"""In-memory stand-in for the netCDF4 library used while exploring (concrete replays use the real library and real
files).  It keeps the documented behaviour of netCDF4.Variable: automatic masking of _FillValue, missing_value and of
numeric valid_min / valid_max / valid_range (set_auto_mask), automatic (un)packing with scale_factor and add_offset
(set_auto_scale), filling of masked values on writing."""
import os
import sys

import numpy as np
import netCDF4

from .engine import Ctx, Sym

NOTE = ('netCDF4 files: an in-memory stand-in with the documented automatic masking / scaling / filling of netCDF4 '
        '(concrete replays write and read real files)')
FILES = {}
REAL = netCDF4.Dataset
DEFAULT_FILL = 9.969209968386869e36


def _number(v):
    return isinstance(v, (Sym, int, float, np.number)) and not isinstance(v, bool)


class Variable(object):
    """of one variable of a FakeFile"""

    def __init__(self, name, raw, dims, attrs, dtype):
        d = self.__dict__
        d['_n'], d['_raw'], d['dimensions'], d['_attrs'], d['dtype'] = name, raw, tuple(dims), dict(attrs), dtype
        d['mask'] = d['scale'] = True

    def __setattr__(self, k, v):
        if k == '_FillValue':
            raise AttributeError('_FillValue can only be set on creation')
        if k in ('mask', 'scale'):
            raise AttributeError('read only')
        self._attrs[k] = v

    def __getattr__(self, k):
        if k.startswith('__') or k not in self._attrs:
            raise AttributeError('NetCDF: Attribute not found: ' + k)
        return self._attrs[k]

    setncattr = __setattr__

    def getncattr(self, k):
        return self._attrs[k]

    def ncattrs(self):
        return list(self._attrs)

    @property
    def _name(self):
        return self._n

    @property
    def name(self):
        return self._n

    @property
    def shape(self):
        return self._raw.shape

    @property
    def ndim(self):
        return self._raw.ndim

    @property
    def size(self):
        return self._raw.size

    def __len__(self):
        return len(self._raw)

    def set_auto_mask(self, on):
        self.__dict__['mask'] = bool(on)

    def set_auto_scale(self, on):
        self.__dict__['scale'] = bool(on)

    def set_auto_maskandscale(self, on):
        self.set_auto_mask(on)
        self.set_auto_scale(on)

    def _limits(self):
        a = self._attrs
        r = a.get('valid_range')
        if r is not None and not isinstance(r, str) and len(r) == 2 and all(_number(v) for v in r):
            return r[0], r[1]
        return tuple(a[k] if k in a and _number(a[k]) else None for k in ('valid_min', 'valid_max'))

    def __getitem__(self, key):
        raw = self._raw[key]
        raw = raw.copy() if isinstance(raw, np.ndarray) else raw
        a = self._attrs
        if self.mask:
            lo, hi = self._limits()
            out = np.ma.array(raw, mask=np.zeros(np.shape(raw), bool))
            flat = np.asarray(raw).reshape(-1)
            m = np.zeros(flat.size, bool)
            for i, v in enumerate(flat):
                for k in ('_FillValue', 'missing_value'):
                    if k in a and _number(a[k]) and not m[i]:
                        m[i] = bool(v == a[k]) or (isinstance(v, float) and v != v and isinstance(a[k], float) and a[k] != a[k])
                if '_FillValue' not in a and not m[i] and not isinstance(v, Sym):
                    m[i] = v == DEFAULT_FILL
                if lo is not None and not m[i]:
                    m[i] = bool(v < lo)
                if hi is not None and not m[i]:
                    m[i] = bool(v > hi)
            out = np.ma.array(raw, mask=m.reshape(np.shape(raw)))
        else:
            out = raw
        if self.scale:
            if 'scale_factor' in a:
                out = out * a['scale_factor']
            if 'add_offset' in a:
                out = out + a['add_offset']
        return out

    def __setitem__(self, key, data):
        a = self._attrs
        if self.scale:
            if 'add_offset' in a:
                data = data - a['add_offset']
            if 'scale_factor' in a:
                data = data / a['scale_factor']
        if isinstance(data, np.ma.MaskedArray) and self.mask:
            fill = a.get('missing_value', a.get('_FillValue', DEFAULT_FILL))
            flags = np.ma.getmaskarray(data)
            vals = np.array(data.data, dtype=object)
            for i in np.ndindex(*vals.shape):
                if flags[i]:
                    vals[i] = fill
            data = vals
        data = np.asarray(data, dtype=object)
        if np.shape(self._raw[key]) != data.shape and data.ndim:
            raise IndexError('shape mismatch')
        self._raw[key] = data


class Dimension(object):
    def __init__(self, size):
        self.size = size

    def __len__(self):
        return self.size


class _File(object):
    def __init__(self):
        self.dims, self.vars, self.attrs, self.groups = {}, {}, {}, {}


class Dataset(object):
    __slots__ = ('_f', '_path', 'variables', 'dimensions', 'groups')

    def __new__(cls, filename=None, mode='r', *a, **k):
        if Ctx.current is not None and (str(filename) in FILES or mode.startswith('w')):
            return object.__new__(cls)
        return REAL(filename, mode, *a, **k)

    def __init__(self, filename, mode='r', *a, **k):
        if mode.startswith('w'):
            FILES[str(filename)] = _File()
            open(str(filename), 'w').close()
        f = FILES[str(filename)]
        s = object.__setattr__
        s(self, '_f', f)
        s(self, '_path', str(filename))
        s(self, 'dimensions', f.dims)
        s(self, 'groups', dict((n, _Group(g)) for n, g in f.groups.items()))
        s(self, 'variables', dict(f.vars) if mode == 'r' else f.vars)
        for v in f.vars.values():
            v.set_auto_maskandscale(True)

    @property
    def __dict__(self):
        return dict(self._f.attrs)

    def __setattr__(self, k, v):
        self._f.attrs[k] = v

    def __getattr__(self, k):
        try:
            return object.__getattribute__(self, '_f').attrs[k]
        except KeyError:
            raise AttributeError(k)

    def ncattrs(self):
        return list(self._f.attrs)

    def filepath(self):
        return self._path

    def createDimension(self, name, size=None):
        self._f.dims[name] = Dimension(size)
        return self._f.dims[name]

    def createVariable(self, varname, datatype, dimensions=(), fill_value=None, **k):
        dims = (dimensions,) if isinstance(dimensions, str) else tuple(dimensions)
        shape = tuple(len(self._f.dims[d]) for d in dims)
        raw = np.empty(shape, dtype=object)
        raw[...] = fill_value if fill_value is not None and fill_value is not False else DEFAULT_FILL
        v = Variable(varname, raw, dims, {} if fill_value is None or fill_value is False else {'_FillValue': fill_value},
                     np.dtype(object))
        self._f.vars[varname] = v
        return v

    def close(self):
        pass

    sync = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class _Group(object):
    def __init__(self, f):
        self.variables, self.groups, self.dimensions = dict(f.vars), dict((n, _Group(g)) for n, g in f.groups.items()), f.dims


_made = []
_count = [0]
SCRATCH = os.environ.get('SYMX_SCRATCH', '/tmp')


def fresh():
    """forget the files of the previous run"""
    FILES.clear()
    while _made:
        p = _made.pop()
        if os.path.exists(p):
            os.unlink(p)


def path(name='x', ext='.nc'):
    _count[0] += 1
    p = os.path.join(SCRATCH, '%s_%d_%05d%s' % (name, os.getpid(), _count[0], ext))
    _made.append(p)
    return p


def install():
    netCDF4.Dataset = Dataset
    for name, m in list(sys.modules.items()):
        if name.startswith('cis.') and getattr(m, 'Dataset', None) is REAL:
            m.Dataset = Dataset
    import cis.data_io.write_netcdf as w
    if getattr(w, 'Dataset', None) is REAL:
        w.Dataset = Dataset
    if isinstance(getattr(w, 'types', None), dict):
        w.types.setdefault('object', 'f8')


def write(S, path, variables, attrs=None, dims=None, groups=None):
    """Put a netCDF file at path.  variables: [(name, values, dims, {attributes}, dtype)]; values are what the file
    holds (packed).  Symbolic: an in-memory file; concrete: a real one."""
    attrs = attrs or {}
    if S.symbolic:
        f = _File()
        f.attrs.update(attrs)
        for name, vals, dd, va, dtype in variables:
            shape = tuple(np.shape(vals))
            raw = np.empty(shape, dtype=object)
            for i in np.ndindex(*shape):
                v = vals
                for j in i:
                    v = v[j]
                raw[i] = v
            for d, n in zip(dd, shape):
                f.dims[d] = Dimension(n)
            tgt, parts = f, name.split('/')
            for g in parts[:-1]:
                tgt = tgt.groups.setdefault(g, _File())
            va = {k: (np.array(v, dtype=object) if isinstance(v, (list, tuple)) else v) for k, v in va.items()}
            tgt.vars[parts[-1]] = Variable(parts[-1], raw, dd, va, np.dtype(dtype if dtype == 'text' else object)
                                           if dtype != 'float-attrs' else np.dtype(float))
        FILES[path] = f
        open(path, 'w').close()
        return path
    nc = REAL(path, 'w', format='NETCDF4')
    for k, v in attrs.items():
        nc.setncattr(k, v)
    for name, vals, dd, va, dtype in variables:
        dtype = 'f8' if dtype in (None, 'float-attrs') else dtype
        arr = np.array(vals, dtype=dtype)
        tgt, parts = nc, name.split('/')
        for g in parts[:-1]:
            tgt = tgt.groups[g] if g in tgt.groups else tgt.createGroup(g)
        for d, n in zip(dd, arr.shape):
            if d not in nc.dimensions:
                nc.createDimension(d, n)
        kw = {}
        if '_FillValue' in va:
            kw['fill_value'] = np.array(va['_FillValue'], dtype)
        v = tgt.createVariable(parts[-1], dtype, tuple(dd), **kw)
        v.set_auto_maskandscale(False)
        for k, x in va.items():
            if k == '_FillValue':
                continue
            if k in ('missing_value', 'valid_min', 'valid_max', 'valid_range') and not isinstance(x, str):
                x = np.array(x, dtype)
            v.setncattr(k, x)
        v[...] = arr
    nc.close()
    return path
