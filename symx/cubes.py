"""Symbolic gridded data: lets iris coordinates and cubes hold symbolic numbers during an exploration."""
import functools
import numpy as np
import iris
import iris.coords
import iris.cube
import iris.util
import iris.analysis.cartography as cart
from .engine import Ctx, Sym
from cis.data_io.gridded_data import GriddedData, GriddedDataList, make_from_cube
from cis.time_util import cis_standard_time_unit
from .build import UNITS

STUB_NOTE = ('iris coordinate containers accept symbolic points (their strict monotonicity check is evaluated '
             'symbolically, with the same ValueError); iris itself runs as installed')


def _monotonic(v):
    """strictly monotonic? (symbolically)"""
    v = list(v)
    if len(v) < 2:
        return True, 1
    up = bool(v[1] > v[0])
    for a, b in zip(v, v[1:]):
        if not (b > a if up else b < a):
            return False, 0
    return True, 1 if up else -1


def _install():
    D = iris.coords.DimCoord
    o_p, o_b = D._new_points_requirements, D._new_bounds_requirements

    def pts(self, points):
        if Ctx.current is None or getattr(points, 'dtype', None) != object:
            return o_p(self, points)
        if points.ndim not in (0, 1):
            raise ValueError('The %r DimCoord points array must be scalar or 1-dimensional.' % self.name())
        if np.ma.is_masked(points):
            raise TypeError('A DimCoord points array must not be masked.')
        if points.size > 1 and not _monotonic(points.ravel())[0]:
            raise ValueError('The %r DimCoord points array must be strictly monotonic.' % self.name())

    def bnds(self, bounds):
        if Ctx.current is None or bounds is None or (getattr(bounds, 'dtype', None) != object and
                                                     self._values_dm.core_data().dtype != object):
            return o_b(self, bounds)
        if bounds.ndim > 1 and (self.shape[0] > 1 or bounds.shape[0] > 1):
            dirs = set()
            for i in range(bounds.shape[-1]):
                ok, d = _monotonic(bounds[:, i])
                if not ok:
                    raise ValueError('The %r DimCoord bounds array must be strictly monotonic.' % self.name())
                dirs.add(d)
            if len(dirs) != 1:
                raise ValueError('The direction of monotonicity must be consistent across all bounds')
            d, = dirs
            if bounds.shape[1] == 2 and all(bool((a - b > 0) if d > 0 else (a - b < 0)) for a, b in bounds):
                bounds = np.flip(bounds, axis=1)
        return bounds
    D._new_points_requirements, D._new_bounds_requirements = pts, bnds
    iris.cube.wrap_lons = cart.wrap_lons
    o_slice = iris.util._slice_data_with_keys

    def slice_data(data, keys):
        """a single symbolic element stays an array (as a single float64 does)"""
        if Ctx.current is None or getattr(data, 'dtype', None) != object:
            return o_slice(data, keys)
        full = iris.util._build_full_slice_given_keys(keys, data.ndim)
        mapping, slices = iris.util.column_slices_generator(full, data.ndim)
        for s in slices:
            s = tuple(s if isinstance(s, tuple) else (s,))
            data = data[s if any(k is Ellipsis for k in s) else s + (Ellipsis,)]
            if data.ndim > 0 and min(data.shape) < 1:
                raise IndexError('Cannot index with zero length slice.')
        return mapping, data
    iris.util._slice_data_with_keys = slice_data
    # coordinates derived through an iris factory: from the values rather than through dask
    C = iris.coords.Coord
    o_lp, o_lb = C.lazy_points, C.lazy_bounds
    C.lazy_points = lambda self: self.core_points() if Ctx.current is not None else o_lp(self)
    C.lazy_bounds = lambda self: self.core_bounds() if Ctx.current is not None else o_lb(self)


if not getattr(iris, '_symx', False):
    iris._symx = True
    _install()


def dim(S, name, points, bounds=None, units=None, var_name=None, long_name=None, circular=False):
    p = S.array(points)
    b = None
    if bounds is not None:
        b = S.array([v for row in bounds for v in row], (len(points), 2))
    std = name if name in UNITS else None
    return iris.coords.DimCoord(p, standard_name=std, long_name=long_name or (None if std else name),
                                var_name=var_name, units=units or UNITS.get(name, '1'), bounds=b, circular=circular)


def aux(S, name, points, units='1', shape=None, bounds=None):
    p = S.array(points, shape)
    b = None
    if bounds is not None:
        b = S.array([v for row in bounds for v in row], (len(points), 2))
    std = name if name in UNITS else None
    return iris.coords.AuxCoord(p, standard_name=std, long_name=None if std else name, bounds=b,
                                units=UNITS.get(name, units))


def cube(S, vals, dims, mask=None, auxs=(), name='rain', units='1'):
    """dims: list of DimCoord (or the size of a dimension without one), in data order; auxs: list of (coord, dims)"""
    shape = tuple(d if isinstance(d, int) else len(d.points) for d in dims)
    a = S.array(vals, shape) if mask is None else S.marray(vals, mask, shape)
    a = a.copy(order='F')           # as transposed data are stored: that must not matter
    return GriddedData(a, var_name=name, long_name=name, units=units,
                       dim_coords_and_dims=[(d, i) for i, d in enumerate(dims) if not isinstance(d, int)],
                       aux_coords_and_dims=[(c, d) for c, d in auxs])


def increasing(S, vals, strict=True):
    for a, b in zip(vals, vals[1:]):
        S.assume(a < b if strict else a <= b)


def axis(S, name, n, lo, hi, order='asc', contiguous_bounds=False, gap=None):
    """n strictly monotonic symbolic points in [lo, hi] (and bounds: contiguous, containing the points)"""
    p = S.reals(name, n, lo, hi)
    q = p if order == 'asc' else p[::-1]
    increasing(S, q)
    if gap is not None:
        for a, b in zip(q, q[1:]):
            S.assume(b - a >= gap)
    if not contiguous_bounds:
        return p, None
    e = S.reals(name + 'B', n + 1)
    f = e if order == 'asc' else e[::-1]
    increasing(S, f)
    for i in range(n):
        S.assume(f[i] <= q[i])
        S.assume(q[i] <= f[i + 1])
    return p, [(e[i], e[i + 1]) for i in range(n)]
