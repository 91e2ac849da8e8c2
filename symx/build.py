"""Builders for the data objects the harnesses feed to the code under test."""
import numpy as np
from cis.data_io.Coord import Coord, CoordList
from cis.data_io.ungridded_data import UngriddedData, UngriddedDataList, UngriddedCoordinates, Metadata, LazyData
from cis.time_util import cis_standard_time_unit

AXIS = {'latitude': 'Y', 'longitude': 'X', 'altitude': 'Z', 'time': 'T', 'air_pressure': 'P'}
UNITS = {'latitude': 'degrees_north', 'longitude': 'degrees_east', 'altitude': 'm', 'time': cis_standard_time_unit,
         'air_pressure': 'hPa'}


def coord(S, name, vals, mask=None, shape=None, var_name=None):
    a = S.array(vals) if mask is None else S.marray(vals, mask)
    if shape is not None:
        a = a.reshape(shape)
    return Coord(a, Metadata(name=var_name or name, standard_name=name, units=UNITS.get(name, '1'), shape=a.shape),
                 AXIS.get(name, ''))


def ug(S, vals, coords, mask=None, shape=None, name='rain', units='1', long_name=''):
    a = S.array(vals) if mask is None else S.marray(vals, mask)
    if shape is not None:
        # stored in another order than the coordinates, as transposed data are: that must not matter
        a = a.reshape(shape).copy(order='F')
    return UngriddedData(a, Metadata(name=name, standard_name='', long_name=long_name, units=units, shape=a.shape),
                         coords)


def quiet_metadata():
    """Metadata-only bookkeeping that would otherwise sort/print the data: no-ops while exploring (they run normally in
    every concrete replay)."""
    from symx.engine import Ctx
    import cis.data_io.ungridded_data as ud

    def wrap(cls, name):
        orig = getattr(cls, name)

        def f(self, *a, **k):
            if Ctx.current is not None:
                return None
            return orig(self, *a, **k)
        f.__name__ = name
        setattr(cls, name, f)
    if not getattr(ud, '_symx_quiet', False):
        ud._symx_quiet = True
        wrap(ud.LazyData, 'update_range')
        wrap(ud.LazyData, 'add_history')


STUB_NOTE = 'LazyData.update_range / add_history (metadata range and history text) are no-ops during exploration'
