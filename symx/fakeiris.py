"""In-memory stand-in for the files which iris.load reads while exploring: iris itself runs as installed from the raw cubes of each file on
(callbacks, constraints, merging, concatenation).  Concrete replays write real netCDF files with iris.save and read them."""
import functools
import os
import sys
import cf_units
import numpy as np
import dask
import dask.array as da
import iris
import iris._concatenate
import iris._lazy_data
import iris._merge
import iris.io
from .engine import Ctx
from . import fakenc

NOTE = ('iris.load: the raw cubes of each file come from memory (concrete replays read real files); dask does not hash symbolic arrays')
FILES = {}


def _install():
    o_gen = iris._generate_cubes

    def generate(uris, callback, constraints):
        names = [uris] if isinstance(uris, str) else list(uris)
        if Ctx.current is None or not all(str(u) in FILES for u in names):
            yield from o_gen(uris, callback, constraints)
            return
        for u in sorted(names):
            for c in FILES[u]:
                c = iris.io.run_callback(callback, c.copy(), None, u)
                if c is not None:
                    yield c
    iris._generate_cubes = generate

    def wrap(mod):
        o = mod.as_lazy_data

        def lazy(data, *a, **k):
            if Ctx.current is not None and getattr(data, 'dtype', None) == object and not iris._lazy_data.is_lazy_data(data):
                kind = np.ma.masked_array if isinstance(data, np.ma.MaskedArray) else np.array
                return da.from_array(data, name=False, chunks=-1, asarray=False, meta=kind(np.empty((0,) * data.ndim, dtype=object)))
            return o(data, *a, **k)
        mod.as_lazy_data = lazy
    for n, m in list(sys.modules.items()):
        if n.startswith('iris.') and hasattr(m, 'as_lazy_data'):
            wrap(m)
    dask.config.set(scheduler='synchronous')


def _cells():
    o = iris.coords.Cell.__hash__

    def h(self):
        return 0 if Ctx.current is not None else o(self)    # then dictionaries of cells compare each pair
    iris.coords.Cell.__hash__ = h


def _convert():
    old = cf_units.Unit.convert

    @functools.wraps(old)
    def convert(self, value, other, *a, **k):
        if Ctx.current is not None and getattr(value, 'dtype', None) == object:
            z, o = float(old(self, 0.0, other)), float(old(self, 1.0, other))
            return value * (o - z) + z
        return old(self, value, other, *a, **k)
    cf_units.Unit.convert = convert


if not getattr(iris, '_symx_load', False):
    iris._symx_load = True
    _install()
    _convert()
    _cells()


def fresh():
    FILES.clear()
    fakenc.fresh()


def write(S, cubes, name='g'):
    """a file holding the cubes"""
    path = fakenc.path(name)
    if S.symbolic:
        FILES[path] = [c.copy() for c in cubes]
        open(path, 'w').close()
    else:
        iris.save(cubes, path)
    return path
