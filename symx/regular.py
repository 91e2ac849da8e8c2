"""iris' n-dimensional interpolation kernel (iris.analysis._scipy_interpolate._RegularGridInterpolator) stores its weights in
a sparse float matrix, which cannot hold symbolic numbers: during an exploration it is replaced by the same definition
(linear or nearest, with or without extrapolation) over symbolic numbers.  Concrete replays use iris as installed."""
from itertools import product
import numpy as np
import iris.analysis._scipy_interpolate as si
import iris.analysis._interpolation as ip
from .engine import Ctx

STUB_NOTE = 'the innermost interpolation kernel of iris is replaced by its definition over symbolic numbers (symx/regular.py)'


def _install():
    Real = si._RegularGridInterpolator

    class Interp(object):
        def __init__(self, points, values, method='linear', bounds_error=True, fill_value=np.nan):
            self.grid, self.values, self.method = [list(p) for p in points], values, method
            self.bounds_error, self.fill_value = bounds_error, fill_value
            self.cache = {}

        def locate(self, d, x):
            g = self.grid[d]
            k = 0
            while k < len(g) - 2 and x > g[k + 1]:
                k += 1
            inside = bool(x >= g[0]) and bool(x <= g[-1])
            w = (x - g[k]) / (g[k + 1] - g[k]) if len(g) > 1 else 0
            if self.method == 'nearest':
                return inside, [(k, 1)] if w <= 0.5 else [(k + 1, 1)]
            return inside, [(k, 1 - w), (k + 1, w)]

        def __call__(self, pts):
            n, nd = pts.shape
            extra = self.values.shape[nd:]
            out = np.ndarray((n,) + extra, dtype=object)
            vals, bad = np.ma.getdata(self.values), self.values.dtype == bool
            for i in range(n):
                key = i
                if key not in self.cache:
                    self.cache[key] = [self.locate(d, pts[i, d]) for d in range(nd)]
                loc = self.cache[key]
                if not all(l[0] for l in loc) and self.fill_value is not None:
                    out[i] = self.fill_value
                    continue
                for e in np.ndindex(*extra):
                    tot = 0
                    for combo in product(*[l[1] for l in loc]):
                        f, ix = 1, []
                        for q, w in combo:
                            ix.append(q)
                            f = f * w
                        v = vals[tuple(ix) + e]
                        tot = tot + f * (int(v) if bad else v)
                    out[(i,) + e] = tot
            if bad:
                return np.array([bool(v != 0) if not isinstance(v, bool) else v for v in out.ravel()]
                                ).reshape(out.shape).astype(int)
            return out

    def factory(points, values, **kw):
        if Ctx.current is not None and (values.dtype == object or any(getattr(p, 'dtype', None) == object for p in points)):
            return Interp(points, values, **kw)
        return Real(points, values, **kw)
    si._RegularGridInterpolator = factory
    canonical = ip._canonical_sample_points

    def canon(coords, points):
        if Ctx.current is not None:     # no dates among the sample points: nothing to convert
            return list(points)
        return canonical(coords, points)
    ip._canonical_sample_points = canon


if not getattr(si, '_symx', False):
    si._symx = True
    _install()
