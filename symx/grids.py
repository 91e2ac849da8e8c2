"""Gridded samples for collocation of ungridded data: the grid, and the position of each of its points."""
import numpy as np
from . import cubes, trig

RANGE = {'altitude': (-1000, 1000), 'air_pressure': (1, 1000), 'time': (0, 1000), 'longitude': (-180, 180)}
TAB = {'latitude': [0.0, 30.0, 60.0], 'longitude': [0.0, 60.0, 150.0]}


def sample(S, cfg, shared=None):
    """cfg['grid']: [(dimension, size, 'asc' | 'desc' | tabulated points)], in the order of the data"""
    dc, pts, names, shape = [], [], [], []
    for d, k, how in cfg['grid']:
        if isinstance(how, (list, tuple)):
            p = [float(x) for x in how]
        elif d in TAB and not (d == 'longitude' and cfg.get('sym_lon')):
            p = TAB[d][:k] if how == 'asc' else TAB[d][:k][::-1]
        else:
            p, _ = cubes.axis(S, 'g' + d, k, *RANGE[d], order=how)
            if d == 'longitude':
                trig.prefer(S, ['g%s%d' % (d, i) for i in range(k)])
        # cells around the points: they don't matter, but each dimension needs them
        b = None
        if k == 1 or not isinstance(p[0], float):
            step = 1.0 if (k == 1 or p[0] < p[1]) else -1.0
            b = [(x, x) for x in p] if False else [(x - step * 1e-3, x + step * 1e-3) for x in p]
        dc.append(cubes.dim(S, d, p, bounds=b))
        pts.append(p)
        names.append(d)
        shape.append(k)
    size = int(np.prod(shape))
    smask = [S.bool('sm%d' % i) for i in range(size)] if cfg.get('smask', True) else [False] * size
    g = cubes.cube(S, [1.0] * size, dc, mask=smask if cfg.get('smask', True) else None, name='snow')
    keep = [i for i, d in enumerate(names) if shared is None or d in shared]
    pos = {names[i]: [] for i in keep}
    oshape = tuple(shape[i] for i in keep)
    for ix in np.ndindex(*oshape):
        for i, j in zip(keep, ix):
            pos[names[i]].append(pts[i][j])
    return pos, smask, g, [names[i] for i in keep], oshape
