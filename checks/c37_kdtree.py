"""C37: the great-circle kd-tree finds the nearest point / exactly the points within a distance, for every set of points."""
import numpy as np
import pandas as pd
from symx.harness import masked_at
from symx import trig, engine as E
trig.install()
from cis.collocation.haversinedistancekdtreeindex import HaversineDistanceKDTreeIndex, create_index
from cis.collocation.kdtree import RADIUS_EARTH
from symx.cubes import iris  # noqa
import math


def frame(S, lats, lons):
    return pd.DataFrame({'latitude': S.array(lats), 'longitude': S.array(lons)})


def positions(S, cfg, tag, n, lats, lons):
    """each coordinate either given (a table value) or any real number"""
    la, lo = [], []
    for i in range(n):
        if lats is None:
            la.append(S.real('%sLat%d' % (tag, i), -90, 90))
            trig.prefer(S, ['%sLat%d' % (tag, i)])
        else:
            la.append(float(lats[i % len(lats)]))
        if lons is None:
            lo.append(S.real('%sLon%d' % (tag, i), *cfg.get('range', (-180, 180))))
            trig.prefer(S, ['%sLon%d' % (tag, i)])
        else:
            lo.append(float(lons[i % len(lons)]))
    return la, lo


EPS = 1e-9


def nearest(S, cfg):
    n = cfg['n']
    la, lo = positions(S, cfg, 'p', n, cfg.get('lats'), cfg.get('lons'))
    ql, qo = positions(S, cfg, 'q', 1, cfg.get('qlats', cfg.get('lats')), cfg.get('qlons', cfg.get('lons')))
    idx = HaversineDistanceKDTreeIndex()
    idx.index_data(None, frame(S, la, lo), None, leafsize=cfg['leaf'])
    r = np.ravel(idx.find_nearest_point(frame(S, ql, qo)))
    S.check(len(r) == 1, 'one nearest point per query')
    k = int(r[0])
    S.check(0 <= k < n, 'the nearest point is one of the points')
    hk = trig.hav(S, ql[0], qo[0], la[k], lo[k])
    for j in range(n):
        if j != k:
            S.check(hk <= trig.hav(S, ql[0], qo[0], la[j], lo[j]) + EPS, 'no point is nearer than the nearest one')


def ball(S, cfg):
    n, m = cfg['n'], cfg['m']
    la, lo = positions(S, cfg, 'p', n, cfg.get('lats'), cfg.get('lons'))
    sl, so = positions(S, cfg, 's', m, cfg.get('slats', cfg.get('lats')), cfg.get('slons', cfg.get('lons')))
    if 'ang' in cfg:
        ang = float(cfg['ang'])
    else:
        ang = S.real('ang', 0, 180)
        trig.prefer(S, ['ang'], 3.75)
    r = ang * math.pi / 180 * RADIUS_EARTH
    data, sample = frame(S, la, lo), frame(S, sl, so)
    if cfg['leaf'] == 10:
        idx = HaversineDistanceKDTreeIndex()
        idx.index_data(None, data, None)
        res = idx.find_points_within_distance_sample(sample, r)
    else:
        res = create_index(sample, leafsize=cfg['leaf']).query_ball_tree(create_index(data, leafsize=cfg['leaf']), r)
    S.check(len(res) == m, 'one list of points per sample point')
    R = trig.hav_of_angle(S, ang)
    for i in range(m):
        got = [int(x) for x in res[i]]
        S.check(len(set(got)) == len(got), 'no point is listed twice')
        for j in range(n):
            h = trig.hav(S, sl[i], so[i], la[j], lo[j])
            if j in got:
                S.check(h <= R + EPS, 'the points listed are within the distance')
            else:
                S.check(h > R - EPS, 'no point within the distance is left out')


HARNESSES = dict(nearest=nearest, ball=ball)
WIDE = (-180, 360)


def configs(tier):
    c = []
    big = tier != 'quick'
    for leaf in (1, 10):
        for lats in ([0], [60], [0, 60], [-60, 60], [45, 90]) if big else ([0], [0, 60]):
            c.append(dict(harness='nearest', n=2, leaf=leaf, lats=lats, qlats=[lats[-1]], _w=2))
            c.append(dict(harness='ball', n=2, m=1, leaf=leaf, lats=lats, slats=[lats[0]], _w=4))
        c.append(dict(harness='nearest', n=2, leaf=leaf, lons=[0, 0], qlons=[0], _w=3))
        c.append(dict(harness='nearest', n=2, leaf=leaf, lons=[0, 180], qlons=[0], qlats=[30], _w=3))
        c.append(dict(harness='ball', n=2, m=1, leaf=leaf, lons=[0, 180], slons=[0], slats=[60], ang=60, _w=3))
        c.append(dict(harness='ball', n=1, m=2, leaf=leaf, lats=[0], slats=[0, 30], ang=90, _w=4))
    c.append(dict(harness='nearest', n=2, leaf=1, lats=[0, 30], qlats=[30], range=WIDE, _w=3))
    spread = dict(lats=[0, 30, -60, 75, -15, 45], lons=[0, 90, -90, 179, -170, -45])
    c.append(dict(harness='nearest', n=6, leaf=1, qlats=[30], qlons=None, _w=5, **spread))
    c.append(dict(harness='nearest', n=6, leaf=1, qlats=[-75], qlons=None, _w=5, **spread))
    c.append(dict(harness='nearest', n=6, leaf=1, qlats=None, qlons=[120], _w=5, **spread))
    c.append(dict(harness='ball', n=6, m=1, leaf=1, slats=[30], slons=None, ang=60, _w=5, **spread))
    c.append(dict(harness='ball', n=6, m=1, leaf=1, slats=None, slons=[120], ang=90, _w=5, **spread))
    c.append(dict(harness='nearest', n=11, leaf=10, lats=[0], qlats=[0], lons=[0, 30, -60, 120, -120, 90, 179, -179, 60,
                                                                               -150, 150], qlons=None, _w=5))
    if big:
        c.append(dict(harness='nearest', n=3, leaf=1, lats=[0, 30, 60], qlats=[30], qlons=[150], _w=10))
        c.append(dict(harness='nearest', n=3, leaf=1, lats=[0, 30, 60], qlats=[30], _w=20))
        c.append(dict(harness='ball', n=3, m=1, leaf=1, lats=[0, 30, 60], slats=[30], ang=60, _w=10))
        c.append(dict(harness='nearest', n=3, leaf=1, lons=[0, 0, 0], qlons=[0], _w=20))
        c.append(dict(harness='nearest', n=3, leaf=1, lats=[0, 60], qlats=[45], range=WIDE, _w=20))
        c.append(dict(harness='nearest', n=3, leaf=2, lats=[0, 60], qlats=[45], _w=20))
        c.append(dict(harness='ball', n=2, m=1, leaf=1, lons=[0, 0], slons=[0], _w=20))
        c.append(dict(harness='ball', n=3, m=1, leaf=1, lats=[0, 60], slats=[45], _w=30))
        c.append(dict(harness='ball', n=2, m=2, leaf=1, lats=[0, 60], slats=[45, 0], ang=60, _w=30))
        c.append(dict(harness='nearest', n=4, leaf=1, lats=[0, 60, 30, 45], qlats=[45], _w=30))
    return c


OPTIONS = dict(max_paths=200000, validate=40)
BUDGET = {'quick': 300, 'thorough': 840}
BOUNDS = {'quick': '2-3 indexed points (11 in one configuration) and 1-2 sample points, leaf sizes 1 and 10; either every '
          'longitude in [-180, 180] (or [-180, 360]) with latitudes from a table, or every latitude with longitudes on '
          'one great circle through the poles; every search distance from 0 to half way round (or 60 and 90 degrees)',
          'thorough': 'also 4 points, more latitudes, two trees against each other'}
OUTSIDE = 'positions whose latitude and longitude are both arbitrary; more points; ties closer than 1e-9 in sin^2'
STUBS = ['sin^2 of a symbolic angle: a number in [0, 1] increasing with the distance of the angle from the multiples of '
         '180 degrees, exact at multiples of 15 degrees; cos from the double angle formula; sqrt and arcsin increasing']
ASSUMPTIONS = []
