"""What each property's check runs: harness files, bounds, sources."""


class H:
    def __init__(self, src, name=None, srcs=None, quick=None, thorough=None,
                 bounds='', opts=None, defs=(), timeout=700, qt=20, **kw):
        """quick / thorough: list of parameter dictionaries (one job each)"""
        self.src = src
        self.name = name or src.split('.')[0]
        self.srcs = srcs
        self.quick = quick if quick is not None else [{}]
        self.thorough = thorough if thorough is not None else self.quick
        self.bounds = bounds
        self.opts = opts or {}
        self.defs = list(defs)
        self.timeout = timeout
        self.qt = qt
        self.kw = kw

    def jobs(self, tier):
        ps = self.quick if tier == 'quick' else self.thorough
        for n, p in enumerate(ps):
            nm = self.name
            if p:
                nm += ':' + ','.join('%s=%s' % kv for kv in p.items())
            d = dict(name=nm, src=self.src, srcs=self.srcs, params=p,
                     bounds=self.bounds, opts=dict(self.opts),
                     defs=self.defs, timeout=self.timeout if tier == 'quick'
                     else max(self.timeout, 850),
                     query_timeout=self.qt if tier == 'quick'
                     else 3 * self.qt)
            d.update(self.kw)
            yield d


CHECKS = {}

CHECKS['P01'] = dict(harnesses=[
    H('seq.cc', 'seq', quick=[dict(kind=0, n=4), dict(kind=1, n=4),
                              dict(kind=2, n=4), dict(kind=3, n=4),
                              dict(kind=4, n=4), dict(kind=5, n=4)],
      opts=dict(mono=1)),
])

CHECKS['P02'] = dict(harnesses=[
    H('seq2.cc', 'seq2', quick=[
        dict(kind=0, n=3), dict(kind=1, n=3), dict(kind=2, n=4),
        dict(kind=3, n=4), dict(kind=4, n=5), dict(kind=5, n=3)],
      thorough=[
        dict(kind=0, n=4), dict(kind=1, n=4), dict(kind=2, n=5),
        dict(kind=3, n=5), dict(kind=4, n=6), dict(kind=5, n=4)],
      opts=dict(mono=1, div0='fork')),
], bounds='sequences of at most 6 elements')

CHECKS['P33'] = dict(harnesses=[H('loss.cc', 'loss', quick=[dict(kind=0)])],
                     bounds='2x2 wavefront, 2 frequencies')
CHECKS['P34'] = dict(harnesses=[
    H('loss.cc', 'loss', quick=[dict(kind=1, nf=1)],
      thorough=[dict(kind=1, nf=1), dict(kind=1, nf=2)])],
    bounds='1 (thorough: 2) frequencies of any value')
CHECKS['P31'] = dict(harnesses=[
    H('loss.cc', 'loss', quick=[
        dict(kind=2), dict(kind=4, sub=0), dict(kind=4, sub=1),
        dict(kind=4, sub=2), dict(kind=4, sub=3), dict(kind=5)],
      opts=dict(mono=1)),
    H('loss.cc', 'beckmann', quick=[dict(kind=3)],
      opts=dict(mono=1, forksel=1))],
    bounds='2 frequencies, 3x2 bottom type grid')
CHECKS['P32'] = dict(harnesses=[
    H('loss.cc', 'loss', quick=[
        dict(kind=6, sub=0), dict(kind=6, sub=1), dict(kind=6, sub=2),
        dict(kind=6, sub=3), dict(kind=7)])],
    bounds='1x2 wavefront, 2 frequencies')

CHECKS['P36'] = dict(harnesses=[
    H('beam.cc', 'beam', quick=[dict(kind=k) for k in (0, 1, 2, 3, 5, 6, 7, 8)],
      opts=dict(mono=1, forksel=1)),
    H('beam.cc', 'beam', quick=[dict(kind=4, sub=0), dict(kind=4, sub=1)],
      opts=dict(mono=1))],
    bounds='2 frequencies, arrays of at most 4 (line) or 3x3 (planar) '
    'elements, 2 free elements in arbitrary arrays')

CHECKS['P39'] = dict(harnesses=[
    H('transmit.cc', 'transmit', quick=[dict(kind=0), dict(kind=1)])],
    bounds='windows of 2..8 samples, pulses of 2..4 samples')

CHECKS['P06'] = dict(harnesses=[
    H('geo.cc', 'geo', quick=[dict(kind=k) for k in (0, 1, 3)]),
    H('geo.cc', 'geo', quick=[dict(kind=k) for k in (2, 4, 5, 6)],
      opts=dict(anglesum=1))],
    bounds='arrays of 2x3 points; one great circle leg')
CHECKS['P07'] = dict(harnesses=[
    H('geo.cc', 'geo', quick=[dict(kind=7), dict(kind=8), dict(kind=9)])],
    bounds='one vector of any direction at any point')
CHECKS['P08'] = dict(harnesses=[
    H('geo.cc', 'geo', quick=[dict(kind=10), dict(kind=11), dict(kind=12)],
      opts=dict(forksel=1))],
    bounds='one host and one child orientation of any angles')

CHECKS['P22'] = dict(harnesses=[
    H('wave.cc', 'waveq', quick=[dict(kind=0)])],
    bounds='wavefronts of 1x2 rays, one step')
CHECKS['P23'] = dict(harnesses=[
    H('wave.cc', 'waveq', quick=[dict(kind=1), dict(kind=2)])],
    bounds='wavefronts of 1x2 and 2x2 rays, any sound speed field')

CHECKS['P28'] = dict(harnesses=[
    H('waveq.cc', 'waveq', quick=[dict(kind=0), dict(kind=1)],
      opts=dict(max_paths=4000)),
    H('waveq.cc', 'waveq', quick=[
        dict(kind=6),
        dict(kind=8), dict(kind=8, out=1), dict(kind=8, out=2)],
      opts=dict(cut=10), fastwit=1)],
    bounds='fans of 5x1, 3x2 and 2x1 rays, one step')
CHECKS['P28']['harnesses'].append(
    H('detect.cc', 'detect', quick=[
        dict(kind=0), dict(kind=0, where=1), dict(kind=0, where=2),
        dict(kind=0, where=1, twice=1), dict(kind=0, where=2, twice=1),
        dict(kind=0, where=2, i=0, j=1),
        dict(kind=1), dict(kind=1, i=0, j=1), dict(kind=1, i=2, j=1),
        dict(kind=1, where=1), dict(kind=1, where=2)],
      skip=('waveq3d/reflection_model.h',)))
CHECKS['P24'] = dict(harnesses=[
    H('waveq.cc', 'waveq', quick=[
        dict(kind=2), dict(kind=3), dict(kind=4), dict(kind=4, watch=1),
        dict(kind=5), dict(kind=5, clamp=1), dict(kind=5, clamp=2),
        dict(kind=5, shallow=1), dict(kind=5, on=0, flat=1)],
      opts=dict(cut=10), fastwit=1)],
    bounds='one ray of a 2x1 fan, any state and sound speed field')
CHECKS['P25'] = dict(harnesses=[
    H('eigen.cc', 'eigen', quick=[
        dict(kind=0), dict(kind=1), dict(kind=1, only=0), dict(kind=1, only=2),
        dict(kind=1, wrap=1, az=0), dict(kind=1, wrap=1, az=2, edge=1),
        dict(kind=1, edge=1), dict(kind=1, edge=2),
        dict(kind=1, wrap=1, branch=1, az=0), dict(kind=1, branch=1),
        dict(kind=2), dict(kind=2, set=1), dict(kind=2, set=2, sym=0),
        dict(kind=2, set=2, sym=2),
        dict(kind=3), dict(kind=3, what=1, i=2, j=1, n=2),
        dict(kind=3, what=2, i=1, j=2, n=1), dict(kind=3, what=3, i=2, j=2),
        dict(kind=4), dict(kind=4, baz=179), dict(kind=4, what=1),
        dict(kind=4, what=2), dict(kind=4, what=3),
        dict(kind=4, what=3, nan=0), dict(kind=4, what=3, nan=1),
        dict(kind=6)] +
        [dict(kind=5, what=k) for k in range(7)] + [dict(kind=5, wrap=1)])],
    bounds='fans of 3x3 and 4x4 rays, one target')

CHECKS['P03'] = dict(harnesses=[
    H('grid.cc', 'grid', quick=
      [dict(kind=0, ax=a, types=t, where=w, limit=l) for a in range(4)
       for t in (0, 1) for w, l in ((0, 1), (1, 1), (2, 1), (1, 0), (2, 0))
       if (a != 3 or w) and (t or l)] +
      [dict(kind=0, ax=4), dict(kind=0, one=0), dict(kind=0, one=0, types=0)] +
      [dict(kind=1, ax=1, types=t) for t in range(4)] +
      [dict(kind=1, ax=0), dict(kind=1, ax=1, where=1),
       dict(kind=1, ax=1, where=2, limit=0), dict(kind=1, ax=1, one=0),
       dict(kind=1, ax=1, one=1)] +
      [dict(kind=2, ax=1, types=t) for t in range(8)] +
      [dict(kind=2, ax=1, n=3), dict(kind=2, ax=1, one=1)] +
      [dict(kind=3, ax=a, type=t) for a in (0, 1, 2) for t in range(3)] +
      [dict(kind=4, ax=1, type=t) for t in range(2)] +
      [dict(kind=5, dim=d) for d in (1, 2, 3)] +
      [dict(kind=6, type=t) for t in range(3)] + [dict(kind=7)])],
    bounds='1 to 3 dimensions, up to 4 points on an axis')
CHECKS['P04'] = dict(harnesses=[
    H('grid.cc', 'grid', quick=
      [dict(kind=8, n=5, k=k, ax=a) for k in range(4) for a in (1, 2)] +
      [dict(kind=8, n=4, k=k, ax=4) for k in range(3)] +
      [dict(kind=9, i=i, ax=a) for i in range(5) for a in (1, 2)] +
      [dict(kind=10, ax=a) for a in (0, 1, 2, 4)] +
      [dict(kind=3, ax=1, type=2)] +
      [dict(kind=11, type1=a, type0=b) for a, b in ((1, 2), (2, 1))])],
    bounds='4 and 5 points on an axis, 1 and 2 dimensions')

CHECKS['P05'] = dict(harnesses=[
    H('grid2.cc', 'grid2', quick=
      [dict(kind=0, ax=a, types=t, where=w) for a in (0, 1, 2)
       for t in (0, 1) for w in (0, 1, 2, 4)] +
      [dict(kind=0, limit=0, where=w) for w in (1, 2)] +
      [dict(kind=1, types=t) for t in range(3)] + [dict(kind=1, ax=0)] +
      [dict(kind=2, ax=a, dir=d, k0=k, k1=2 - k) for a in (0, 1)
       for d in (0, 1) for k in range(3)] +
      [dict(kind=3, k=k, ax=a) for a in (0, 1, 2) for k in range(3)] +
      [dict(kind=3, ci=1, cj=0), dict(kind=3, where=1), dict(kind=3, where=2),
       dict(kind=3, where=3), dict(kind=3, where=4), dict(kind=3, mode=2),
       dict(kind=3, where=1, limit=0),
       dict(kind=4), dict(kind=4, dim=3)]),
    H('grid2.cc', 'grid2', quick=[dict(kind=3, mode=1)],
      opts=dict(max_paths=2000))],
    bounds='3 and 4 points on an axis')
CHECKS['P29'] = dict(harnesses=[
    H('ocean.cc', 'ocean', quick=[dict(kind=k) for k in range(8)])],
    bounds='1x2 locations, any parameters of the models in physical ranges')
CHECKS['P30'] = dict(harnesses=[
    H('ocean.cc', 'ocean', quick=[dict(kind=10), dict(kind=11),
      dict(kind=11, dir=1), dict(kind=11, dir=2), dict(kind=12),
      dict(kind=13)])],
    bounds='1x2 locations, any slope within 1.2 rad and any gradient')
CHECKS['P35'] = dict(harnesses=[
    H('ocean.cc', 'ocean', quick=[dict(kind=k) for k in (20, 21, 22)],
      opts=dict(max_paths=3000))],
    bounds='8 interfaces, up to 3 volume layers, 4 changes of the shared ocean')

CHECKS['P17'] = dict(harnesses=[
    H('coll.cc', 'coll', quick=[dict(kind=0)], opts=dict(max_paths=4000)),
    H('coll.cc', 'coll', quick=[
        dict(kind=1, rays=1), dict(kind=1), dict(kind=1, coherent=0),
        dict(kind=1, rays=1, nf=2), dict(kind=1, coherent=0, nf=2)])],
    bounds='2x2 targets, up to 3 rays in all, 1 and 2 frequencies')
CHECKS['P18'] = dict(harnesses=[
    H('coll.cc', 'coll', quick=[dict(kind=2, move=k) for k in (0, 1, 2, 12, 6)]),
    H('coll.cc', 'coll', quick=[dict(kind=2, move=3)], qt=4)],
    bounds='one ray, two frequencies, moves up to 200 m')
CHECKS['P20'] = dict(harnesses=[
    H('verb.cc', 'verb', quick=[dict(kind=0), dict(kind=0, same=1),
      dict(kind=0, same=1, nf=2), dict(kind=1), dict(kind=4), dict(kind=4, abort=1)])],
    bounds='two patches of any size, tilt and offset')
CHECKS['P19'] = dict(harnesses=[
    H('verb.cc', 'verb', quick=[dict(kind=2)]),
    H('verb.cc', 'verb', quick=[dict(kind=3)] + [
        dict(kind=3, lng=l, dir=d, half=h, off=o) for l in (30, -50)
        for d, h in ((30, -1), (210, 1)) for o in (0, 20)],
      opts=dict(taylor=1))],
    bounds='3 patches of any position at 4 interfaces; search areas of '
    '3000 m x 1000 m at fixed places and directions')
CHECKS['P21'] = dict(harnesses=[
    H('rvbts.cc', 'rvbts', quick=[dict(kind=0), dict(kind=0, nf=3),
      dict(kind=0, verbs=2, n=3), dict(kind=0, weak=1), dict(kind=0, weak=2), dict(kind=0, weak=3, pulse=300), dict(kind=1), dict(kind=1, hosted=0), dict(kind=1, abort=1)])],
    bounds='2 channels, up to 4 times, 3 frequencies, 2 biverbs')
CHECKS['P10'] = dict(harnesses=[
    H('plat.cc', 'plat', quick=[dict(kind=0)] + [dict(kind=1, which=w) for w in range(4)] + [dict(kind=2)], opts=dict(max_paths=20000))],
    bounds='histories of 3 (manager) and 4 (notifiers) operations, 2 keys, 2 listeners, 3 platforms')
CHECKS['P13'] = dict(harnesses=[
    H('plat.cc', 'plat', quick=[dict(kind=10), dict(kind=11), dict(kind=11, lat=0, elapsed=1)], opts=dict(max_paths=20000))],
    bounds='histories of 4 operations on 3 children; one host, child and grandchild of any orientation')
CHECKS['P15'] = dict(harnesses=[
    H('sens.cc', 'sens', quick=[dict(kind=0, types=t) for t in (333, 312, 132, 123, 311, 322, 112, 212)] + [dict(kind=0, types=333, near=1), dict(kind=0, types=321, bad=1), dict(kind=0, types=332, bad=2, sensors=2)], opts=dict(max_paths=20000))],
    bounds='histories of 4 operations on up to 3 sensors of any groups')
CHECKS['P16'] = dict(harnesses=[
    H('sens.cc', 'sens', quick=[dict(kind=1, which=w) for w in range(7)] + [dict(kind=1, which=0, type=1), dict(kind=1, which=2, stop=1), dict(kind=1, which=2, reverb=0), dict(kind=1, which=2, reverb=0, target=1), dict(kind=1, which=3, yaw=1)] + [dict(kind=2, ranged=r, self=f, reverb=b) for r, f, b in ((0, 1, 0), (1, 0, 0), (2, 0, 1), (2, 1, 0))], opts=dict(max_paths=20000))],
    bounds='3 updates of one sensor, 3 other platforms, any changes of up to 3 thresholds and any limits of range')
CHECKS['P14'] = dict(harnesses=[
    H('sens.cc', 'sens', quick=[dict(kind=3), dict(kind=3, rcv=1), dict(kind=3, mono=1), dict(kind=3, rcv=1, rays=1, reverb=0), dict(kind=4), dict(kind=4, mono=1), dict(kind=4, reverb=0), dict(kind=4, half=1, steps=3), dict(kind=4, pulse=0), dict(kind=4, remove=1)], opts=dict(max_paths=20000))],
    bounds='2 rays; histories of 4 updates of one pair')
CHECKS['P09'] = dict(harnesses=[
    H('math.cc', 'math', quick=[dict(kind=k) for k in range(8)], opts=dict(max_paths=4000))],
    bounds='vectors of 2 and matrices of 2x1 elements of any value in the stated ranges')
CHECKS['P12'] = dict(harnesses=[
    H('lock.cc', 'lock', quick=[dict(group=g) for g in range(6)], opts=dict(max_paths=4000))],
    bounds='one operation while one other thread holds its lock for reading, for writing, or not at all')
