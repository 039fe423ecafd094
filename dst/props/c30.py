"""Map sheets: the grid reference every receiver plots a fleet at."""
import math

import numpy as np

from .. import core, model
from ..world import R, create, serialize
from .c15 import A, F, forward

ID = 'C30'
RUNS = dict(quick=20000, thorough=600000)
MUST_FIRE = ('loss', 'duplicate', 'delay', 'crash', 'crossing', 'southern', 'exception zone', 'zone edge', 'band edge')
RULE = ('A run is a fleet that moves over the earth, across the edges of zones and bands, and is plotted on the UTM '
        'grid by its owner and by receivers behind a faulty network, each with one converter it keeps using. The '
        'oracle is the transverse Mercator projection by Krueger\'s series and the zone rules of the grid.')
STATES = 'distinct (zone, band, distance from the central meridian)'
REAL = ['opendis.RangeCoordinates', 'opendis.dis7', 'opendis.stream', 'opendis.PduFactory']
STUB = ['network', 'node processes']
ASSUMES = ['WGS84 as the library states it (a = 6378137.0, b = 6356752.3142)',
           'longitude 180 E may be plotted in zone 60 or in zone 1',
           'latitudes from 80 S up to, but not at, 84 N; elsewhere there is no UTM']

N_ = F / (2 - F)
ECC = math.sqrt(F * (2 - F))
ALPHA = [N_ / 2 - 2 * N_ ** 2 / 3 + 5 * N_ ** 3 / 16 + 41 * N_ ** 4 / 180 - 127 * N_ ** 5 / 288,
         13 * N_ ** 2 / 48 - 3 * N_ ** 3 / 5 + 557 * N_ ** 4 / 1440 + 281 * N_ ** 5 / 630,
         61 * N_ ** 3 / 240 - 103 * N_ ** 4 / 140 + 15061 * N_ ** 5 / 26880,
         49561 * N_ ** 4 / 161280 - 179 * N_ ** 5 / 168, 34729 * N_ ** 5 / 80640]
RECT = A / (1 + N_) * (1 + N_ ** 2 / 4 + N_ ** 4 / 64)
BANDS = 'CDEFGHJKLMNPQRSTUVWX'


def project(lat, dlon):
    """-> easting, northing (from the equator), scale, in a zone of UTM"""
    s = math.sin(lat)
    t = math.sinh(math.atanh(s) - ECC * math.atanh(ECC * s))
    x1, y1 = math.atan2(t, math.cos(dlon)), math.asinh(math.sin(dlon) / math.hypot(t, math.cos(dlon)))
    x, y, p, q = x1, y1, 1.0, 0.0
    for j, a in enumerate(ALPHA, 1):
        u, w = 2 * j * x1, 2 * j * y1
        x += a * math.sin(u) * math.cosh(w)
        y += a * math.cos(u) * math.sinh(w)
        p += 2 * j * a * math.cos(u) * math.cosh(w)
        q += 2 * j * a * math.sin(u) * math.sinh(w)
    m = ((1 - N_) / (1 + N_) * math.tan(lat)) ** 2
    k = .9996 * RECT / A * math.sqrt((1 + m) * (p * p + q * q) / (t * t + math.cos(dlon) ** 2))
    return 500000 + .9996 * RECT * y, .9996 * RECT * x, k


def zone(lat, lon):
    if lon == 180:
        lon = -180.0
    if 56 <= lat < 64 and 3 <= lon < 12:
        return 32
    if lat >= 72 and 0 <= lon < 42:
        return 31 if lon < 9 else 33 if lon < 21 else 35 if lon < 33 else 37
    return int(math.floor((lon + 180) / 6)) + 1


def zones(lat, lon, slack):
    """the zones a point that is not known better than slack may be in"""
    out = set()
    for a in (lat - slack, lat, lat + slack):
        for b in (lon - slack, lon, lon + slack):
            b = b + 360 if b < -180 else b - 360 if b > 180 else b
            out.add(zone(min(max(a, -80.0), 83.9999999999), b))
    if lon + slack >= 180 or lon - slack <= -180:
        out |= {60, 1}
    return out


def band(lat):
    return BANDS[min(int((lat + 80) // 8), 19)]


def bands(lat, slack):
    return {band(min(max(x, -80.0), 83.9999999)) for x in (lat - slack, lat, lat + slack)}


def snap(x):
    """an edge, or clear of it"""
    return float(round(x)) if abs(x - round(x)) < 1e-11 else x


def gen_place(rng):
    lat, lon = rng.uniform(-80, 83.999), rng.uniform(-180, 180)
    r = rng.random()
    if r < .2:                          # Norway, Svalbard
        lat = rng.choice((rng.uniform(55, 65), rng.uniform(71, 83.999)))
        lon = rng.choice((rng.uniform(-2, 44), float(rng.choice((0, 3, 6, 9, 12, 21, 33, 42)))))
    elif r < .35:
        lat = float(rng.choice((56, 64, 72, 0, 80, -80, 8 * rng.randrange(-10, 11))))
    if rng.random() < .2:
        lon = float(6 * rng.randrange(-30, 31) + rng.choice((0, 3)))
    if rng.random() < .15:
        lon += rng.choice((1, -1)) * 10 ** rng.uniform(-9, -1)
    if rng.random() < .1:
        lat += rng.choice((1, -1)) * 10 ** rng.uniform(-9, -1)
    x, y = model.word(rng, -80, 83.9999), model.word(rng, -180, 180)
    lat, lon = snap(lat if x is None else x), snap(lon if y is None else y)
    return [min(max(lat, -80.0), 83.9999), min(max(lon, -180.0), 180.0),
            rng.choice((0.0, rng.uniform(-400, 9000), -10 ** rng.uniform(-3, 6), rng.uniform(0, 4e7)))]


def gen(rng, i):
    net = core.gen_net(rng)
    net['corrupt'] = net['padded'] = 0
    t, ops, at = 0.0, [], gen_place(rng)
    for _ in range(rng.choice((2, 5, 10, 16))):
        t = round(t + rng.random(), 6)
        if rng.random() < .5:           # a short way on, maybe over an edge
            d = 10 ** rng.uniform(-6, .5)
            at = [min(max(at[0] + rng.uniform(-d, d), -80.0), 83.9999), at[1] + rng.uniform(-d, d), at[2]]
            at[1] = at[1] + 360 if at[1] < -180 else at[1] - 360 if at[1] > 180 else at[1]
        else:
            at = gen_place(rng)
        ops.append(dict(k='crash', t=t) if rng.random() < .06 else
                   dict(k='state', t=t, at=at, form=rng.choice(('tuple', 'list', 'array')), fate=core.gen_fate(rng, net)))
    return dict(ops=ops)


def run(plan, ctx):
    sim = core.Sim(ctx)
    net = core.Net(sim, ctx)
    own = R.geo.GPS()
    node = [R.geo.GPS()]
    last = [None]

    def judge(what, lat, lon, alt, got, slack):
        try:
            (x, y, z), (sheet, k) = got
            x, y, z, k = float(x), float(y), float(z), float(k)
            n, letter = int(sheet[:-1]), sheet[-1]
        except (TypeError, ValueError):
            raise core.Violation('shape', f'{what}: {got!r}')
        what = f'{what}: plotted at {sheet} {x} {y} {z}'
        ctx.check(n in zones(lat, lon, slack), 'zone', lambda: f'{what}, zone {zones(lat, lon, slack)}')
        ctx.check(letter in bands(lat, slack), 'band', lambda: f'{what}, band {bands(lat, slack)}')
        d = (lon - (6 * n - 183) + 180) % 360 - 180
        e, north, scale = project(math.radians(lat), math.radians(d))
        south = {1e7} if lat < -slack else {0.0} if lat > slack or slack == 0 else {0.0, 1e7}
        far = min(math.hypot(x - e, y - north - s) for s in south)
        ctx.check(far < .005 + slack * 2e5, 'grid', lambda: (
            f'{what}, {far} m from {e} {[north + s for s in sorted(south)]}'))
        ctx.check(abs(z - alt) < 1e-9 + abs(alt) * 1e-14 + slack * 2e5, 'height', lambda: f'{what}, at {alt} m')
        ctx.check(abs(k - scale) < 1e-8 + slack, 'scale', lambda: f'{what}, scale {k} instead of {scale}')
        ctx.state(n, letter, round(d))
        return sheet

    def step(n, op):
        if op['k'] == 'crash':
            ctx.fault('crash')
            node[0] = R.geo.GPS()
            return
        lat, lon, alt = op['at']
        what = f'op {n}: latitude {lat!r} longitude {lon!r}'
        arg = tuple(op['at']) if op['form'] == 'tuple' else list(op['at']) if op['form'] == 'list' else np.array(op['at'])
        sheet = judge(what, lat, lon, alt, own.lla2utm(arg), 0)
        ctx.check([float(c) for c in arg] == op['at'], 'input changed', lambda: f'{what}: {arg!r}')
        if last[0] not in (None, sheet):
            ctx.fault('crossing')
        last[0] = sheet
        if lat < 0:
            ctx.fault('southern')
        if (lon + 180) % 6 == 0:
            ctx.fault('zone edge')
        if lat % 8 == 0:
            ctx.fault('band edge')
        if zone(lat, lon) != zone(0, lon):
            ctx.fault('exception zone')
        pdu = R.dis7.EntityStatePdu()
        pdu.entityLocation.x, pdu.entityLocation.y, pdu.entityLocation.z = forward(math.radians(lat), math.radians(lon), alt)
        net.send('s', serialize(pdu), {'r': op['fate']}, n)
        ctx.log(f'{sim.now:.6f}', 'state', n, sheet)

    def arrive(src, body, intact, what, meta):
        pdu = create(body)
        p = [pdu.entityLocation.x, pdu.entityLocation.y, pdu.entityLocation.z]
        lat, lon, alt = plan['ops'][meta]['at']
        got = node[0].ecef2utm(p)
        judge(f'op {meta}: received {p}', lat, lon, alt, got, 1e-10)
        again = R.geo.GPS().ecef2utm(p)
        ctx.check(repr(again) == repr(got), 'memory', lambda: f'op {meta}: {got!r}, from a new converter {again!r}')
        ctx.log(f'{sim.now:.6f}', 'plot', meta, got[1][0], float(got[0][0]).hex(), float(got[0][1]).hex())

    net.join('r', arrive)
    for n, op in enumerate(plan['ops']):
        sim.at(op['t'], step, n, op)
    sim.run()
