"""Tracks: where a received entity is from where a sensor stands, and what another
sensor makes of it."""
import math
import struct

import numpy as np

from .. import bridge, core, model
from ..world import R, create, serialize
from .c15 import forward, ned

ID = 'C31'
RUNS = dict(quick=16000, thorough=480000)
MUST_FIRE = ('loss', 'duplicate', 'delay', 'crash', 'move', 'handover', 'overhead', 'on the spot', 'near-pole', 'pole',
             'turn-column')
RULE = ('A run is a few sensors, which move, restart and each keep one converter, that receive the entity states of '
        'a fleet through a faulty network, make tracks of them about where they stand (north, east, down; range, '
        'azimuth, elevation) and hand tracks over to each other in Data PDUs. The oracle is an independent tangent '
        'frame at the latitude and longitude the sensor was put at.')
STATES = 'distinct (query, argument types, latitude class, distance class)'
REAL = ['opendis.RangeCoordinates', 'opendis.dis7', 'opendis.stream', 'opendis.PduFactory']
STUB = ['network', 'node processes']
ASSUMES = ['WGS84 as the library states it (a = 6378137.0, b = 6356752.3142)',
           'a sensor exactly on the axis of the earth may take any direction for north']
FORMS = ('tuple', 'list', 'array', 'kept')


def gen_place(rng):
    lat, lon = rng.uniform(-90, 90), rng.uniform(-180, 180)
    r = rng.random()
    if r < .06:
        lat = rng.choice((90.0, -90.0))
    elif r < .18:
        lat = rng.choice((1, -1)) * (90 - 10 ** rng.uniform(-9, 0))
    elif r < .25:
        lat = rng.choice((0.0, 45.0, 1e-9, -30.0))
    if rng.random() < .15:
        lon = rng.choice((0.0, 180.0, -180.0, 90.0, -90.0, 179.999999))
    x, y = model.word(rng, -90, 90), model.word(rng, -180, 180)
    lat, lon = lat if x is None else x, lon if y is None else y
    return [lat, lon, rng.choice((0.0, rng.uniform(-500, 9000), rng.uniform(-11000, 1e5), rng.uniform(1e5, 4e7)))]


def gen_target(rng, sensors):
    """a point of space, most often seen from one of the sensors"""
    r = rng.random()
    if r < .2:
        return [rng.uniform(-7e6, 7e6) for _ in range(3)]
    lat, lon, alt = rng.choice(sensors)
    o = forward(math.radians(lat), math.radians(lon), alt)
    if r < .25:
        return o
    ax = ned(math.radians(lat), math.radians(lon))
    d = 10 ** rng.uniform(-3, 8)
    v = [rng.gauss(0, 1) for _ in range(3)]
    if r < .35:
        v = [0.0, 0.0, rng.choice((1.0, -1.0))]
    elif r < .5:
        v[rng.randrange(3)] = 0.0
        v[rng.randrange(3)] *= 10 ** rng.uniform(-9, 0)
    m = math.sqrt(sum(c * c for c in v)) or 1.0
    return [o[k] + d / m * sum(ax[k][j] * v[j] for j in range(3)) for k in range(3)]


def gen_turn(rng):
    """[angle, axis in the frame of the sensor, kind of argument]"""
    a = [0.0, 0.0, 0.0]
    if rng.random() < .4:
        a[rng.randrange(3)] = rng.choice((1.0, -1.0))
    else:
        v = [rng.gauss(0, 1) for _ in range(3)]
        m = math.sqrt(sum(c * c for c in v))
        a = [c / m for c in v]
    t = rng.choice((0.0, math.pi / 2, math.pi, -math.pi / 6, 10 ** rng.uniform(-10, -3), rng.uniform(-7, 7), rng.uniform(-7, 7)))
    return [t, a, rng.choice(('column', 'column', 'list', 'tuple', 'array', 'view'))]


def gen(rng, i):
    net = core.gen_net(rng)
    net['corrupt'] = net['padded'] = 0
    n = rng.choice((1, 2, 2, 3))
    sensors = [gen_place(rng) for _ in range(n)]
    if n > 1 and rng.random() < .4:             # two that stand close together
        sensors[1] = [max(-90.0, min(90.0, sensors[0][0] + rng.uniform(-.1, .1))), sensors[0][1], sensors[0][2] + 10]
    t, ops, start = 0.0, [], [list(s) for s in sensors]
    fleet = rng.choice((1, 2, 3))
    for k in range(rng.choice((4, 8, 16))):
        t = round(t + rng.random(), 6)
        s = rng.randrange(n)
        r = rng.random()
        if r < .4 or k < 2:
            ops.append(dict(k='state', t=t, e=rng.randrange(fleet), at=gen_target(rng, sensors),
                            fates={str(d): core.gen_fate(rng, net) for d in range(n)}))
        elif r < .7:
            ops.append(dict(k='look', t=t, s=s, forms=[rng.choice(FORMS) for _ in range(3)], turn=gen_turn(rng)))
        elif r < .85 and n > 1:
            d = rng.choice([x for x in range(n) if x != s])
            ops.append(dict(k='tell', t=t, s=s, polar=rng.random() < .3, fates={str(d): core.gen_fate(rng, net)}))
        elif r < .94:
            at = gen_place(rng)
            if rng.random() < .5:               # a short way
                d = 10 ** rng.uniform(-9, -1)
                at = [max(-90.0, min(90.0, sensors[s][0] + rng.uniform(-d, d))), sensors[s][1] + rng.uniform(-d, d),
                      sensors[s][2] + rng.choice((0.0, rng.uniform(-50, 50)))]
            sensors = sensors[:s] + [at] + sensors[s + 1:]
            ops.append(dict(k='move', t=t, s=s, at=sensors[s]))
        else:
            ops.append(dict(k='crash', t=t, s=s, back=round(t + rng.random() * 3, 6)))
    return dict(sensors=start, ops=ops)


def shaped(x, form, kept=None):
    if form == 'kept' and kept is not None:     # an array its owner moves
        kept[:] = x
        return kept
    return list(x) if form == 'list' else tuple(x) if form == 'tuple' else np.array(x, dtype=float)


def floats(x):
    return [float(c) for c in x]


def local(origin, p):
    """p about a place given by latitude, longitude, height; -> ned, distance"""
    lat, lon = math.radians(origin[0]), math.radians(origin[1])
    o = forward(lat, lon, origin[2])
    d = [a - b for a, b in zip(p, o)]
    ax = ned(lat, lon)
    return [sum(d[k] * ax[k][j] for k in range(3)) for j in range(3)], math.sqrt(sum(c * c for c in d))


def run(plan, ctx):
    sim = core.Sim(ctx)
    net = core.Net(sim, ctx)
    where = [list(s) for s in plan['sensors']]
    node = {}

    def place(s):
        return forward(math.radians(where[s][0]), math.radians(where[s][1]), where[s][2])

    def tolerance(dist, p, o):
        return 1e-6 + 2e-10 * dist + 4e-15 * (max(map(abs, p)) + max(map(abs, o)))

    def judge(sig, what, origin, p, got):
        """got is p about origin"""
        want, dist = local(origin, p)
        o = forward(math.radians(origin[0]), math.radians(origin[1]), origin[2])
        tol = tolerance(dist, p, o)
        if abs(origin[0]) == 90:
            # any direction is as good as north
            want = [math.hypot(*want[:2]), 0.0, want[2]]
            got = [math.hypot(*got[:2]), 0.0, got[2]]
        off = math.dist(got, want)
        ctx.check(off < tol, sig, lambda: f'{what}: {got} instead of {want}, off by {off}')

    def polar(what, v, got, tol):
        r, az, el = got
        ctx.check(-180 - 1e-9 <= az <= 180 + 1e-9 and -90 - 1e-9 <= el <= 90 + 1e-9 and r >= 0, 'polar range',
                  lambda: f'{what}: range {r}, azimuth {az}, elevation {el}')
        a, e = math.radians(az), math.radians(el)
        back = [r * math.cos(e) * math.cos(a), r * math.cos(e) * math.sin(a), -r * math.sin(e)]
        ctx.check(math.dist(back, v) < tol, 'polar', lambda: f'{what}: {got} is {back}, not {v}')

    def whole(what, g, p, o, forms, tol):
        """whole metres are the same numbers whatever type they have"""
        wp, wo = [round(c) for c in p], [round(c) for c in o]
        if forms[0] == 'array' and max(map(abs, wp)) < 1 << 53:
            wp, wo = np.array(wp), np.array(wo)
        fwp, fwo = [float(c) for c in wp], [float(c) for c in wo]
        a = floats(g.ecef2ned(wp, wo))
        b = floats(g.ecef2ned(fwp, fwo))
        ctx.check(math.dist(a, b) < tol, 'whole metres', lambda: f'{what}: {wp!r} about {wo!r} is {a}, as floats {b}')
        w = shaped([c + .25 for c in a], forms[1])
        a = floats(g.ned2ecef(w, wo))
        b = floats(g.ned2ecef(w, fwo))
        ctx.check(math.dist(a, b) < tol, 'whole metres', lambda: f'{what}: {w!r} about {wo!r} is {a}, as floats {b}')

    def turn(what, g, axes, v, dist, op):
        """the head turns, and what was at v is elsewhere"""
        t, axis, form = op
        if form == 'column':
            arg = np.array([[c] for c in axis])
        elif form == 'view':
            arg = np.array([axis, axis]).T[:, 1]
        else:
            arg = shaped(axis, form)
        m = g.rotate_3x3(t, arg)
        got = floats(np.dot(m, v))
        x, y, z = axis
        cross = [y * v[2] - z * v[1], z * v[0] - x * v[2], x * v[1] - y * v[0]]
        along = sum(a * b for a, b in zip(axis, v))
        want = [v[k] * math.cos(t) + cross[k] * math.sin(t) + axis[k] * along * (1 - math.cos(t)) for k in range(3)]
        ctx.check(math.dist(got, want) <= 1e-9 + 1e-13 * dist, 'turn', lambda: (
            f'{what}: {v} turned by {t} about {arg!r} is {got} instead of {want}'))
        ctx.check(floats(np.ravel(arg)) == axis, 'input changed', lambda: f'{what}: axis {arg!r}')
        ctx.fault('turn-' + form)
        d = R.geo.rad2deg(t)
        ctx.check(abs(d - math.degrees(t)) <= 1e-13 * abs(d) and abs(R.geo.deg2rad(d) - t) <= 1e-15 * abs(t), 'degrees',
                  lambda: f'{t} is {d} degrees')

    def look(n, s, e, p, forms, op):
        g = node[s]['gps']
        o = place(s)
        what = f'op {n}: sensor {s} at {where[s]} sees {p}'
        fp, fo = shaped(p, forms[0], node[s]['p']), shaped(o, forms[1], node[s]['o'])
        dist = math.dist(p, o)
        tol = tolerance(dist, p, o)
        v = g.ecef2ned(fp, fo)
        ctx.check(len(v) == 3, 'shape', lambda: f'{what}: {v!r}')
        v = floats(v)
        judge('track', what, where[s], p, v)
        polar(what, v, floats(g.ned2pae(shaped(v, forms[2]))), 1e-9 + 1e-12 * dist)
        pae = floats(g.ecef2pae(fp, fo))
        polar(what + ' (at once)', v, pae, 1e-9 + 1e-12 * dist)
        back = floats(g.ned2ecef(shaped(v, forms[2]), fo))
        ctx.check(math.dist(back, p) < tol, 'there and back', lambda: f'{what}: its track {v} is back at {back}')
        ctx.check(floats(fp) == list(p) and floats(fo) == list(o), 'input changed', lambda: f'{what}: {fp!r}, {fo!r}')
        if forms[2] == 'list':
            whole(what, g, p, o, forms, tol)
        # the axes by themselves
        m = g.ecefvec2nedvec(math.radians(where[s][0]), math.radians(where[s][1]))
        ax = ned(math.radians(where[s][0]), math.radians(where[s][1]))
        d = max(abs(float(m[j][k]) - ax[k][j]) for j in range(3) for k in range(3))
        ctx.check(d < 1e-12, 'axes', lambda: f'{what}: axes {m!r}')
        turn(what, g, m, v, dist, op['turn'])
        ctx.check(abs(R.geo.euclideanDistance(fp, fo) - dist) <= 1e-12 * dist, 'distance', lambda: f'{what}: {dist} away')
        # over the ground, in height, and with a fourth of the kind
        lp, lo = list(p), list(o)
        for a, b in ((lp[:2], lo[:2]), (lp[2:], lo[2:]), (lp + [0.0], lo + [0.0]), (lp + lo, lo + lp), (lp, [0.0] * 3)):
            w = math.dist(a, b)
            for got in (R.geo.euclideanDistance(shaped(a, forms[0]), shaped(b, forms[1])),
                        R.geo.euclideanDistance([x - y for x, y in zip(a, b)])):
                ctx.check(abs(got - w) <= 1e-12 * w, 'distance', lambda: f'{what}: {a} and {b} are {got} apart')
        # a display whose origin is this sensor's place
        scene = g.lla2gcc(tuple(where[s]), ' '.join(repr(c) for c in (where[s][1], where[s][0], where[s][2])))
        ctx.check(max(map(abs, floats(scene))) < 1e-6, 'scene', lambda: f'{what}: its own place is at {scene!r}')
        scene = floats(g.lla2gcc((where[s][0], where[s][1], where[s][2] + 100.0), ' '.join(
            repr(c) for c in (where[s][1], where[s][0], where[s][2]))))
        up = [-100 * c[2] for c in ax]
        ctx.check(math.dist(scene, up) < 1e-6, 'scene', lambda: f'{what}: 100 m above it is at {scene!r}')
        scene = floats(g.lla2gcc(tuple(where[s])))
        ctx.check(math.dist(scene, o) < 1e-6, 'scene', lambda: f'{what}: without an origin {scene!r}')
        # a converter has no memory: a new one says the same
        again = floats(R.geo.GPS().ecef2ned(p, o))
        ctx.check(again == v, 'memory', lambda: f'{what}: {v}, from a new converter {again}')
        ctx.state('look', *forms, int(abs(where[s][0]) / 5), int(math.log10(dist + 1e-3)))
        if dist < 1e-6:
            ctx.fault('on the spot')
        elif math.hypot(v[0], v[1]) < 1e-6 * dist:
            ctx.fault('overhead')
        if abs(where[s][0]) == 90:
            ctx.fault('pole')
        elif abs(where[s][0]) > 89:
            ctx.fault('near-pole')
        return v, pae

    def step(n, op):
        s = op.get('s')
        if op['k'] == 'state':
            pdu = R.dis7.EntityStatePdu()
            pdu.entityID.entityNumber = op['e']
            pdu.entityLocation.x, pdu.entityLocation.y, pdu.entityLocation.z = op['at']
            net.send('f', serialize(pdu), op['fates'], n)
        elif op['k'] == 'move':
            ctx.fault('move')
            where[s] = list(op['at'])
        elif op['k'] == 'crash':
            if s in node:
                ctx.fault('crash')
                del node[s]
                net.leave(str(s))
                sim.at(op['back'], boot, s)
        elif s in node:
            for e, p in sorted(node[s]['table'].items()):
                if op['k'] == 'look':
                    v, pae = look(n, s, e, p, op['forms'], op)
                    ctx.log(f'{sim.now:.6f}', 'look', n, e, [c.hex() for c in v + pae])
                else:
                    o = place(s)
                    v = floats(node[s]['gps'].ecef2ned(p, o))
                    pdu = R.dis7.DataPdu()
                    d = R.dis7.VariableDatum(variableDatumID=e, variableDatumLength=9 * 64, variableData=list(
                        struct.pack('>9d', *o, *v, *p)))
                    pdu.variableDatumRecords.append(d)
                    net.send(str(s), serialize(pdu), op['fates'], n)

    def arrive(s, src, body, intact, what, meta):
        pdu = create(body)
        if isinstance(pdu, R.dis7.EntityStatePdu):
            loc = pdu.entityLocation
            node[s]['table'][pdu.entityID.entityNumber] = [loc.x, loc.y, loc.z]
            ctx.log(f'{sim.now:.6f}', 'state', s, meta)
            return
        # a track another sensor has of something
        ctx.fault('handover')
        for d in pdu.variableDatumRecords:
            x = struct.unpack('>9d', bytes(d.variableData))
            o, v, p = list(x[:3]), list(x[3:6]), list(x[6:])
            what = f'op {meta}: sensor {s}, told {v} about {o}'
            got = floats(node[s]['gps'].ned2ecef(v, o))
            ctx.check(math.dist(got, p) < tolerance(math.dist(p, o), p, o), 'handover', lambda: (
                f'{what}: takes it to be at {got} instead of {p}'))
            mine = floats(node[s]['gps'].ecef2ned(got, place(s)))
            judge('handover', what, where[s], got, mine)
            ctx.state('handover', int(math.log10(math.dist(p, o) + 1e-3)))
            ctx.log(f'{sim.now:.6f}', 'told', s, meta, [c.hex() for c in mine])

    def boot(s):
        if s not in node:
            node[s] = dict(gps=R.geo.GPS(), table={}, p=np.zeros(3), o=np.zeros(3))
            net.join(str(s), lambda *a: arrive(s, *a))

    for s in range(len(where)):
        boot(s)
    for n, op in enumerate(plan['ops']):
        sim.at(op['t'], step, n, op)
    sim.run()
