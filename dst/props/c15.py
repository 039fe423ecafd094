"""Where an entity is and how it lies, from its owner's instruments to every
receiver's map."""
import math

from .. import bridge, core, model
from ..world import R, create, serialize

ID = 'C15'
RUNS = dict(quick=14000, thorough=420000)
MUST_FIRE = ('loss', 'duplicate', 'delay', 'crash', 'anywhere', 'near-pole', 'pole', 'gimbal')
RULE = ('A run is a fleet whose owners convert latitude, longitude, height and attitude into entity states and '
        'whose receivers, each with one converter it keeps using, convert them back, through a faulty network; '
        'some states are arbitrary points of space. The oracle is an independent forward map: results are mapped '
        'to space again and compared there, attitudes as rotation matrices.')
STATES = 'distinct (latitude and height class, attitude class)'
REAL = ['opendis.RangeCoordinates', 'opendis.dis7', 'opendis.stream', 'opendis.PduFactory']
STUB = ['network', 'node processes']
ASSUMES = ['WGS84 as the library states it (a = 6378137.0, b = 6356752.3142)',
           'on the axis itself heights are rounded to centimetres and the longitude is arbitrary (documented)',
           'points within 50 km of the center of the earth are only required to terminate']
STEPS = 2_000_000

A, B = 6378137.0, 6356752.3142
F = (A - B) / A
E2 = F * (2 - F)


def forward(lat, lon, alt):
    n = A / math.sqrt(1 - E2 * math.sin(lat) ** 2)
    return [(n + alt) * math.cos(lat) * math.cos(lon), (n + alt) * math.cos(lat) * math.sin(lon),
            (n * (1 - E2) + alt) * math.sin(lat)]


def matmul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def euler(z, y, x):
    """columns are the body axes: turn by z, then about the new y, then the new x"""
    cz, sz, cy, sy, cx, sx = math.cos(z), math.sin(z), math.cos(y), math.sin(y), math.cos(x), math.sin(x)
    return matmul(matmul([[cz, -sz, 0], [sz, cz, 0], [0, 0, 1]], [[cy, 0, sy], [0, 1, 0], [-sy, 0, cy]]),
                  [[1, 0, 0], [0, cx, -sx], [0, sx, cx]])


def ned(lat, lon):
    """columns are north, east, down in space"""
    return [[-math.sin(lat) * math.cos(lon), -math.sin(lon), -math.cos(lat) * math.cos(lon)],
            [-math.sin(lat) * math.sin(lon), math.cos(lon), -math.cos(lat) * math.sin(lon)],
            [math.cos(lat), 0.0, -math.sin(lat)]]


def apart(a, b):
    return max(abs(a[i][j] - b[i][j]) for i in range(3) for j in range(3))


def gen_place(rng):
    r = rng.random()
    lat = rng.uniform(-math.pi / 2, math.pi / 2)
    lon = rng.uniform(-math.pi, math.pi)
    if r < .1:
        lat = rng.choice((1, -1)) * math.pi / 2
    elif r < .25:
        lat = rng.choice((1, -1)) * (math.pi / 2 - 10 ** rng.uniform(-14, -2))
    elif r < .35:
        lat = rng.choice((0.0, 1e-9, -1e-12, math.pi / 4))
    r = rng.random()
    if r < .15:
        lon = rng.choice((0.0, math.pi, -math.pi, math.pi / 2, -math.pi / 2, math.pi - 1e-12))
    alt = rng.choice((0.0, rng.uniform(-500, 9000), rng.uniform(-11000, 50000), rng.uniform(1e5, 4e7), rng.uniform(-6e6, 4e8)))
    x = model.word(rng, -math.pi / 2, math.pi / 2)
    y = model.word(rng, -math.pi, math.pi)
    z = model.word(rng, -6e6, 4e8)
    return [lat if x is None else x, lon if y is None else y, alt if z is None else z]


def gen_attitude(rng):
    pitch = rng.uniform(-math.pi / 2, math.pi / 2)
    r = rng.random()
    if r < .15:
        pitch = rng.choice((math.pi / 2, -math.pi / 2, math.pi / 2 - 1e-7))
    elif r < .3:
        pitch = 0.0
    a = [rng.uniform(-math.pi, math.pi), pitch, rng.uniform(-math.pi, math.pi)]
    if rng.random() < .2:
        a[0] = rng.choice((0.0, math.pi, math.pi / 2))
    if rng.random() < .2:
        a[2] = rng.choice((0.0, math.pi, -math.pi / 2))
    x = model.word(rng, -math.pi / 2, math.pi / 2)
    if x is not None:
        a[rng.randrange(3)] = x
    return a


def gen_point(rng):
    r = rng.random()
    if r < .3:
        m = 10 ** rng.uniform(-3, 12)
        v = [rng.gauss(0, 1) for _ in range(3)]
        if rng.random() < .4:
            v[rng.randrange(3)] *= 10 ** rng.uniform(-14, 0)
        n = math.sqrt(sum(c * c for c in v)) or 1.0
        return [c / n * m for c in v]
    if r < .45:
        return [rng.choice((0.0, -0.0)), rng.choice((0.0, -0.0)), rng.choice((1, -1)) * rng.uniform(6.3e6, 7e6)]
    if r < .6:
        return [rng.choice((1e-9, 1e-3, 1.0, -5.0)), rng.choice((0.0, 1e-6, 2.0)), rng.choice((1, -1)) * rng.uniform(6.3e6, 7e6)]
    if r < .75:
        v = [0.0, 0.0, 0.0]
        v[rng.randrange(2)] = rng.choice((1, -1)) * rng.uniform(6.37e6, 7e6)
        return v
    return [rng.uniform(-7e6, 7e6) for _ in range(3)]


def gen(rng, i):
    net = core.gen_net(rng)
    net['corrupt'] = 0
    ops, t = [], 0.0
    for _ in range(rng.choice((2, 4, 8, 14))):
        t = round(t + rng.random(), 6)
        if rng.random() < .7:
            ops.append(dict(k='fleet', t=t, at=gen_place(rng), lies=gen_attitude(rng), fate=core.gen_fate(rng, net)))
        else:
            ops.append(dict(k='alien', t=t, at=gen_point(rng), lies=gen_attitude(rng), fate=core.gen_fate(rng, net)))
    down = [round(rng.uniform(0, t), 6)] if rng.random() < .3 else []
    return dict(ops=ops, reboots=down)


def run(plan, ctx):
    sim = core.Sim(ctx)
    net = core.Net(sim, ctx)
    mine = R.geo.GPS()
    node = [R.geo.GPS()]

    def send(n, op):
        lat, lon, alt = op['at']
        roll, pitch, yaw = op['lies']
        if op['k'] == 'fleet':
            if abs(abs(lat) - math.pi / 2) < 1e-9:
                ctx.fault('pole')
            elif abs(lat) > 1.55:
                ctx.fault('near-pole')
            if abs(abs(pitch) - math.pi / 2) < 1e-6:
                ctx.fault('gimbal')
            what = f'op {n}: latitude {lat!r} longitude {lon!r} height {alt!r} roll {roll!r} pitch {pitch!r} yaw {yaw!r}'
            x, y, z, psi, theta, phi = (float(c) for c in mine.llarpy2ecef(lat, lon, alt, roll, pitch, yaw))
            want = forward(lat, lon, alt)
            d = math.dist((x, y, z), want)
            ctx.check(d < 1e-3, 'place sent', lambda: f'{what}: sent as {(x, y, z)}, {d} m from {want}')
            lie = matmul(ned(lat, lon), euler(yaw, pitch, roll))
            off = apart(lie, euler(psi, theta, phi))
            ctx.check(off < 1e-6, 'attitude sent', lambda: f'{what}: sent as {(psi, theta, phi)}, off by {off}')
            q = mine.lla2ecef((math.degrees(lat), math.degrees(lon), alt))
            d = math.dist([float(c) for c in q], want)
            ctx.check(d < 1e-3, 'place sent', lambda: f'{what}: lla2ecef gives {q}, {d} m from {want}')
        else:
            ctx.fault('anywhere')
            x, y, z = op['at']
            psi, theta, phi = op['lies'][2], op['lies'][1], op['lies'][0]
        pdu = R.dis7.EntityStatePdu()
        pdu.entityLocation.x, pdu.entityLocation.y, pdu.entityLocation.z = x, y, z
        o = pdu.entityOrientation
        o.psi, o.theta, o.phi = psi, theta, phi
        net.send('s', serialize(pdu), {'r': op['fate']}, n)

    def arrive(src, body, intact, what, meta):
        op = plan['ops'][meta]
        pdu = create(body)
        p = [pdu.entityLocation.x, pdu.entityLocation.y, pdu.entityLocation.z]
        o = [pdu.entityOrientation.psi, pdu.entityOrientation.theta, pdu.entityOrientation.phi]
        what = f'op {meta}: {p} {o}'
        r = math.sqrt(sum(c * c for c in p))
        axis = p[0] == 0 and p[1] == 0
        ctx.state(int(abs(p[2]) / max(r, 1e-300) * 20), int(math.log10(max(r, 1e-9))), axis, int(abs(o[1]) * 10))
        try:
            lat, lon, alt, roll, pitch, yaw = (float(c) for c in node[0].ecef2llarpy(*p, *o))
            lla = [float(c) for c in node[0].ecef2lla(p)]
        except Exception as e:
            if axis and p[2] == 0 or r < 5e4:
                ctx.probes['center of the earth'] += 1
                return
            raise core.Violation('refused', f'{what}: {e!r}')
        ctx.log(f'{sim.now:.6f}', 'map', meta, lat.hex(), lon.hex(), alt.hex(), roll.hex(), pitch.hex(), yaw.hex())
        if r >= 5e4:
            tol = (.011 if axis else 1e-3) + r * 1e-11
            for la, lo, al in ((lat, lon, alt), (math.radians(lla[0]), math.radians(lla[1]), lla[2])):
                d = math.dist(forward(la, lo, al), p)
                ctx.check(d < tol, 'place read', lambda: f'{what}: read as {(la, lo, al)}, {d} m away')
                ctx.check(abs(la) <= math.pi / 2 + 1e-12 and abs(lo) <= math.pi + 1e-12, 'range',
                          lambda: f'{what}: read as {(la, lo, al)}')
                ctx.check(al > -A, 'height', lambda: f'{what}: read as {(la, lo, al)}')
            off = apart(matmul(ned(lat, lon), euler(yaw, pitch, roll)), euler(*o))
            ctx.check(off < 2e-6, 'attitude read', lambda: f'{what}: read as {(roll, pitch, yaw)}, off by {off}')
            if op['k'] == 'fleet' and op['at'][2] > -5e6:
                # the receiver's map shows what the owner's instruments said
                want = forward(*op['at'])
                d = math.dist(forward(lat, lon, alt), want)
                ctx.check(d < .013 + r * 1e-11, 'place end to end', lambda: f'{what}: {d} m from where its owner is')
                off = apart(matmul(ned(lat, lon), euler(yaw, pitch, roll)),
                            matmul(ned(op['at'][0], op['at'][1]), euler(op['lies'][2], op['lies'][1], op['lies'][0])))
                ctx.check(off < 3e-6, 'attitude end to end', lambda: f'{what}: off by {off} from its owner\'s')
        # a converter has no memory: a new one says the same
        again = [float(c).hex() for c in R.geo.GPS().ecef2llarpy(*p, *o)]
        ctx.check(again == [c.hex() for c in (lat, lon, alt, roll, pitch, yaw)], 'memory',
                  lambda: f'{what}: a new converter gives {again}')

    def reboot():
        ctx.fault('crash')
        node[0] = R.geo.GPS()

    net.join('r', arrive)
    for n, op in enumerate(plan['ops']):
        sim.at(op['t'], send, n, op)
    for t in plan['reboots']:
        sim.at(t, reboot)
    sim.run()
