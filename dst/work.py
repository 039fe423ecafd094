"""What one thread, signal handler or stream callback does with the library, and
what it must get: shared by C06 and C24."""
import math

from . import bridge, core, fleet, model
from .streams import Reader, Writer
from .world import MODES, R, create, pick_pdu, same

ALGS = ['static', 'fpw', 'rpw', 'rvw', 'fvw', 'fpb', 'rpb', 'rvb', 'fvb', 'rpb', 'rvb']


def gen_pose(rng):
    if rng.random() < .2:               # at a pole, on the equator, straight up, level, at rest
        return [rng.choice((0.0, 1.5, rng.uniform(-1.5, 1.5))), rng.choice((0.0, math.pi, -math.pi / 2)),
                rng.choice((0.0, -50.0, 3e5)), rng.choice((0.0, rng.uniform(-3, 3))),
                rng.choice((0.0, math.pi / 2, -math.pi / 2)), rng.choice((0.0, rng.uniform(-3, 3)))]
    return [rng.uniform(-1.5, 1.5), rng.uniform(-3.1, 3.1), rng.uniform(-100, 1e5),
            rng.uniform(-3, 3), rng.uniform(-1.4, 1.4), rng.uniform(-3, 3)]


KINDS = ('encode', 'encode', 'decode', 'decode', 'create', 'unknown', 'parse', 'shared', 'trip', 'geo', 'dr', 'dr', 'name', 'file')


def gen_op(rng, names, poses, size=(0, 0, 1, 1, 2)):
    k = rng.choice(KINDS)
    op = dict(k=k)
    if k in ('encode', 'decode', 'create', 'parse', 'trip', 'file'):
        op['v'] = model.gen(rng.choice(names), rng, rng.choice(size))
        op['mode'] = rng.choice(MODES)
    elif k == 'unknown':
        op['data'] = (bytes([7, 1, rng.randrange(80, 256)]) + rng.randbytes(rng.randrange(40))).hex()
    elif k == 'shared':
        op['o'] = rng.randrange(2)
    elif k == 'name':
        op['name'] = rng.choice(('', 'A', 'TANK 1', 'ABCDEFGHIJK', 'a name that is cut'))
    else:
        op['x'] = rng.choice(poses) if rng.random() < .7 else gen_pose(rng)
        op['alg'] = rng.sample(ALGS, 2)
    return op


_kin = {}


def kin(name):
    """PDUs that hold records few others hold, as the named one does"""
    if not _kin:
        parts = {}

        def walk(v, out):
            if isinstance(v, dict):
                out.add(v.get('__c'))
                for x in v.values():
                    walk(x, out)
            elif isinstance(v, (list, tuple)):
                for x in v:
                    walk(x, out)
        for n in model.PDUS:
            parts[n] = set()
            for k in range(6):
                walk(model.gen(n, core.rng_of('kin', n, k), 2), parts[n])
            parts[n] -= {n, None}
        for n in model.PDUS:
            rare = {c for c in parts[n] if sum(c in p for p in parts.values()) <= 4}
            _kin[n] = [m for m in model.PDUS if rare & parts[m]] or [n]
    return _kin[name]


def gen_names(rng, i):
    """threads or handlers busy with the same few classes collide most"""
    a = pick_pdu(rng, i, 0)
    r = rng.random()
    return [a, rng.choice(kin(a))] if r < .35 else [a, rng.choice(model.PDUS)] if r < .75 else model.PDUS


def gen_poses(rng):
    poses = [gen_pose(rng) for _ in range(2)]
    return poses + [poses[0][:3] + poses[1][3:]]        # two entities with one attitude


class W(Writer):
    def __init__(self, point):
        super().__init__()
        self.point = point

    def write(self, b):
        self.point()
        return super().write(b)


class Rd(Reader):
    def __init__(self, point, data):
        super().__init__(data)
        self.point = point

    def read(self, n=-1):
        self.point()
        return super().read(n)


def geo(x):
    """the same calls, for one thread alone and among others"""
    g = GPS
    pose = g.llarpy2ecef(*x)
    back = g.ecef2llarpy(*[float(c) for c in pose])
    lla = g.ecef2lla([float(c) for c in pose[:3]])
    return [float(c).hex() for c in list(pose) + list(back) + list(lla)]


def dr(x, algs):
    args = dict(p=[1e6 * c for c in x[:3]], v=x[3:], a=x[:3], o=x[3:], w=[.1, .2, .3] if x[5] else [0.0, 0.0, 0.0])
    out = []
    for alg in algs:
        q, o = fleet.call(alg, args, 1.5)
        out += [float(c).hex() for c in list(q) + list(o)]
    return out


GPS = R.geo.GPS()


def expected(op):
    """what coordinates and dead reckoning give when nothing else goes on"""
    return geo(op['x']) if op['k'] == 'geo' else dr(op['x'], op['alg']) if op['k'] == 'dr' else None


def do(ctx, op, what, point, shared, alone, path):
    """one operation, checked; point is called at every stream call, path is a
    file of its own"""
    k = op['k']
    if k == 'shared':
        obj, want, _ = shared[op['o']]
        w = W(point)
        obj.serialize(R.stream.DataOutputStream(w))
        ctx.fault('shared-send')
        ctx.check(w.getvalue() == want, 'shared', lambda: f'{what}: {w.getvalue().hex()[:200]} sent '
                  f'instead of {want.hex()[:200]}')
    elif k in ('geo', 'dr'):
        got = expected(op)
        ctx.check(got == alone, k, lambda: f'{what}: {got} instead of {alone}')
    elif k == 'name':
        m = R.dis7.EntityMarking()
        m.setString(op['name'])
        point()
        ctx.check(m.charactersString() == op['name'][:11], 'name', lambda: f'{what}: {op["name"]!r} became '
                  f'{m.charactersString()!r}')
    elif k == 'file':
        v = op['v']
        with open(path, 'wb') as f:
            f.write(model.encode(v))
        obj = R.factory.createPduFromFilePath(path)
        if v['__c'] in model.DISPATCHED:
            same(ctx, model.delivered(v), obj, 'read from a file', what)
    elif k == 'unknown':
        got = create(bytes.fromhex(op['data']))
        ctx.check(got is None, 'unknown', lambda: f'{what}: {got!r} from {op["data"]}')
    elif k == 'create':
        v = op['v']
        obj = create(model.encode(v))
        if v['__c'] in model.DISPATCHED:
            same(ctx, model.delivered(v), obj, 'created', what)
    else:
        v = op['v']
        want = model.encode(v)
        if k in ('encode', 'trip'):
            obj = bridge.build(v, op['mode'])
            w = W(point)
            obj.serialize(R.stream.DataOutputStream(w))
            ctx.check(w.getvalue() == want, 'sent', lambda: f'{what}: {v["__c"]} '
                      f'{w.getvalue().hex()[:200]} sent instead of {want.hex()[:200]}')
        if k != 'encode':
            inp = R.stream.DataInputStream(Rd(point, want))
            if k == 'parse' or v['__c'] not in model.DISPATCHED:
                obj = bridge.blank(v['__c'])
                obj.parse(inp)
            else:
                obj = R.factory.getPdu(inp)
            ctx.fault('blocked-stream', 1)
            same(ctx, model.delivered(v), obj, 'received', what)
