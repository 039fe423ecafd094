"""Dead reckoning between nodes whose clocks disagree: shared by C12, C13, C14.

An owner publishes entity states over the simulated network; a receiver keeps
the last state of each entity and extrapolates it at the times of its own frame
clock, which is skewed, drifts and jumps, with states late, lost and repeated.
"""
import math

import numpy as np

from . import bridge, core, model
from .world import R, create, serialize

# algorithm: the arguments it takes, in order (p position, v velocity,
# a acceleration, t elapsed time, o orientation, w angular velocity)
ALGS = {'static': 'po', 'fpw': 'pvto', 'rpw': 'pvtow', 'rvw': 'pvatow', 'fvw': 'pvato', 'fpb': 'pvto',
        'rpb': 'pvtow', 'rvb': 'pvatow', 'fvb': 'pvato'}
ROTATING = {'rpw', 'rvw', 'rpb', 'rvb'}
BODY = {'fpb', 'rpb', 'rvb', 'fvb'}
FORMS = ('list', 'tuple', 'array', 'array', 'f32', 'ints', 'mixed', 'view', 'frozen', 'swapped')


def gen_vec(rng, scale):
    r = rng.random()
    if r < .12:
        return [0.0, 0.0, 0.0]
    if r < .3:
        v = [0.0, 0.0, 0.0]
        v[rng.randrange(3)] = rng.uniform(-scale, scale)
        return v
    if r < .4:
        return [float(rng.randrange(-9, 10)) for _ in range(3)]
    return [rng.uniform(-scale, scale) for _ in range(3)]


def gen_theta(rng):
    r = rng.random()
    if r < .12:
        return rng.choice((math.pi / 2, -math.pi / 2))
    if r < .22:                         # steep, but clear of the threshold
        return rng.choice((1, -1)) * (math.pi / 2 - 10 ** rng.uniform(-4, -1))
    if r < .3:
        return rng.choice((0.0, math.pi, -math.pi, 3 * math.pi / 2))
    if r < .36:                         # nearly level
        return rng.choice((0.0, 0.0, math.pi)) + rng.choice((1, -1)) * 10 ** rng.uniform(-8, -2)
    return rng.uniform(-math.pi, math.pi)


def gen_attitude(rng):
    if rng.random() < .12:              # level, and level but for one angle
        o = [0.0, 0.0, 0.0]
        if rng.random() < .5:
            o[rng.randrange(3)] = rng.choice((math.pi / 2, math.pi, -math.pi / 2, -0.0, rng.uniform(-3, 3),
                                              10 ** rng.uniform(-8, -2)))
        return o
    return [rng.uniform(-math.pi, math.pi), gen_theta(rng), rng.uniform(-math.pi, math.pi)]


def gen_state(rng):
    return dict(p=model.some(rng, -1e9, 1e9, gen_vec(rng, rng.choice((7e6, 7e6, 100, 1e9)))),
                v=model.some(rng, -1e4, 1e4, gen_vec(rng, rng.choice((10, 300, 8000)))),
                a=model.some(rng, -500, 500, gen_vec(rng, rng.choice((1, 10, 500)))),
                o=model.some(rng, -7, 7, gen_attitude(rng)),
                w=model.some(rng, -50, 50, gen_vec(rng, rng.choice((.1, 1, 20)))))


def gen(rng, i):
    net = core.gen_net(rng)
    net['corrupt'] = 0
    n = rng.choice((1, 2, 3))
    t, ops = 0.0, []
    for k in range(rng.choice((4, 8, 16))):
        t = round(t + (model.word(rng, 0, 1e5) or rng.choice((0.0, .01, .1, 1, 10)) * rng.random()), 6)
        if rng.random() < .35 or k < n:
            ops.append(dict(k='state', t=t, e=k if k < n else rng.randrange(n), s=gen_state(rng), fate=core.gen_fate(rng, net)))
        elif rng.random() < .1:
            ops.append(dict(k='jump', t=t, by=rng.choice((-30.0, -1.0, 1.0, 3600.0, 1e5))))
        else:
            ops.append(dict(k='frame', t=t, e=rng.randrange(n), alg=rng.choice(sorted(ALGS)),
                            forms=[rng.choice(FORMS) for _ in range(5)], exact=rng.random() < .15,
                            dt=rng.choice(('float', 'float', 'np64', 'int')), wire=rng.random() < .5))
    # frames after the network fell silent
    for e in range(n):
        for alg in rng.sample(sorted(ALGS), 3):
            t = round(t + rng.choice((0.0, 5.0, 20.0)), 6)
            ops.append(dict(k='frame', t=t, e=e, alg=alg, forms=[rng.choice(FORMS) for _ in range(5)], exact=False,
                            dt='float', wire=rng.random() < .5))
    return dict(offset=rng.choice((0.0, 0.0, -.5, .5, -100.0)), drift=rng.choice((0, 1e-3, -1e-3)), ops=ops)


def shaped(x, form):
    """the same three numbers as another kind of vector; -> (argument, what it
    must be afterwards)"""
    if form == 'list':
        return list(x)
    if form == 'tuple':
        return tuple(x)
    if form == 'f32':
        return np.array(x, dtype=np.float32)
    if form == 'ints' and all(c == int(c) and abs(c) < 2 ** 31 for c in x):
        return [int(c) for c in x]
    if form == 'mixed':                 # whole numbers among others
        return [int(c) if c == int(c) and abs(c) < 2 ** 53 else c for c in x]
    if form == 'frozen':                # the application means it not to change
        a = np.array(x, dtype=float)
        a.flags.writeable = False
        return a
    if form == 'swapped':               # as it came from the network
        return np.array(x, dtype='>f8')
    if form == 'view':
        a = np.zeros(7)
        a[1::2] = x
        return a[1::2]
    return np.array(x, dtype=float)


def floats(arg):
    return [float(c) for c in arg]


def call(alg, args, dt, module=None):
    kw = [dt if k == 't' else args[k] for k in ALGS[alg]]
    return getattr(module or R.dr, 'drm_' + alg)(*kw)


# --------------------------------------------------------------- the oracle
def rotate(psi, theta, phi, x):
    """body to world: about x by phi, about y by theta, about z by psi"""
    a, b, c = x
    b, c = b * math.cos(phi) - c * math.sin(phi), b * math.sin(phi) + c * math.cos(phi)
    a, c = a * math.cos(theta) + c * math.sin(theta), -a * math.sin(theta) + c * math.cos(theta)
    a, b = a * math.cos(psi) - b * math.sin(psi), a * math.sin(psi) + b * math.cos(psi)
    return [a, b, c]


def position(alg, p, v, a, t, o):
    """-> (expected position, size of the terms it is the sum of)"""
    if alg == 'static':
        return list(p), [0.0] * 3
    d = [x * t for x in v]
    m = [abs(x) for x in d]
    if 'a' in ALGS[alg]:
        e = [x * t * t / 2 for x in a]
        d = [x + y for x, y in zip(d, e)]
        m = [x + abs(y) for x, y in zip(m, e)]
    if alg in BODY:
        d = rotate(*o, d)
        m = [sum(m)] * 3
    return [x + y for x, y in zip(p, d)], [abs(x) + y for x, y in zip(p, m)]


def orientation(alg, o, w, t):
    """-> (expected, tolerance per angle)"""
    if alg not in ROTATING:
        return list(o), [0.0] * 3
    psi, theta, phi = o
    p, q, r = w
    c = math.cos(theta)
    s = q * math.sin(phi) + r * math.cos(phi)
    size = abs(q) + abs(r)
    if abs(c) < 1e-6:
        rate, m = [0.0, q * math.cos(phi) - r * math.sin(phi), p], [0.0, size, abs(p)]
    else:
        rate = [s / c, q * math.cos(phi) - r * math.sin(phi), p + s * math.sin(theta) / c]
        m = [size / abs(c) ** 2, size, abs(p) + size / abs(c) ** 2]
    return [x + y * t for x, y in zip(o, rate)], [1e-12 + 1e-11 * (abs(x) + y * abs(t)) for x, y in zip(o, m)]


class Fleet:
    def __init__(self, plan, ctx, judge):
        self.plan, self.ctx, self.judge = plan, ctx, judge
        self.sim = core.Sim(ctx)
        self.clock = core.Clock(self.sim, plan['offset'], plan['drift'])
        self.net = core.Net(self.sim, ctx)
        self.table = {}
        self.net.join('r', self.arrive)
        for n, op in enumerate(plan['ops']):
            self.sim.at(op['t'], self.step, n, op)

    def step(self, n, op):
        if op['k'] == 'jump':
            self.ctx.fault('clock-jump')
            self.clock.jump(op['by'])
        elif op['k'] == 'state':
            s = op['s']
            pdu = R.dis7.EntityStatePdu()
            pdu.entityID.entityNumber = op['e']
            for rec, k in ((pdu.entityLocation, 'p'), (pdu.entityLinearVelocity, 'v'),
                           (pdu.deadReckoningParameters.entityLinearAcceleration, 'a'),
                           (pdu.deadReckoningParameters.entityAngularVelocity, 'w')):
                rec.x, rec.y, rec.z = s[k]
            o = pdu.entityOrientation
            o.psi, o.theta, o.phi = s['o']
            self.net.send('s', serialize(pdu), {'r': op['fate']}, n)
        else:
            self.frame(n, op)

    def arrive(self, src, body, intact, what, meta):
        op = self.plan['ops'][meta]
        pdu = create(body)
        a, w, o = (pdu.deadReckoningParameters.entityLinearAcceleration,
                   pdu.deadReckoningParameters.entityAngularVelocity, pdu.entityOrientation)
        got = dict(p=[pdu.entityLocation.x, pdu.entityLocation.y, pdu.entityLocation.z],
                   v=[pdu.entityLinearVelocity.x, pdu.entityLinearVelocity.y, pdu.entityLinearVelocity.z],
                   a=[a.x, a.y, a.z], w=[w.x, w.y, w.z], o=[o.psi, o.theta, o.phi])
        self.table[pdu.entityID.entityNumber] = (op['t'], got, op['s'])
        self.ctx.log(f'{self.sim.now:.6f}', 'state', meta)

    def frame(self, n, op):
        e = self.table.get(op['e'])
        if e is None:
            self.ctx.probes['frame before any state'] += 1
            return
        stamp, wire, own = e
        dt = self.clock.now() - stamp
        if op['exact']:
            dt = 0.0
        if dt < 0:
            self.ctx.fault('negative elapsed time')
        if dt > 1000:
            self.ctx.fault('stale state')
        if op['dt'] == 'int':
            dt = int(dt)
        elif op['dt'] == 'np64':
            dt = np.float64(dt)
        src = wire if op['wire'] else own
        args = {k: shaped(src[k], f) for k, f in zip('pvaow', op['forms'])}
        c = abs(math.cos(float(args['o'][1])))
        if 1e-7 < c < 1e-5:             # either side of the gimbal threshold is right here
            self.ctx.probes['at the gimbal threshold'] += 1
            return
        if c <= 1e-7:
            self.ctx.probes['gimbal lock'] += 1
        self.ctx.state(op['alg'], *op['forms'], dt < 0, dt == 0, c <= 1e-7)
        self.ctx.log(f'{self.sim.now:.6f}', 'frame', n, op['alg'], float(dt).hex())
        self.judge(n, op, args, dt, self.ctx)

    def run(self):
        self.sim.run()


def checked(ctx, n, op, args, dt):
    """the call; a result is two vectors of three finite numbers"""
    what = f'op {n}: drm_{op["alg"]} over {float(dt)!r} s from {[floats(args[k]) for k in "pvaow"]}'
    pos, ori = call(op['alg'], args, dt)
    ctx.check(len(pos) == 3 and len(ori) == 3, 'shape', lambda: f'{what}: {pos!r}, {ori!r}')
    return what, pos, ori


def near(ctx, got, want, tol, sig, what):
    for k in range(3):
        ctx.check(abs(float(got[k]) - want[k]) <= tol[k], sig,
                  lambda: f'{what}: {[float(c) for c in got]} instead of {want}')
