"""Situation pictures: once the network delivers again, everyone shows what owners own."""
import math

from .. import bridge, core, fleet, model
from ..world import R, create, parse_into, same, serialize
from . import c25
from .c15 import forward

ID = 'C26'
RUNS = dict(quick=3500, thorough=105000)
MUST_FIRE = ('loss', 'duplicate', 'delay', 'partition', 'truncate', 'bitflip', 'garbage', 'crash-owner', 'crash-receiver',
             'manoeuvre', 'rename', 'remove', 'late-joiner', 'time-out', 'update', 'beyond-threshold', 'undecodable')
RULE = ('A run is an exercise with owners that publish entity states and other PDUs at heartbeats, or when dead reckoning '
        'leaves a threshold, and receivers that keep pictures, through a network that loses, repeats, delays, damages and '
        'partitions, with restarts of all of them; then faults stop, and within a timeout every picture must be the truth. '
        'The oracle is the truth of the owners, moved by equations of motion of the harness.')
STATES = 'distinct (algorithm, way the owner and the receiver keep objects, what happened to the entity)'
REAL = ['opendis.dis7', 'opendis.record', 'opendis.stream', 'opendis.PduFactory', 'opendis.DeadReckoning',
        'opendis.RangeCoordinates']
STUB = ['network', 'node processes', 'clocks']
BEAT, TIMEOUT, TICK, LATE = 5.0, 12.0, .5, 6.0
XYZ, ANGLES = ('x', 'y', 'z'), ('psi', 'theta', 'phi')
Q = 3600 / 2 ** 31                      # of a time stamp
FAR = 1.0                               # metres that dead reckoning may be off at the owner
CODES = {'static': 1, 'fpw': 2, 'rpw': 3, 'rvw': 4, 'fvw': 5, 'fpb': 6, 'rpb': 7, 'rvb': 8, 'fvb': 9}
ALG = {v: k for k, v in CODES.items()}
NAMES = ('', 'A', 'ABRAMS 1', 'Leopard 2A7', 'exactly 11c', 'x' * 10)
# PDUs that are states, and are repeated
STATES_PDUS = ('TransmitterPdu', 'DesignatorPdu', 'ReceiverPdu', 'ElectronicEmissionsPdu', 'IFFPdu', 'AggregateStatePdu',
               'PointObjectStatePdu', 'LinearObjectStatePdu', 'ArealObjectStatePdu', 'MinefieldStatePdu',
               'EnvironmentalProcessPdu', 'GriddedDataPdu', 'DirectedEnergyFirePdu', 'EntityDamageStatusPdu', 'SEESPdu',
               'IntercomControlPdu', 'IsGroupOfPdu', 'TspiPdu', 'AppearancePdu', 'AttributePdu', 'UaPdu',
               'SupplementalEmissionEntityStatePdu', 'IsPartOfPdu', 'DataPdu')
STATES_PDUS = tuple(n for n in STATES_PDUS if n in model.DISPATCHED)


def gen_motion(rng):
    return dict(v=fleet.gen_vec(rng, rng.choice((10, 300))), a=fleet.gen_vec(rng, rng.choice((1, 10))),
                w=fleet.gen_vec(rng, .1))


def gen_looks(rng):
    v = model.plain(model.gen('EntityStatePdu', rng, 1))
    return dict(name=rng.choice(NAMES), appearance=rng.getrandbits(32), vp=v['variableParameters'][:4],
                cap=rng.getrandbits(32))


def gen(rng, i):
    net = core.gen_net(rng)
    owners, receivers = rng.choice((1, 2, 2)), rng.choice((1, 2, 2))
    n = rng.choice((1, 2, 3))
    ents = []
    for e in range(n):
        v = model.plain(model.gen('EntityStatePdu', rng, 0))
        lat, lon = rng.uniform(-89, 89), rng.uniform(-180, 180)
        p = forward(math.radians(lat), math.radians(lon), rng.uniform(-100, 20000))
        ents.append(dict(owner=rng.randrange(owners), id=[rng.choice((1, 65535)), rng.choice((1, 2)), 1 + e * rng.choice((1, 256))],
                         type=v['entityType'], alt=v['alternativeEntityType'], force=v['forceId'],
                         alg=rng.choice(sorted(CODES)), p=p, o=[rng.uniform(-3, 3), rng.uniform(-1, 1), rng.uniform(-3, 3)],
                         start=rng.choice((0.0, 0.0, round(rng.uniform(0, 15), 3))), **gen_motion(rng), **gen_looks(rng)))
    for e in ents[1:]:                  # identities differ in one place only
        if rng.random() < .5:
            e['id'] = ents[0]['id'][:2] + [e['id'][2]]
    ids = {tuple(e['id']) for e in ents}
    for k, e in enumerate(ents):
        if sum(x['id'] == e['id'] for x in ents) > 1:
            e['id'] = [3, k, 7]
    others = [dict(owner=rng.randrange(owners), v=model.plain(model.gen(c, rng, rng.choice((0, 1, 2)))))
              for c in rng.sample(STATES_PDUS, rng.choice((0, 1, 2)))]
    end = rng.choice((10.0, 20.0, 35.0))
    ops = []
    for _ in range(rng.choice((2, 5, 9))):
        t = round(rng.uniform(.3, end), 3)
        r = rng.random()
        e = rng.randrange(n)
        if r < .4:
            ops.append(dict(k='manoeuvre', t=t, e=e, **gen_motion(rng)))
        elif r < .55:
            ops.append(dict(k='rename', t=t, e=e, **gen_looks(rng)))
        elif r < .63:
            ops.append(dict(k='remove', t=t, e=e))
        elif r < .75 and others:
            ops.append(dict(k='other', t=t, n=rng.randrange(len(others)), seed=rng.randrange(1 << 30)))
        elif r < .85:
            ops.append(dict(k='crash', t=t, node=f's{rng.randrange(owners)}', back=round(t + rng.choice((.5, 4, 14)), 3)))
        else:
            ops.append(dict(k='crash', t=t, node=f'r{rng.randrange(receivers)}', back=round(t + rng.choice((.5, 4, 14)), 3)))
    cuts = []
    if rng.random() < .4:
        a = rng.uniform(0, end)
        cuts.append([round(a, 3), round(min(end, a + rng.choice((2, 14))), 3), [f'r{rng.randrange(receivers)}']])
    joins = [0.0 if rng.random() < .8 else round(rng.uniform(0, end), 3) for _ in range(receivers)]
    return dict(owners=owners, ents=ents, others=others, end=end, cuts=cuts, joins=joins,
                kept=[rng.random() < .5 for _ in range(owners)], into=[rng.random() < .4 for _ in range(receivers)],
                partial=rng.choice((0, 0, 2, 3)), ops=sorted(ops, key=lambda o: o['t']),
                fates=[core.gen_fate(rng, net) for _ in range(60)])


def moved(s, t):
    """the state of motion s at a later time t"""
    d = t - s['t']
    p, _ = fleet.position(s['alg'], s['p'], s['v'], s['a'], d, s['o'])
    o, _ = fleet.orientation(s['alg'], s['o'], s['w'], d)
    v = [x + y * d for x, y in zip(s['v'], s['a'])] if 'a' in fleet.ALGS[s['alg']] else s['v']
    return dict(s, p=p, o=[math.remainder(x, 2 * math.pi) for x in o], v=v, t=t)


def stamp(t):
    return int(t / Q) << 1 | 1


def when(ts):
    return (ts >> 1) * Q


def vec(rec, a=XYZ):
    return [getattr(rec, k) for k in a]


def reckon(pdu, t):
    """where the library takes it to be at time t -> position, orientation"""
    d = pdu.deadReckoningParameters
    args = dict(p=vec(pdu.entityLocation), v=vec(pdu.entityLinearVelocity), a=vec(d.entityLinearAcceleration),
                w=vec(d.entityAngularVelocity), o=vec(pdu.entityOrientation, ANGLES))
    return fleet.call(ALG[d.deadReckoningAlgorithm], args, t - when(pdu.timestamp))


def blank():
    return {k: x for k, x in c25.blank('EntityStatePdu').items()}


def value(x, s, looks, ts):
    """the entity state of an entity at a time"""
    f, v = model.f32, blank()
    d = v['deadReckoningParameters']

    def xyz(r, p, num=f, names=XYZ):
        return dict(r, **dict(zip(names, map(num, p))))
    return dict(
        v, exerciseID=1, timestamp=ts, forceId=x['force'],
        entityID=dict(v['entityID'], simulationAddress=dict(v['entityID']['simulationAddress'], site=x['id'][0],
                                                            application=x['id'][1]), entityNumber=x['id'][2]),
        entityType=x['type'], alternativeEntityType=x['alt'], entityLocation=xyz(v['entityLocation'], s['p'], float),
        entityLinearVelocity=xyz(v['entityLinearVelocity'], s['v']),
        entityOrientation=xyz(v['entityOrientation'], s['o'], f, ANGLES),
        entityAppearance=looks['appearance'], capabilities=looks['cap'],
        marking=dict(v['marking'], characters=list(looks['name'].encode()[:11].ljust(11, b'\0'))),
        deadReckoningParameters=dict(d, deadReckoningAlgorithm=CODES[s['alg']],
                                     entityLinearAcceleration=xyz(d['entityLinearAcceleration'], s['a']),
                                     entityAngularVelocity=xyz(d['entityAngularVelocity'], s['w'])),
        variableParameters=looks['vp'])


PARTS = ('timestamp', 'entityLocation', 'entityLinearVelocity', 'entityOrientation', 'entityAppearance', 'variableParameters')


def fill(pdu, s, looks):
    for rec, k in ((pdu.entityLocation, 'p'), (pdu.entityLinearVelocity, 'v')):
        rec.x, rec.y, rec.z = s[k]
    o = pdu.entityOrientation
    o.psi, o.theta, o.phi = s['o']
    pdu.entityAppearance = looks['appearance']
    pdu.variableParameters = [bridge.build(x, 'attrs') for x in looks['vp']]


class Owner:
    """publishes what it owns"""

    def __init__(self, world, name):
        self.w, self.name = world, name
        self.objs, self.last, self.others, self.sent = {}, {}, {}, {}
        self.n = int(name[1:])
        self.kept = world.plan['kept'][self.n]
        world.net.join(name, lambda *a: None)

    def tick(self):
        w, now = self.w, self.w.sim.now
        if w.up.get(self.name) is not self or now > w.sim.horizon - .5:
            return
        for e, s in enumerate(w.truth):
            if s is not None and w.plan['ents'][e]['owner'] == self.n and self.due(e, s, now):
                self.publish(e, now)
        for k, x in enumerate(w.others):
            if w.plan['others'][k]['owner'] == self.n and (
                    k not in self.others or now - self.others[k][0] >= BEAT - 1e-9 or self.others[k][1] is not x):
                self.others[k] = (now, x)
                w.send(self.name, serialize(bridge.build(x, 'ctor' if self.kept else 'attrs')), ('o', k, x))
        w.sim.after(TICK, self.tick)

    def due(self, e, s, now):
        if e not in self.last or now - self.last[e] >= BEAT - 1e-9 or e in self.w.news:
            return True
        pos, _ = reckon(self.objs[e], now)
        if math.dist([float(c) for c in pos], moved(s, now)['p']) > FAR:
            self.w.ctx.fault('beyond-threshold')
            self.w.full.add(e)
            return True
        return False

    def publish(self, e, now):
        w = self.w
        ts, x, looks = stamp(now), w.plan['ents'][e], w.looks[e]
        s = moved(w.truth[e], when(ts))
        if abs(math.cos(s['o'][1])) < .05:
            s['o'][1] = 0.0             # an upright entity levels out
        w.truth[e] = s
        w.news.discard(e)
        self.last[e] = now
        self.sent[e] = self.sent.get(e, 0) + 1
        pdu = self.objs.get(e)
        if pdu is None or not self.kept:
            pdu = R.dis7.EntityStatePdu()
        self.objs[e] = pdu
        pdu.exerciseID, pdu.timestamp, pdu.forceId = 1, ts, x['force']
        i = pdu.entityID
        i.simulationAddress.site, i.simulationAddress.application, i.entityNumber = x['id']
        pdu.entityType = bridge.build(x['type'], 'ctor')
        pdu.alternativeEntityType = bridge.build(x['alt'], 'attrs')
        fill(pdu, s, looks)
        pdu.marking.setString(looks['name'])
        pdu.capabilities = looks['cap']
        d = pdu.deadReckoningParameters
        d.deadReckoningAlgorithm = CODES[s['alg']]
        for rec, k in ((d.entityLinearAcceleration, 'a'), (d.entityAngularVelocity, 'w')):
            rec.x, rec.y, rec.z = s[k]
        w.published[e] = want = value(x, s, looks, ts)
        every = w.plan['partial']
        if every and self.sent[e] % every and e not in w.full and now < w.plan['end']:
            w.ctx.fault('update')
            up = R.dis7.EntityStateUpdatePdu()
            up.exerciseID, up.timestamp, up.entityID = 1, ts, pdu.entityID
            fill(up, s, looks)
            w.send(self.name, serialize(up), ('u', e, want))
        else:
            w.full.discard(e)
            data, octets = serialize(pdu), model.encode(want)
            w.ctx.check(data == octets, 'published', lambda: f'entity {e} at {now}: {data.hex()} instead of {octets.hex()}')
            w.send(self.name, data, ('e', e, want))
        w.ctx.state(s['alg'], self.kept, every, len(looks['vp']), looks['name'])


class Receiver:
    """keeps a picture: identity -> [object, expected value, time of arrival]"""

    def __init__(self, world, name):
        self.w, self.name = world, name
        self.into = world.plan['into'][int(name[1:])]
        self.picture, self.others, self.gps = {}, {}, R.geo.GPS()
        if world.sim.now:
            world.ctx.fault('late-joiner')
        world.net.join(name, self.arrive)

    @staticmethod
    def ident(i):
        return (i.simulationAddress.site, i.simulationAddress.application, i.entityNumber)

    def arrive(self, src, body, intact, what, meta):
        w, now = self.w, self.w.sim.now
        kind, n, want = w.sent[meta]
        try:
            pdu = create(body)
        except Exception as e:
            w.ctx.check(not intact, 'refused', lambda: f'{self.name}: {kind}{n} at {now}: {e!r}')
            w.ctx.fault('undecodable')
            w.ctx.log(f'{now:.6f}', self.name, 'undecodable', meta)
            return
        w.ctx.log(f'{now:.6f}', self.name, kind, meta, intact)
        d = R.dis7
        if type(pdu) is d.EntityStatePdu:
            i = self.ident(pdu.entityID)
            old = self.picture.get(i)
            if abs(when(pdu.timestamp) - now) > LATE or old and when(pdu.timestamp) < when(old[0].timestamp):
                return                  # too old, or from a broken clock
            if self.into and old:
                pdu = parse_into(old[0], body)
            self.picture[i] = [pdu, want if intact else None, now]
            if intact:
                same(w.ctx, want, pdu, 'received', f'{self.name} at {now}: entity {n}')
        elif type(pdu) is d.EntityStateUpdatePdu:
            old = self.picture.get(self.ident(pdu.entityID))
            if old and abs(when(pdu.timestamp) - now) <= LATE and when(pdu.timestamp) >= when(old[0].timestamp):
                for a in PARTS:
                    setattr(old[0], a, getattr(pdu, a))
                old[1] = dict(old[1], **{a: want[a] for a in PARTS}) if intact and old[1] else None
                old[2] = now
                if old[1]:
                    same(w.ctx, old[1], old[0], 'updated', f'{self.name} at {now}: entity {n}')
        elif type(pdu) is d.RemoveEntityPdu:
            self.picture.pop(self.ident(pdu.receivingEntityID), None)
        elif pdu is not None:
            if intact:
                same(w.ctx, model.delivered(want), pdu, 'received', f'{self.name} at {now}: {want["__c"]}')
            self.others[src, type(pdu).__name__] = [pdu, want if intact else None, now]

    def tick(self):
        w, now = self.w, self.w.sim.now
        if w.up.get(self.name) is not self:
            return
        for table in self.picture, self.others:
            for i in [i for i, x in table.items() if now - x[2] > TIMEOUT]:
                w.ctx.fault('time-out')
                del table[i]
        for i, (pdu, want, _) in sorted(self.picture.items()):
            if want:
                self.show(pdu, want, now, f'{self.name} at {now}: entity {i}')
        w.sim.after(1.0, self.tick)

    def show(self, pdu, want, now, what):
        ctx = self.w.ctx
        alg = ALG[want['deadReckoningParameters']['deadReckoningAlgorithm']]
        dt = now - when(want['timestamp'])
        p = [want['entityLocation'][k] for k in XYZ]
        v = [want['entityLinearVelocity'][k] for k in XYZ]
        d = want['deadReckoningParameters']
        a, w = ([d[r][k] for k in XYZ] for r in ('entityLinearAcceleration', 'entityAngularVelocity'))
        o = [want['entityOrientation'][k] for k in ANGLES]
        pos, ori = reckon(pdu, now)
        to, size = fleet.position(alg, p, v, a, dt, o)
        fleet.near(ctx, pos, to, [1e-11 * s + 1e-9 for s in size], 'position', what)
        turned, tol = fleet.orientation(alg, o, w, dt)
        fleet.near(ctx, ori, turned, [t + 1e-9 for t in tol], 'orientation', what)
        pos = [float(c) for c in pos]
        if math.hypot(*pos) < 1e6:
            return pos, ori
        lat, lon, alt = self.gps.ecef2lla(pos)
        back = forward(math.radians(lat), math.radians(lon), alt)
        ctx.check(math.dist(back, pos) < 1e-3 + 1e-9 * abs(alt), 'place', lambda: f'{what}: {pos} is {lat}, {lon}, {alt}')
        return pos, ori


class World:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.sim = core.Sim(ctx)
        self.net = core.Net(self.sim, ctx)
        self.net.cuts = [(a, b, set(s)) for a, b, s in plan['cuts']]
        n = len(plan['ents'])
        self.truth, self.looks, self.published = [None] * n, [None] * n, {}
        self.news, self.full, self.up, self.sent, self.count = set(), set(), {}, [], 0
        self.others = [o['v'] for o in plan['others']]
        self.receivers = [f'r{k}' for k in range(len(plan['joins']))]
        self.down = {}
        for e, x in enumerate(plan['ents']):
            self.sim.at(x['start'], self.start, e, x)
        for k in range(plan['owners']):
            self.boot(f's{k}')
        for k, t in enumerate(plan['joins']):
            self.sim.at(t, self.boot, f'r{k}')
        for n, op in enumerate(plan['ops']):
            self.sim.at(op['t'], self.op, n, op)
        self.sim.horizon = plan['end'] + LATE + TIMEOUT + 2 * BEAT + 2

    def start(self, e, x):
        self.truth[e] = dict(t=self.sim.now, alg=x['alg'], **{k: x[k] for k in 'povaw'})
        self.looks[e] = {k: x[k] for k in ('name', 'appearance', 'vp', 'cap')}
        self.full.add(e)

    def boot(self, name):
        if name not in self.up:
            self.up[name] = x = (Owner if name[0] == 's' else Receiver)(self, name)
            if name[0] == 's':
                self.full.update(range(len(self.truth)))
            x.tick()


    def send(self, src, data, meta):
        fates = {}
        for r in self.receivers:
            fates[r] = self.plan['fates'][self.count % len(self.plan['fates'])] if self.sim.now < self.plan['end'] \
                else [[.02, 'ok']]
            self.count += 1
        self.sent.append(meta)
        self.ctx.log(f'{self.sim.now:.6f}', src, 'sends', meta[0], meta[1], core.hashlib.sha1(data).hexdigest()[:12])
        self.net.send(src, data, fates, len(self.sent) - 1)

    def op(self, n, op):
        k, ctx = op['k'], self.ctx
        e = op.get('e')
        ctx.log(f'{self.sim.now:.6f}', 'op', n, k)
        if k == 'crash':
            name = op['node']
            if self.up.get(name):
                ctx.fault('crash-owner' if name[0] == 's' else 'crash-receiver')
                del self.up[name]
                self.net.leave(name)
            self.sim.at(min(op['back'], self.plan['end']), self.boot, name)
        elif k == 'other':
            x = self.others[op['n']]
            edit = model.gen_edit(x, core.rng_of(op['seed']))
            if edit:
                self.others[op['n']] = model.edited(x, *edit)
        elif self.truth[e] is None:
            return
        elif k == 'manoeuvre':
            ctx.fault('manoeuvre')
            self.truth[e] = dict(moved(self.truth[e], self.sim.now), **{a: op[a] for a in 'vaw'})
            self.full.add(e)
        elif k == 'rename':
            ctx.fault('rename')
            self.looks[e] = {a: op[a] for a in ('name', 'appearance', 'vp', 'cap')}
            self.news.add(e)
            self.full.add(e)
        else:
            ctx.fault('remove')
            self.truth[e] = None
            x = self.plan['ents'][e]
            pdu = R.dis7.RemoveEntityPdu()
            i = pdu.receivingEntityID
            i.simulationAddress.site, i.simulationAddress.application, i.entityNumber = x['id']
            if self.up.get(f's{x["owner"]}'):
                self.send(f's{x["owner"]}', serialize(pdu), ('r', e, None))

    def judge(self):
        """faults have stopped long enough: every picture is the truth"""
        ctx, now = self.ctx, self.sim.now
        live = {tuple(self.plan['ents'][e]['id']): e for e, s in enumerate(self.truth) if s is not None}
        for name in self.receivers:
            r = self.up[name]
            ctx.check(set(r.picture) == set(live), 'picture', lambda: f'{name} shows {sorted(r.picture)}, there are {sorted(live)}')
            for i, e in sorted(live.items()):
                pdu = r.picture[i][0]
                what = f'{name} in the end: entity {i}'
                same(ctx, self.published[e], pdu, 'converged', what)
                ctx.check(pdu.marking.charactersString() == self.looks[e]['name'][:11], 'marking', what)
                pos, ori = r.show(pdu, self.published[e], now, what)
                true = moved(self.truth[e], now)
                ctx.check(math.dist(pos, true['p']) < .05, 'truth', lambda: f'{what} is at {pos} instead of {true["p"]}')
                off = max(abs(math.remainder(float(a) - b, 2 * math.pi)) for a, b in zip(ori, true['o']))
                ctx.check(off < 1e-3, 'truth', lambda: f'{what} lies {ori!r} instead of {true["o"]}')
            for k, x in enumerate(self.others):
                src = f's{self.plan["others"][k]["owner"]}'
                key = (src, x['__c'])
                ctx.check(key in r.others, 'picture', lambda: f'{name} has no {key}')
                same(ctx, model.delivered(x), r.others[key][0], 'converged', f'{name} in the end: {key}')
            ctx.log('converged', name, len(live))


def run(plan, ctx):
    w = World(plan, ctx)
    w.sim.run()
    w.judge()
