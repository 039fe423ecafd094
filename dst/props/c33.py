"""PDU types an application declares have the header of their kind, then their own fields."""
import struct

from .. import bridge, model
from ..streams import ERRORS, Reader, Writer
from ..world import MODES, R, Exercise, create, gen_exercise, same, serialize

ID = 'C33'
RUNS = dict(quick=12000, thorough=400000)
MUST_FIRE = ('loss', 'duplicate', 'delay', 'crash', 'own type', 'undeclared', 'misfit', 'truncate', 'trailing',
             'relabelled', 'passed in') + tuple(ERRORS)
RULE = ('A run declares PDU types of its own on the base and family classes, some through a family class of its own, with '
        'type and family on the class or passed in, and exchanges them and the library\'s PDUs over a faulty network '
        'between nodes that know them and nodes that do not; the octets are compared with header and fields packed by '
        'the reference codec, what is read with what was given.')
STATES = 'distinct (base class, way of declaring, operation, faults)'
REAL = ['opendis.dis7', 'opendis.record', 'opendis.stream', 'opendis.PduFactory']
STUB = ['network', 'streams', 'the application\'s classes']
ASSUMES = ['an application decides by the type octet which class of its own to read a PDU with']

FAMILIES = sorted(n for n, c in model.SCHEMA.items() if n.endswith('FamilyPdu') and n in bridge.CLASSES)
BASES = ['PduSuperclass', 'Pdu', 'LiveEntityPdu']
FMT = dict(u8='>B', u16='>H', u32='>I', u64='>Q', i8='>b', i16='>h', i32='>i', i64='>q', f32='>f', f64='>d')
CALL = dict(u8='uint8', u16='uint16', u32='uint32', u64='uint64', i8='int8', i16='int16', i32='int32', i64='int64',
            f32='float32', f64='float64')
RECORDS = [n for n in model.RECORDS if n in bridge.CLASSES and n != 'UaPdu']
TAKEN = {model.SCHEMA[n].type for n in model.PDUS}
FREE = [t for t in range(256) if t not in TAKEN]
WIDTH = {'protocolVersion': 8, 'exerciseID': 8, 'pduType': 8, 'protocolFamily': 8, 'timestamp': 32, 'length': 16,
         'pduStatus': 8, 'subprotocolNumber': 8}


# ----------------------------------------------------------------- plans
def gen_part(rng):
    r = rng.random()
    if r < .5:
        return [rng.choice(sorted(FMT)), None]
    if r < .6:
        return ['raw', rng.choice((1, 2, 3, 8, 21))]
    return [rng.choice(('rec', 'rec', 'recs')), rng.choice(RECORDS)]


def gen_val(rng, t, n):
    if t == 'raw':
        return rng.randbytes(n)
    if t == 'rec':
        return model.plain(model.gen(n, rng, 1))
    if t == 'recs':
        return [model.plain(model.gen(n, rng, 1)) for _ in range(rng.choice((0, 1, 1, 2, 5)))]
    if t[0] == 'f':
        return struct.unpack(FMT[t], struct.pack(FMT[t], rng.choice((0.0, -2.25, 1e30, rng.uniform(-1e6, 1e6)))))[0]
    return model.gen_prim(rng, t)


def octets(t, n, x):
    if t == 'raw':
        return x
    if t == 'rec':
        return model.encode(x)
    if t == 'recs':
        return struct.pack('>H', len(x)) + b''.join(map(model.encode, x))
    return struct.pack(FMT[t], x)


def gen_kind(rng, spare):
    base = rng.choice(BASES if rng.random() < .5 else FAMILIES)
    fam = model.SCHEMA[base].family
    how = rng.choice(('class', 'class', 'passed', 'both', 'type passed')) if base == 'PduSuperclass' else 'class'
    d = dict(base=base, how=how, type=spare.pop(), parts=[gen_part(rng) for _ in range(rng.choice((0, 1, 1, 2, 4)))],
             mid=rng.random() < .3, late=rng.random() < .3)
    # the family: of the family class, or what the application says
    d['family'] = fam if fam is not None and rng.random() < .7 else rng.randrange(256)
    d['says'] = fam is None or d['family'] != fam
    d['other'] = [rng.randrange(256), rng.randrange(256)]       # of the class, when something else is passed in
    return d


def gen(rng, i):
    free, taken = list(FREE), sorted(TAKEN)
    rng.shuffle(free)
    rng.shuffle(taken)
    spare = [t for t in free[:4]]
    for _ in range(rng.choice((0, 0, 1))):
        spare.insert(rng.randrange(len(spare) + 1), taken.pop())
    kinds = [gen_kind(rng, spare) for _ in range(rng.choice((1, 2, 3)))]
    plan = gen_exercise(rng, i, rng.choice((2, 3, 5, 8)))
    for op in plan['ops']:
        op['k'] = None
        if rng.random() > .7:
            continue
        k = op['k'] = rng.randrange(len(kinds))
        d = kinds[k]
        v = model.plain(model.gen(d['base'], rng, 1))
        v['pduType'], v['protocolFamily'] = d['type'], d['family']
        op['v'], op['vals'] = v, [gen_val(rng, *p) for p in d['parts']]
        op['bare'] = rng.random() < .15
        op['some'] = rng.random() < .4
        op['fault'] = rng.choice(sorted(ERRORS)) if rng.random() < .25 else None
        op['at'] = rng.random()
        op['relabel'] = [rng.randrange(256), rng.randrange(256)] if rng.random() < .15 else None
        op['knows'] = [n for n in range(plan['nodes']) if rng.random() < .7]
        name = rng.choice([n for n in v if n in WIDTH])
        op['misfit'] = [name, rng.choice((1 << WIDTH[name], -1, (1 << WIDTH[name]) + 7, 1 << 40))] \
            if rng.random() < .15 else None
    plan['undeclared'] = [[rng.choice(BASES + FAMILIES), rng.choice(('type', 'family', 'both')), rng.random() < .5]
                          for _ in range(rng.choice((0, 1, 1, 2)))]
    return dict(plan, kinds=kinds)


# ------------------------------------------------- what the application declares
def passes(d):
    """the arguments the application's class passes up"""
    if d['how'] in ('passed', 'both'):
        return dict(pduType=d['type'], protocolFamily=d['family'])
    if d['how'] == 'type passed':
        return dict(pduType=d['type'])
    return {}


def declare(n, d):
    base = bridge.CLASSES[d['base']]
    parts, up = d['parts'], passes(d)
    body = {}
    if d['says'] and d['how'] in ('class', 'type passed'):
        body['protocolFamily'] = d['family']
    elif d['how'] == 'both':
        body['protocolFamily'] = d['other'][1]
    if d['mid']:                # a family class of the application
        base = type(f'Own{n}FamilyPdu', (base,), body)
        body = {}
    if d['how'] == 'class':
        body['pduType'] = d['type']
    elif d['how'] == 'both':
        body['pduType'] = d['other'][0]

    class Own(base):
        def __init__(self, *vals, **header):
            super().__init__(**{**up, **header})
            for n, ((t, name), x) in enumerate(zip(parts, vals)):
                setattr(self, f'own{n}', x)

        def serialize(self, outputStream):
            super().serialize(outputStream)
            for n, (t, name) in enumerate(parts):
                x = getattr(self, f'own{n}')
                if t == 'rec':
                    x.serialize(outputStream)
                elif t == 'recs':
                    outputStream.write_uint16(len(x))
                    for y in x:
                        y.serialize(outputStream)
                elif t == 'raw':
                    outputStream.write_bytes(x)
                else:
                    getattr(outputStream, 'write_' + CALL[t])(x)

        def parse(self, inputStream):
            super().parse(inputStream)
            for n, (t, name) in enumerate(parts):
                if t == 'rec':
                    x = bridge.blank(name)
                    x.parse(inputStream)
                elif t == 'recs':
                    x = []
                    for _ in range(inputStream.read_uint16()):
                        x.append(bridge.blank(name))
                        x[-1].parse(inputStream)
                elif t == 'raw':
                    x = inputStream.read_bytes(name)
                else:
                    x = getattr(inputStream, 'read_' + CALL[t])()
                setattr(self, f'own{n}', x)
    for k, x in body.items():
        setattr(Own, k, x)
    return Own


class Node(Exercise):
    def __init__(self, plan, ctx):
        self.kinds = [declare(n, d) for n, d in enumerate(plan['kinds'])]
        self.seen, self.sent = {}, {}
        super().__init__(plan, ctx)
        for k, u in enumerate(plan['undeclared']):
            self.sim.at(.3 * k, self.undeclared, *u)

    def undeclared(self, base, what, passed):
        ctx = self.ctx
        cls = bridge.CLASSES[base]
        if what == 'family' and model.SCHEMA[base].family is not None:
            what = 'type'
        given = {}
        if what != 'type' and what != 'both':
            given['pduType'] = 200
        if what == 'type':
            given['protocolFamily'] = 3
        ctx.fault('undeclared')
        try:
            if passed and base == 'PduSuperclass':
                obj = cls(**given)
            else:
                obj = type('OwnPdu', (cls,), given)()
        except Exception:               # noqa: BLE001
            obj = None
        ctx.check(obj is None, 'undeclared', lambda: f'a subclass of {base} that has no {what} was constructed')
        ctx.log('undeclared', base, what)
        ctx.state(base, 'undeclared', what, passed)

    def build(self, n, op):
        """the object, and what its octets have to be"""
        d = self.plan['kinds'][op['k']]
        cls, v, vals = self.kinds[op['k']], op['v'], op['vals']
        c = model.SCHEMA[d['base']]
        own = [bridge.build(x, op['mode']) if t == 'rec' else [bridge.build(y, op['mode']) for y in x] if t == 'recs' else x
               for (t, _), x in zip(d['parts'], vals)]
        if d['how'] != 'class':
            self.ctx.fault('passed in')
        if op['bare']:
            v = self.bare(d)
            return cls(*own), v, vals
        held = bridge.values(c, v, op['mode'])
        for k in ('pduType', 'protocolFamily'):
            held.pop(k, None)
        if op['mode'] == 'ctor':
            names = sorted(bridge.params(bridge.CLASSES[d['base']]))
            if op['some'] and names:    # the others are left out
                out = {'pduLength': 'length'}.get(names[n % len(names)], names[n % len(names)])
                v = dict(v, **{out: self.bare(d)[out]})
                if out not in ('pduType', 'protocolFamily'):
                    del held[out]
                    names = [x for x in names if x != 'pduLength' or out != 'length']
            kw = {k: held.pop(k) for k in sorted(held) if k in names}
            if 'pduLength' in names and 'length' in held:
                kw['pduLength'] = held.pop('length')
            obj = cls(*own, **kw)
        else:
            obj = cls(*own)
        bridge.assign(obj, c, held, v, op['mode'])
        return obj, v, vals

    @staticmethod
    def bare(d):
        from .c25 import blank
        v = blank(d['base'])
        v.update(protocolVersion=7, pduType=d['type'], protocolFamily=d['family'])
        return v

    def send(self, n, op, src):
        if op['k'] is None:
            data = super().send(n, op, src)
            self.ctx.check(data == model.encode(op['v']), 'library', lambda: (
                f'op {n}: {op["v"]["__c"]} sent as {data[:16].hex()}… beside own types'))
            return data
        ctx, d = self.ctx, self.plan['kinds'][op['k']]
        ctx.fault('own type')
        obj, v, vals = self.build(n, op)
        self.sent[n] = v
        what = f'op {n}: own type {d["type"]} of {d["base"]}, {d["how"]}'
        want = model.encode(v) + b''.join(octets(t, m, x) for (t, m), x in zip(d['parts'], vals))
        if op['relabel']:
            ctx.fault('relabelled')
            ty, fam = op['relabel']
            obj.pduType, obj.protocolFamily = ty, fam
            data = serialize(obj)
            ctx.check(data == want[:2] + bytes((ty, fam)) + want[4:], 'relabelled', lambda: (
                f'{what}: as type {ty}, family {fam} it goes out as {data[:12].hex()}'))
            obj.pduType, obj.protocolFamily = d['type'], d['family']
            if d['base'] == 'PduSuperclass':        # another type for one object
                one = self.kinds[op['k']](*op['vals'], pduType=ty, protocolFamily=fam)
                ctx.check((one.pduType, one.protocolFamily) == (ty, fam), 'passed in', lambda: (
                    f'{what}: {one.pduType}, {one.protocolFamily} instead of {ty}, {fam}, which were passed in'))
            new = self.kinds[op['k']]()
            ctx.check((new.pduType, new.protocolFamily) == (d['type'], d['family']), 'new object', lambda: (
                f'{what}: a new one has type {new.pduType}, family {new.protocolFamily}'))
        if op['misfit']:
            name, x = op['misfit']
            ctx.fault('misfit')
            kept = getattr(obj, name)
            setattr(obj, name, x)
            try:
                data = serialize(obj)
            except Exception:           # noqa: BLE001
                data = None
            ctx.check(data is None, 'misfit', lambda: f'{what}: {name} {x} goes out as {data[:13].hex()}')
            setattr(obj, name, kept)
        if op['fault'] and want:
            k = int(op['at'] * len(want))
            w, exc = Writer((k, op['fault'])), None
            ctx.fault(op['fault'])
            try:
                obj.serialize(R.stream.DataOutputStream(w))
            except (Exception, KeyboardInterrupt) as e:
                exc = e
            ctx.check(not w.fired or exc is not None, 'swallowed', lambda: f'{what}: {op["fault"]} reported as success')
            ctx.check(want.startswith(w.getvalue()), 'torn', lambda: f'{what}: {w.getvalue().hex()} before the failure')
        data = serialize(obj)
        k = next((k for k, (a, b) in enumerate(zip(data, want)) if a != b), min(len(data), len(want)))
        ctx.check(data == want, 'octets', lambda: (
            f'{what}: {len(data)} octets instead of {len(want)}; first difference at octet {k}: '
            f'{data[k:k + 8].hex()} instead of {want[k:k + 8].hex()}'))
        ctx.state(d['base'], 'send', d['how'], d['mid'], op['mode'], op['bare'], op['fault'])
        return data

    def arrive(self, node, src, body, intact, how, meta):
        op, ctx = self.plan['ops'][meta], self.ctx
        if op['k'] is None:
            if not intact:
                return
            name = op['v']['__c']
            if name != 'FastEntityStatePdu':
                same(ctx, model.delivered(op['v']), create(body), 'library received', f'op {meta}: {name} at node {node}')
            return
        d = self.plan['kinds'][op['k']]
        what = f'op {meta}: own type {d["type"]} of {d["base"]}, {d["how"]}, at node {node}'
        if int(node) not in op['knows']:
            if intact and d['type'] not in TAKEN:
                got = create(body)
                ctx.check(got is None, 'unknown', lambda: f'{what}: a node that does not know it gets {type(got).__name__}')
                ctx.state(d['base'], 'unknown', how)
            return
        cls = self.kinds[op['k']]
        v = self.sent[meta]
        old = self.seen.get((node, op['k'])) if d['late'] else None
        obj = old or cls()              # some nodes read every one into the same object
        rd = Reader(body)
        try:
            obj.parse(R.stream.DataInputStream(rd))
        except Exception:               # noqa: BLE001
            self.seen.pop((node, op['k']), None)
            if intact or how == 'pad':
                raise
            ctx.state(d['base'], 'refused', how)
            return
        self.seen[node, op['k']] = obj
        ctx.check(how != 'cut' or intact, 'cut', lambda: f'{what}: {len(body)} octets of it were accepted')
        if not intact and how != 'pad':
            return
        size = rd.pos
        want = model.encode(v) + b''.join(octets(t, m, x) for (t, m), x in zip(d['parts'], op['vals']))
        ctx.check(size == len(want), 'taken', lambda: f'{what}: {size} octets taken instead of {len(want)}')
        real = bridge.CLASSES[d['base']]
        try:
            bridge.CLASSES[d['base']] = cls
            got = bridge.extract(obj, d['base'])
        finally:
            bridge.CLASSES[d['base']] = real
        diff = model.diff(v, got)
        ctx.check(diff is None, 'received', lambda: f'{what}{diff}')
        for n, ((t, name), x) in enumerate(zip(d['parts'], op['vals'])):
            y = getattr(obj, f'own{n}')
            if t == 'rec':
                same(ctx, model.delivered(x), y, 'received record', what)
            elif t == 'recs':
                ctx.check(len(y) == len(x), 'received records', what)
                for a, b in zip(x, y):
                    same(ctx, model.delivered(a), b, 'received records', what)
            else:
                ctx.check(y == x, 'received value', lambda: f'{what}: {t} {y!r} instead of {x!r}')
        ctx.check(serialize(obj) == want, 'relayed', lambda: f'{what}: sent on as other octets')
        ctx.state(d['base'], 'receive', d['how'], d['mid'], how, old is not None)


def run(plan, ctx):
    Node(plan, ctx).run()
