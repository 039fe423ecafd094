"""An application's own records, bit fields and PDU classes, derived from the library's."""
import io
import struct

from .. import bridge, model
from ..streams import ERRORS, Reader, Writer
from ..world import MODES, R, Exercise, create, gen_exercise, parse_into, receive, same, serialize

ID = 'C29'
RUNS = dict(quick=12000, thorough=360000)
MUST_FIRE = ('loss', 'duplicate', 'delay', 'crash', 'own record', 'own class', 'own failure', 'bad layout', 'misfit',
             'torn') + tuple(ERRORS)
RULE = ('A run declares bit-field layouts (some that cannot be packed), record classes derived from those of the library '
        'and subclasses of PDUs and records, and sends PDUs that hold them over a faulty network to nodes that know them '
        'and nodes that do not, while streams fail and the application\'s own code raises; what goes out is compared with '
        'the reference codec, what is kept and read back with the values that were given.')
STATES = 'distinct (PDU class or layout, operation, what was declared, faults)'
REAL = ['opendis.record.bitfield', 'opendis.record.base', 'opendis.dis7', 'opendis.record', 'opendis.stream',
        'opendis.PduFactory']
STUB = ['network', 'streams', 'the application\'s classes']
ASSUMES = ['an assignment to one bit of a bit field is not checked, only construction is']

BASES = dict(bridge.BASES, radio=R.radio.ModulationParametersRecord, antenna=R.radio.AntennaPatternRecord)
FMT = dict(u8='>B', u16='>H', u32='>I', u64='>Q', i8='>b', i16='>h', i32='>i', i64='>q', f32='>f', f64='>d')
CALL = dict(u8='uint8', u16='uint16', u32='uint32', u64='uint64', i8='int8', i16='int16', i32='int32', i64='int64',
            f32='float32', f64='float64')


# ----------------------------------------------------------------- plans
def hosts(name, seen=()):
    c = model.SCHEMA.get(name)
    if c is None or name in seen:
        return False
    return any(f[0] == 'sv' or f[0] == 'special' and f[1] != 'variableDatum'
               or f[0] in ('rec', 'list') and hosts(f[2], seen + (name,)) for f in c.fields)


HOSTS = [n for n in model.PDUS if hosts(n)]


def spots(v, path=()):
    """where in v an application's record can go: (path of the list or field, base)"""
    for f in model.SCHEMA[v['__c']].fields if v['__c'] in model.SCHEMA else ():
        p = path + (f[1],)
        if f[0] == 'sv':
            yield p, f[2]
        elif f[0] == 'special' and f[1] != 'variableDatum':
            yield p, 'radio' if f[1] == 'modulationParameters' else 'antenna'
        elif f[0] == 'rec':
            yield from spots(v[f[1]], p)
        elif f[0] == 'list' and f[2] in model.SCHEMA:
            for n, x in enumerate(v[f[1]]):
                yield from spots(x, p + (n,))


def gen_layout(rng):
    left = rng.choice((8, 8, 16, 16, 32, 32, 32))
    out = []
    while left:
        n = min(left, rng.choice((1, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 31, 32)))
        out.append([f'f{len(out)}', n])
        left -= n
    return out


def gen_bits(rng, fields):
    return [rng.choice((0, 1, (1 << n) - 1, 1 << n - 1, rng.getrandbits(n))) for _, n in fields]


def gen_bad(rng):
    f = gen_layout(rng)
    k = rng.randrange(len(f))
    kind = rng.choice(('partial', 'partial', 'zero', 'negative', 'wide', 'fraction', 'text', 'type', 'empty', 'long', 'none'))
    if kind == 'partial':
        more = rng.choice((1, 2, 3, 4, 5, 6, 7))
        f.append(['extra', more])
    elif kind == 'empty':
        f = []
    elif kind == 'long':
        f += [['g%d' % n, 8] for n in range(rng.choice((4, 5, 8, 12)))]
    else:
        f[k][1] = dict(zero=0, negative=-8, wide=rng.choice((33, 40, 64)), fraction=f[k][1] + .0, text=str(f[k][1]),
                       none=None, type=f[k][1])[kind]
        if kind == 'negative':
            f.append(['back', 16])
    return dict(fields=f, kind=kind, at=k)


def gen_part(rng, layouts):
    r = rng.random()
    if r < .3 and layouts:
        return ['bits', rng.randrange(len(layouts))]
    if r < .45:
        return ['raw', rng.choice((1, 2, 3, 8, 20))]
    if r < .55:
        return ['some', 8]              # two octets of count and as many times eight octets
    return [rng.choice(sorted(FMT)), 0]


def gen_vals(rng, parts, layouts):
    out = []
    for t, n in parts:
        if t == 'bits':
            out.append(gen_bits(rng, layouts[n]))
        elif t == 'raw':
            out.append(rng.randbytes(n))
        elif t == 'some':
            out.append(rng.randbytes(8 * rng.choice((0, 0, 1, 2, 5))))
        elif t in ('f32', 'f64'):
            out.append(struct.unpack(FMT[t], struct.pack(FMT[t], rng.choice((0.0, -1.5, 1e30, rng.uniform(-1e6, 1e6)))))[0])
        else:
            w = int(t[1:])
            x = rng.choice((0, (1 << w) - 1, 1 << w - 1, rng.getrandbits(w)))
            out.append(x - (1 << w) if t[0] == 'i' and x >> w - 1 else x)
    return out


def packed(fields, vals):
    x = 0
    for (_, n), y in zip(fields, vals):
        x = x << n | y
    return x.to_bytes(sum(n for _, n in fields) // 8, 'big')


def octets(parts, layouts, vals):
    return b''.join(packed(layouts[n], x) if t == 'bits' else x if t == 'raw' else
                    struct.pack('>H', len(x) // 8) + x if t == 'some' else struct.pack(FMT[t], x)
                    for (t, n), x in zip(parts, vals))


def gen(rng, i):
    layouts = [gen_layout(rng) for _ in range(rng.choice((1, 1, 2, 4)))]
    kinds = []
    for k in range(rng.choice((1, 2, 3))):
        base = rng.choice(('StandardVariableRecord', 'VariableTransmitterParametersRecord', 'DamageDescriptionRecord',
                           'radio', 'antenna'))
        parts = [gen_part(rng, layouts) for _ in range(rng.choice((1, 2, 3, 6)))]
        n = len(octets(parts, layouts, gen_vals(rng, parts, layouts))) + (0 if base in ('radio', 'antenna') else 6)
        if -n % 8:
            parts.append(['raw', -n % 8])
        n += -n % 8
        rt = rng.choice((5000 + k, 70000 + rng.randrange(1000), rng.choice((3000, 4000, 4001, 4500)) + 65536))
        kinds.append(dict(base=base, rt=rt, parts=parts))
    plan = gen_exercise(rng, i, rng.choice((1, 2, 4, 7)), HOSTS if rng.random() < .75 else model.PDUS)
    for op in plan['ops']:
        v = op['v'] = model.plain(op['v'])
        op['own'], op['sub'] = [], []
        places = list(spots(v))
        rng.shuffle(places)
        for path, base in places[:rng.choice((1, 2, 3))]:
            fits = [k for k, d in enumerate(kinds) if d['base'] == base or base == 'StandardVariableRecord'
                    and d['base'] in bridge.BASES]
            if not fits:
                continue
            k = rng.choice(fits)
            d = kinds[k]
            if base in ('radio', 'antenna'):
                vals = gen_vals(rng, d['parts'], layouts)
                if len(octets(d['parts'], layouts, vals)) in (16, 40) or len(octets(d['parts'], layouts, vals)) > 255:
                    continue            # lengths of records everybody knows
                v = model.edited(v, path, {'__c': 'UnknownRadio' if base == 'radio' else 'UnknownAntennaPattern',
                                           'data': octets(d['parts'], layouts, vals)})
                op['own'].append([list(path), k, vals])
            else:
                xs = list(model.at(v, path))
                for _ in range(rng.choice((1, 1, 2))):
                    vals = gen_vals(rng, d['parts'], layouts)
                    xs.append({'__c': 'UnknownSV', 'recordType': d['rt'], 'data': octets(d['parts'], layouts, vals)})
                    op['own'].append([list(path) + [len(xs) - 1], k, vals])
                v = model.edited(v, path, xs)
        op['v'] = v
        if rng.random() < .3:
            op['sub'].append(v['__c'])
        inside = sorted({x['__c'] for _, x in model.inner(v)} & set(model.RECORDS))
        if inside and rng.random() < .3:
            op['sub'] += rng.sample(inside, rng.choice((1, len(inside))))
        op['boom'] = rng.randrange(6) if op['own'] and rng.random() < .3 else None
        op['raises'] = rng.randrange(len(BOOMS))
        op['fault'] = [rng.choice(sorted(ERRORS)), rng.randrange(len(model.encode(v)))] if rng.random() < .2 else None
        op['knows'] = rng.random() < .6
    bits = []
    for _ in range(rng.choice((0, 1, 3, 6))):
        n = rng.randrange(len(layouts))
        f = layouts[n]
        r = rng.random()
        if r < .25:
            bits.append(dict(k='bad', bad=gen_bad(rng)))
        elif r < .45:
            at = rng.randrange(len(f))
            w = f[at][1]
            x = rng.choice((1 << w, (1 << w) + 1, -1, -(1 << w - 1) - 1, 1 << 32, (1 << 64) + 1, 1 << w + 3, -(1 << w)))
            bits.append(dict(k='misfit', n=n, vals=gen_bits(rng, f), at=at, x=x, how=rng.choice(('pos', 'kw'))))
        else:
            bits.append(dict(k='bits', n=n, vals=gen_bits(rng, f), vals2=gen_bits(rng, f),
                             how=rng.choice(('pos', 'kw', 'mixed', 'set')), split=rng.randrange(len(f) + 1),
                             tail=rng.randbytes(rng.randrange(3)), fault=rng.choice([None] + sorted(ERRORS)),
                             torn=rng.random() < .5))
    return dict(plan, layouts=layouts, kinds=kinds, bits=bits, spent=rng.random() < .2, style=rng.randrange(3))


# ------------------------------------------------- what the application declares
class Boom(Exception):
    pass


BOOMS = (Boom, AttributeError, TypeError, ValueError, KeyError, StopIteration, NotImplementedError, RuntimeError,
         struct.error, OverflowError, RecursionError, EOFError)


def declare(d, layouts, made, state):
    head = 0 if d['base'] in ('radio', 'antenna') else 6
    parts = d['parts']
    size = sum(sum(b for _, b in layouts[n]) // 8 if t == 'bits' else n if t == 'raw' else 2 if t == 'some'
               else struct.calcsize(FMT[t]) for t, n in parts)
    base = BASES[d['base']]

    class Own(base):
        recordType = d['rt']

        def __init__(self, vals=()):
            self.vals = list(vals)

        def marshalledSize(self):
            return head + size + sum(len(x) for (t, _), x in zip(parts, self.vals) if t == 'some')

        def serialize(self, outputStream):
            super().serialize(outputStream)
            for n, ((t, k), x) in enumerate(zip(parts, self.vals)):
                if state['boom'] == n:
                    state['boom'] = None
                    raise state['raises']('the application\'s own')
                if t == 'bits':
                    made[k](*x).serialize(outputStream)
                elif t == 'raw':
                    outputStream.write_bytes(x)
                elif t == 'some':
                    outputStream.write_uint16(len(x) // 8)
                    outputStream.write_bytes(x)
                else:
                    getattr(outputStream, 'write_' + CALL[t])(x)

        def parse(self, inputStream, bytelength=None):
            super().parse(inputStream, bytelength)
            self.vals = []
            for t, k in parts:
                if t == 'bits':
                    b = made[k].parse(inputStream)
                    self.vals.append([getattr(b, n) for n, _ in layouts[k]])
                elif t == 'raw':
                    self.vals.append(inputStream.read_bytes(k))
                elif t == 'some':
                    self.vals.append(inputStream.read_bytes(inputStream.read_uint16() * 8))
                else:
                    self.vals.append(getattr(inputStream, 'read_' + CALL[t])())
    return Own


class Node(Exercise):
    def __init__(self, plan, ctx):
        self.layouts = plan['layouts']
        self.made = []
        for n, f in enumerate(self.layouts):
            fields = [(a, R.record.bitfield.INTEGER, b) for a, b in f]
            fields = (fields, tuple(fields), [tuple(x) for x in fields])[plan['style']]
            self.made.append(R.record.bitfield.bitfield(f'Own{n}', fields))
            if plan['spent'] and isinstance(fields, list):
                fields.clear()              # the application uses its list for the next one
        self.state = dict(boom=None)
        self.kinds = [declare(d, self.layouts, self.made, self.state) for d in plan['kinds']]
        self.subs = {}
        super().__init__(plan, ctx)
        for op in plan['bits']:
            self.sim.at(op.get('t', .5), self.bits, op)

    # ------------------------------------------------------ bit fields alone
    def bits(self, op):
        ctx = self.ctx
        if op['k'] == 'bad':
            b = op['bad']
            ctx.fault('bad layout')
            fields = [(a, 'CHAR' if b['kind'] == 'type' and n == b['at'] else 'INTEGER', w)
                      for n, (a, w) in enumerate(b['fields'])]
            try:
                R.record.bitfield.bitfield('Bad', fields)
                ok = True
            except Exception:           # noqa: BLE001
                ok = False
            ctx.check(not ok, 'bad layout', lambda: f'layout {fields} was accepted')
            ctx.log('bad layout', b['kind'])
            ctx.state('bad', b['kind'])
            return
        f, cls = self.layouts[op['n']], self.made[op['n']]
        names = [a for a, _ in f]
        what = f'layout {f}'
        if op['k'] == 'misfit':
            vals = list(op['vals'])
            vals[op['at']] = op['x']
            ctx.fault('misfit')
            try:
                b = cls(*vals) if op['how'] == 'pos' else cls(**dict(zip(names, vals)))
            except Exception:           # noqa: BLE001
                b = None
            ctx.check(b is None, 'misfit', lambda: (
                f'{what}: {vals} accepted, and held as {[getattr(b, a) for a in names]}'))
            ctx.state('misfit', op['how'], f[op['at']][1])
            return
        vals, split = op['vals'], op['split']
        if op['how'] == 'pos':
            b = cls(*vals)
        elif op['how'] == 'kw':
            b = cls(**dict(zip(names, vals)))
        elif op['how'] == 'mixed':
            b = cls(*vals[:split], **dict(list(zip(names, vals))[split:]))
        else:
            b = cls(*op['vals2'])
            for a, x in zip(names, vals):
                setattr(b, a, x)
        want = packed(f, vals)
        other = cls(*op['vals2'])
        if op['fault']:
            ctx.fault(op['fault'])
            w, exc = Writer((0, op['fault'])), None
            try:
                b.serialize(R.stream.DataOutputStream(w))
            except (Exception, KeyboardInterrupt) as e:
                exc = e
            ctx.check(exc is not None, 'swallowed', lambda: f'{what}: {op["fault"]} reported as success')
        got = serialize(b)
        ctx.check(got == want, 'packing', lambda: f'{what}: {vals} packed as {got.hex()} instead of {want.hex()}')
        ctx.check(b.marshalledSize() == len(want) == cls.marshalledSize(), 'size', lambda: (
            f'{what}: size {b.marshalledSize()} instead of {len(want)}'))
        if op['torn']:
            ctx.fault('torn')
            try:
                bad = cls.parse(R.stream.DataInputStream(io.BytesIO(want[:-1])))
            except Exception:           # noqa: BLE001
                bad = None
            ctx.check(bad is None, 'torn', lambda: f'{what}: read from {len(want) - 1} octets')
        rd = Reader(want + op['tail'])
        back = cls.parse(R.stream.DataInputStream(rd))
        got = [getattr(back, a) for a in names]
        ctx.check(got == vals and rd.pos == len(want), 'unpacking', lambda: (
            f'{what}: {want.hex()} read as {got} instead of {vals}, {rd.pos} octets taken'))
        setattr(b, names[0], op['vals2'][0])
        ctx.check([getattr(back, a) for a in names] == vals and serialize(back) == want
                  and serialize(other) == packed(f, op['vals2']), 'shared', lambda: f'{what}: changed with another object')
        ctx.log('bits', want.hex())
        ctx.state('bits', op['how'], len(f), len(want), op['fault'])

    # ------------------------------------------------------------------ PDUs
    def sub(self, name):
        if name not in self.subs:
            self.subs[name] = type('Own' + name, (bridge.CLASSES[name],), dict(note=None))
        return self.subs[name]

    def build(self, op):
        real = {n: bridge.CLASSES[n] for n in op['sub']}
        try:
            bridge.CLASSES.update({n: self.sub(n) for n in op['sub']})
            obj = bridge.build(op['v'], op['mode'])
        finally:
            bridge.CLASSES.update(real)
        for path, k, vals in op['own']:
            bridge.poke(obj, path, self.kinds[k](vals))
            self.ctx.fault('own record')
        if op['sub']:
            self.ctx.fault('own class', len(op['sub']))
        return obj

    def send(self, n, op, src):
        ctx, name = self.ctx, op['v']['__c']
        obj = self.build(op)
        want = model.encode(op['v'])
        what = f'op {n}: {name} with {[self.plan["kinds"][k]["base"] for _, k, _ in op["own"]]}, own {op["sub"]}'
        self.state.update(boom=op['boom'], raises=BOOMS[op['raises']])
        for fault in (op['fault'], None) if op['fault'] else (None,):
            w, exc, due = Writer(fault and (fault[1], fault[0])), None, self.state['boom'] is not None
            try:
                obj.serialize(R.stream.DataOutputStream(w))
            except (Exception, KeyboardInterrupt) as e:
                exc = e
            went = due and self.state['boom'] is None
            if went:
                ctx.fault('own failure')
            if w.fired:
                ctx.fault(fault[0])
            if not went and not w.fired:
                if exc is not None:
                    raise exc
            else:
                ctx.check(exc is not None, 'swallowed', lambda: f'{what}: a failure was reported as success')
                ctx.check(want.startswith(w.getvalue()), 'torn', lambda: f'{what}: {w.getvalue().hex()} before the failure')
            self.state['boom'] = None
        data = serialize(obj)
        k = next((k for k, (a, b) in enumerate(zip(data, want)) if a != b), min(len(data), len(want)))
        ctx.check(data == want, 'octets', lambda: (
            f'{what}: {len(data)} octets instead of {len(want)}; first difference at octet {k}: '
            f'{data[k:k + 8].hex()} instead of {want[k:k + 8].hex()}'))
        ctx.state(name, 'send', *sorted(op['sub']), len(op['own']), op['mode'])
        return data

    def arrive(self, node, src, body, intact, how, meta):
        op, ctx = self.plan['ops'][meta], self.ctx
        v = op['v']
        name = v['__c']
        what = f'op {meta}: {name} at node {node}'
        if not intact:
            try:
                receive(name, body)
            except Exception:           # noqa: BLE001
                pass
            return
        got = receive(name, body)
        want = model.delivered(v)
        same(ctx, want, got, 'received', what)
        again = serialize(got)
        ctx.check(again == body, 'relayed', lambda: f'{what}: sent on as other octets')
        if name in op['sub']:           # a node with the same class of its own
            mine = parse_into(self.sub(name)(), body)
            real = bridge.CLASSES[name]
            try:
                bridge.CLASSES[name] = self.sub(name)
                same(ctx, want, mine, 'received as own class', what)
            finally:
                bridge.CLASSES[name] = real
            ctx.check(serialize(mine) == body, 'own class relayed', what)
        if op['knows']:
            for path, k, vals in op['own']:
                x = got
                for p in path:
                    x = x[p] if isinstance(p, int) else getattr(x, p)
                d = self.plan['kinds'][k]
                own = self.kinds[k]()
                own.parse(R.stream.DataInputStream(io.BytesIO(x.data)),
                          len(x.data) + (0 if d['base'] in ('radio', 'antenna') else 6))
                ctx.check(own.vals == vals, 'own values', lambda: f'{what}: {own.vals} instead of {vals}')
                bridge.poke(got, path, own)
            if op['own']:
                ctx.check(serialize(got) == body, 'own relayed', lambda: f'{what}: own records put back in place')
        ctx.state(name, 'receive', len(op['own']), op['knows'])


def run(plan, ctx):
    Node(plan, ctx).run()
