"""Parsing into an object that was used before gives what a new object would hold."""
from .. import bridge, model
from ..streams import ERRORS, Reader
from ..world import MODES, R, gen_size, parse_into, pick_pdu, same, serialize

ID = 'C11'
RUNS = dict(quick=30000, thorough=900000)
MUST_FIRE = ('reparse', 'torn', 'edit', 'eof', 'EIO', 'garbage')
RULE = ('A run parses a sequence of messages of one class into one object, with torn, failing and damaged '
        'messages and local edits in between; after each whole message the object must equal the message.')
STATES = 'distinct (class, what happened before, length class)'
REAL = ['opendis.dis7', 'opendis.record', 'opendis.stream']
STUB = ['streams']
ASSUMES = ['an identifier that is parsed into stays of the kind (entity, object, unattached) the application made it;'
           ' objects parsed into hold identifiers of the kind new ones hold']


SV = sorted(c.name for c in model.SV_TYPES.values())


def parse(obj, data, reader=None):
    """a variable record is parsed after its type and length, and told the length"""
    if not isinstance(obj, R.record.base.StandardVariableRecord):
        return parse_into(obj, data, reader)
    rd = reader or Reader(data)
    rd.seek(6)
    obj.parse(R.stream.DataInputStream(rd), len(data or rd.data))
    return obj


def gen(rng, i):
    name = pick_pdu(rng, i, 0, rng.choice((model.PDUS,) * 13 + (model.RECORDS,) * 6 + (SV,)))
    ops = []
    for _ in range(rng.choice((2, 3, 5, 8))):
        k = rng.choice(('parse', 'parse', 'parse', 'torn', 'edit', 'garbage'))
        ops.append(dict(k=k, v=model.plain(model.gen(name, rng, gen_size(rng))), at=rng.random(),
                        kind=rng.choice(sorted(ERRORS) + ['eof', 'short', 'eof']), byte=rng.randrange(256)))
    ops.append(dict(k='parse', v=model.plain(model.gen(name, rng, rng.choice((0, 0, 1)))), at=0.0, kind='eof', byte=0))
    return dict(name=name, start=model.plain(model.gen(name, rng, 2)) if rng.random() < .5 else None,
                mode=rng.choice(MODES), ops=ops)


def run(plan, ctx):
    name = plan['name']
    obj = bridge.build(plan['start'], plan['mode']) if plan['start'] else bridge.blank(name)
    before = 'start'
    for n, op in enumerate(plan['ops']):
        v = op['v']
        data = model.encode(v)
        what = f'op {n} ({op["k"]} after {before})'
        ctx.log(op['k'], name, len(data))
        ctx.state(name, before, op['k'], min(len(data) // 16, 40))
        if op['k'] == 'edit':
            ctx.fault('edit')
            c = model.SCHEMA[name]
            bridge.assign(obj, c, bridge.values(c, v, 'attrs'), v, 'attrs')
            for f in c.fields:          # the header, which garbage may have changed
                if f[0] == 'prim' and f[3] is not None:
                    setattr(obj, f[1], f[3])
            same(ctx, v, obj, 'edited', what)
        elif op['k'] == 'torn':
            rd = Reader(data, (int(op['at'] * 40), op['kind']))
            try:
                parse(obj, None, rd)
            except (Exception, KeyboardInterrupt):
                if not rd.fired:
                    raise
            if rd.fired:
                ctx.fault('torn')
                ctx.fault(op['kind'])
        elif op['k'] == 'garbage':
            ctx.fault('garbage')
            bad = bytearray(data)
            if bad:
                bad[int(op['at'] * len(bad))] = op['byte']
            try:
                parse(obj, bytes(bad))
            except Exception as e:
                ctx.log(type(e).__name__)
        else:
            ctx.fault('reparse')
            parse(obj, data)
            want = model.delivered(v)
            same(ctx, want, obj, 'reparsed', what)
            ctx.check(serialize(obj) == model.encode(want), 'resent', f'{what}: {name} is sent on as something else')
        before = op['k']
