"""The factory picks the class by the PDU type octet; unknown types give None."""
from .. import bridge, core, model
from ..streams import Reader
from ..world import R, create, gen_size, parse_into, pick_pdu, same

ID = 'C09'
RUNS = dict(quick=22000, thorough=660000)
MUST_FIRE = ('known', 'unknown', 'renamed', 'noise', 'truncate', 'loss', 'duplicate', 'foreign-family', 'peeked')
RULE = ('A run is a stream of datagrams of all 256 type octets through a lossy network into one factory, with '
        'foreign header fields, damaged datagrams, and local objects whose type attribute was overwritten in '
        'between; the oracle is the table of PDU types in schema.txt.')
STATES = 'distinct (type octet, type octet before)'
REAL = ['opendis.PduFactory', 'opendis.dis7', 'opendis.stream']
STUB = ['network']

UNKNOWN = [t for t in range(256) if t not in model.FACTORY]


def gen(rng, i):
    net = core.gen_net(rng)
    ops = []
    for k in range(rng.choice((4, 8, 16, 30))):
        r = rng.random()
        op = dict(fate=core.gen_fate(rng, dict(net, corrupt=0, padded=.1)), via=rng.choice(('datagram', 'stream')))
        if op['via'] == 'stream' and rng.random() < .4:
            op['peek'] = rng.choice((1, 3, 4, 12))
        if r < .55:
            v = model.gen(pick_pdu(rng, i, k, model.DISPATCHED), rng, rng.choice((0, 0, 1, gen_size(rng))))
            op.update(k='known', v=v)
            if rng.random() < .3:           # a header that says another family
                v['protocolFamily'] = rng.randrange(256)
        elif r < .8:
            t = UNKNOWN[(i * 7 + k) % len(UNKNOWN)] if rng.random() < .6 else rng.choice(UNKNOWN)
            body = rng.randbytes(rng.choice((0, 0, 1, 9, 100, 1500)))
            if rng.random() < .3:
                body = model.encode(model.gen(rng.choice(model.PDUS), rng, 1))[3:]
            op.update(k='unknown', data=bytes([rng.randrange(256), rng.randrange(256), t]) + body)
        elif r < .9:
            op.update(k='rename', name=rng.choice(model.PDUS), to=rng.randrange(256))
        else:
            op.update(k='stump', data=rng.randbytes(rng.choice((0, 1, 2))),
                      fate=core.gen_fate(rng, dict(net, corrupt=0, padded=0)))
        ops.append(op)
    return dict(ops=ops)


def unchanged(ctx, name, what):
    new, c = bridge.blank(name), model.SCHEMA[name]
    ctx.check((new.pduType, new.protocolFamily) == (c.type, c.family), 'new object', lambda: (
        f'{what}: after it a new {name} has type {new.pduType} and family {new.protocolFamily}'))


def run(plan, ctx):
    sim = core.Sim(ctx)
    net = core.Net(sim, ctx)
    seen = [None]

    def arrive(src, body, intact, what, meta):
        op = plan['ops'][meta]
        t = body[2] if len(body) > 2 else None
        ctx.state(t, seen[0])
        seen[0] = t
        what = f'op {meta}: datagram of type {t}'
        rd = Reader(body)

        def get():
            if op['via'] == 'datagram':
                return create(body)
            inp = R.stream.DataInputStream(rd)
            if op.get('peek'):          # the application has looked at the header itself
                ctx.fault('peeked')
                inp.read_bytes(min(op['peek'], len(body)))
            return R.factory.getPdu(inp)
        if op['k'] == 'stump':
            ctx.fault('truncate')
            try:
                obj = get()
            except Exception as e:
                ctx.log('stump', type(e).__name__)
                return
            ctx.check(obj is None, 'stump', f'{what}: {len(body)} octets gave a {type(obj).__name__}')
        elif op['k'] == 'unknown':
            ctx.fault('unknown')
            try:
                obj = get()
            except Exception as e:
                raise core.Violation('unknown raises', f'{what}: {e!r}')
            ctx.check(obj is None, 'unknown accepted', lambda: f'{what} gave a {type(obj).__name__}')
            ctx.log('unknown', t)
        else:
            ctx.fault('known')
            name = model.FACTORY[t]
            obj = get()
            ctx.check(type(obj) is bridge.cls_of(name), 'class',
                      lambda: f'{what}, a {name}, gave {type(obj).__name__}')
            ctx.check(obj.pduType == t, 'type', lambda: f'{what}: its pduType is {obj.pduType}')
            same(ctx, model.delivered(op['v']), obj, 'content', what)
            unchanged(ctx, name, what)
            ctx.log('known', t, len(body))

    net.join('r', arrive)
    for n, op in enumerate(plan['ops']):
        if op['k'] == 'rename':
            def rename(op=op):
                # an application scribbles over the type of an object of its own
                ctx.fault('renamed')
                obj = bridge.blank(op['name'])
                try:
                    obj.pduType = op['to']
                    obj.protocolFamily = op['to']
                except AttributeError:
                    pass
                unchanged(ctx, op['name'], 'an object overwritten')
                ctx.log('rename', op['name'], op['to'])
            sim.at(n * .1, rename)
            continue
        data = model.encode(op['v']) if op['k'] == 'known' else op['data']
        if op['k'] == 'known' and op['v']['protocolFamily'] != model.SCHEMA[op['v']['__c']].family:
            ctx.fault('foreign-family')
        if op['k'] == 'known' and op['v']['protocolVersion'] != 7:
            ctx.fault('noise')
        sim.at(n * .1, net.send, 's', data, {'r': op['fate']}, n)
    sim.run()
