"""Sending is read-only: heartbeats repeat the same octets until the state changes."""
from .. import bridge, core, model
from ..streams import ERRORS, Writer
from ..world import MODES, R, create, gen_size, pick_pdu, same, serialize

ID = 'C07'
RUNS = dict(quick=24000, thorough=720000)
MUST_FIRE = ('heartbeat', 'update', 'touch', 'permute', 'excess', 'EIO', 'clock-jump', 'inspect', 'loopback')
RULE = ('A run has an entity hold PDU objects and send heartbeats on a skewed, jumping clock, with state updates, '
        'failed sends, attribute reads, size queries and reception of other traffic in between; each send is '
        'compared with the model state.')
STATES = 'distinct (PDU class, heartbeats since the last update)'
REAL = ['opendis.dis7', 'opendis.record', 'opendis.stream', 'opendis.PduFactory']
STUB = ['clock and heartbeat timer', 'socket']


def gen(rng, i):
    objs = [dict(v=model.gen(pick_pdu(rng, i, k, model.PDUS if rng.random() < .8 else model.RECORDS), rng, gen_size(rng)),
                 mode=rng.choice(MODES)) for k in range(rng.choice((1, 2, 3)))]
    ops = []
    for _ in range(rng.choice((3, 6, 12, 20))):
        o = rng.randrange(len(objs))
        k = rng.choice(('beat', 'beat', 'beat', 'beat', 'update', 'touch', 'touch', 'permute', 'excess', 'fail', 'inspect', 'jump', 'loopback'))
        op = dict(k=k, o=o)
        if k == 'update':
            # some fields take new values, the others stay
            name = objs[o]['v']['__c']
            nv = model.gen(name, rng, gen_size(rng))
            op['keep'] = rng.random()
            op['v'] = nv
            op['seed'] = rng.randrange(1 << 30)
        elif k in ('touch', 'permute', 'excess'):
            op['seed'] = rng.randrange(1 << 30)
        elif k == 'fail':
            op['at'], op['kind'] = rng.random(), rng.choice(sorted(ERRORS))
        elif k == 'jump':
            op['by'] = rng.choice((-3600.0, -5.0, 5.0, 86400.0))
        ops.append(op)
    return dict(objs=objs, ops=ops, beat=rng.choice((1.0, 5.0)), drift=rng.choice((0, .01, -.01)))


def inspect(obj, depth=0):
    """read every public attribute, call every size method, print it"""
    n = 0
    for a in dir(obj):
        if a.startswith('_'):
            continue
        x = getattr(obj, a)
        n += 1
        if a == 'marshalledSize':
            x()
        elif isinstance(x, list):
            for y in x[:4]:
                if type(y).__module__.startswith('opendis') and depth < 4:
                    n += inspect(y, depth + 1)
        elif type(x).__module__.startswith('opendis') and not callable(x) and depth < 4:
            n += inspect(x, depth + 1)
    for a in ('charactersString', 'datumPaddingSizeInBits'):
        if hasattr(obj, a):
            try:
                getattr(obj, a)()
            except ValueError:          # not every marking is text
                pass
    repr(obj)
    str(obj)
    return n


LINKED = {'radioSystem', 'modulationType', 'modulationParameters', 'antennaPattern', 'antennaPatternType',
          'variableDatumLength', 'variableData'}


def mixed(old, new, rng, keep):
    out = dict(old)
    names = set(old)
    linked = rng.random() < keep
    for k in sorted(names):
        if k == '__c':
            continue
        if k in LINKED:
            if not linked:
                out[k] = new[k]
        elif rng.random() >= keep:
            out[k] = new[k]
    return out


def run(plan, ctx):
    sim = core.Sim(ctx)
    clock = core.Clock(sim, drift=plan['drift'])
    objs = []
    for o in plan['objs']:
        objs.append([bridge.build(o['v'], o['mode']), o['v'], 0])

    def step(n, op):
        e = objs[op['o']]
        obj, v, beats = e
        name = v['__c']
        ctx.log(f'{clock.now():.6f}', op['k'], op['o'], name, beats)
        if op['k'] == 'beat':
            ctx.fault('heartbeat')
            data = serialize(obj)
            want = model.encode(v)
            ctx.check(data == want, 'heartbeat', lambda: (
                f'op {n}: heartbeat {beats} of {name} since its last update: {data.hex()[:300]} instead of '
                f'{want.hex()[:300]}'))
            e[2] += 1
            ctx.state(name, e[2])
        elif op['k'] == 'update':
            ctx.fault('update')
            nv = mixed(v, op['v'], core.rng_of(op['seed']), op['keep'])
            c = model.SCHEMA[name]
            ch = {k: x for k, x in bridge.values(c, nv, 'attrs').items() if nv[k] is not v[k]}
            bridge.assign(obj, c, ch, nv, 'attrs')
            e[1], e[2] = nv, 0
        elif op['k'] == 'touch':
            # one field, somewhere deep inside, where it is
            ed = model.gen_edit(v, core.rng_of(op['seed']))
            if ed:
                ctx.fault('touch')
                bridge.poke(obj, ed[0], ed[1])
                e[1], e[2] = model.edited(v, tuple(ed[0]), ed[1]), 0
        elif op['k'] == 'permute':
            # the same elements in another order, in the same list
            rng = core.rng_of(op['seed'])
            seqs = [x for x in model.sequences(v) if x[1] > 1]
            if seqs:
                ctx.fault('permute')
                path, m = rng.choice(seqs)
                seed = rng.randrange(1 << 30)
                old, lst = model.at(v, path), model.at_obj(obj, path)
                lst[:] = model.permuted(lst, m, core.rng_of(seed))
                e[1], e[2] = model.edited(v, path, model.permuted(old, m, core.rng_of(seed))), 0
        elif op['k'] == 'excess':
            # a buffer that holds more octets than the datum takes of it
            paths = [p for p, m in model.sequences(v) if p[-1] == 'variableData']
            if paths:
                ctx.fault('excess')
                rng = core.rng_of(op['seed'])
                path = rng.choice(paths)
                more = list(rng.randbytes(rng.choice((1, 7, 8, 20))))
                model.at_obj(obj, path).extend(more)
                e[1], e[2] = model.edited(v, path, model.at(v, path) + more), 0
        elif op['k'] == 'fail':
            size = len(model.encode(v))
            w = Writer((int(op['at'] * size), op['kind']))
            try:
                obj.serialize(R.stream.DataOutputStream(w))
            except (Exception, KeyboardInterrupt) as x:
                if x is not w.raised and x.__cause__ is not w.raised and x.__context__ is not w.raised:
                    raise
            if w.fired:
                ctx.fault(op['kind'])
        elif op['k'] == 'inspect':
            ctx.fault('inspect')
            inspect(obj)
        elif op['k'] == 'jump':
            ctx.fault('clock-jump')
            clock.jump(op['by'])
        elif op['k'] == 'loopback' and name in model.DISPATCHED:
            # its own heartbeat comes back over multicast
            ctx.fault('loopback')
            same(ctx, model.decode(name, model.encode(v))[0], create(serialize(obj)), 'loopback', f'op {n}')
        same(ctx, e[1], obj, 'changed by sending', f'op {n}: {name} after {op["k"]}')

    for n, op in enumerate(plan['ops']):
        sim.at(n * plan['beat'], step, n, op)
    sim.run()
