"""Objects are independent: using one never changes another, nor what a new one is."""
import copy

from .. import bridge, core, model
from ..world import MODES, R, create, gen_size, parse_into, pick_pdu, same, serialize

ID = 'C08'
RUNS = dict(quick=15000, thorough=450000)
BATCH = 60
MUST_FIRE = ('new', 'mutate', 'grow', 'parse', 'receive', 'buffer-reuse', 'forget', 'copy', 'damaged', 'touch')
RULE = ('A run is a history of one process that creates, fills in place, grows, parses into, receives and forgets '
        'many objects of few classes, from one reused receive buffer; after every step every live object is '
        'compared with its own model, and new objects with what they were when the process started.')
STATES = 'distinct (operation, class, class operated on before)'
REAL = ['opendis.dis7', 'opendis.record', 'opendis.stream', 'opendis.PduFactory']
STUB = ['network receive buffer']

# what default-constructed objects are in a process that has done nothing yet
START = {}
for _n in sorted(bridge.CLASSES):
    if _n in model.SCHEMA and not model.SCHEMA[_n].abstract:
        try:
            START[_n] = bridge.extract(bridge.blank(_n), _n)
        except Exception:           # classes that need arguments
            pass
NAMES = sorted(START)


def gen(rng, i):
    names = [pick_pdu(rng, i, 0), rng.choice(model.PDUS)] + rng.sample([n for n in NAMES if n in model.RECORDS], 2)
    ops = []
    for _ in range(rng.choice((4, 8, 16, 24))):
        k = rng.choice(('new', 'new', 'build', 'mutate', 'mutate', 'grow', 'grow', 'parse', 'receive', 'receive', 'forget', 'copy', 'damaged',
                        'defaults', 'touch', 'touch', 'touch'))
        op = dict(k=k, o=rng.randrange(8))
        if k in ('new', 'build', 'mutate', 'parse', 'receive', 'grow', 'defaults', 'damaged'):
            name = rng.choice(names)
            if k in ('receive', 'damaged'):
                op['at'] = rng.random()
                name = rng.choice(names[:2])
            op['name'] = name
            if k not in ('new', 'defaults'):
                op['v'] = model.gen(name, rng, gen_size(rng))
                if k != 'receive':          # what is parsed into keeps the kinds of its identifiers
                    op['v'] = model.plain(op['v'])
            op['mode'] = rng.choice(MODES)
        elif k == 'touch':
            op['seed'] = rng.randrange(1 << 30)
        ops.append(op)
    return dict(ops=ops)


def grow(obj, v, other):
    """append other's list elements to the lists obj has, in place; the model too"""
    c = model.SCHEMA[v['__c']]
    v = dict(v)
    vals = bridge.values(c, other, 'attrs')
    caps = {f[2]: (model.COUNT_MAX[f[1]] - f[5]) // f[4] for f in c.fields if f[0] == 'count'}
    for f in c.fields:
        if f[0] in ('list', 'sv') and len(v[f[1]]) + len(other[f[1]]) <= caps[f[1]]:
            lst = getattr(obj, f[1])
            for x in vals[f[1]]:
                lst.append(x)
            v[f[1]] = list(v[f[1]]) + list(other[f[1]])
        elif f[0] == 'array':
            lst = getattr(obj, f[1])
            for n, x in enumerate(other[f[1]]):
                lst[n] = x
            v[f[1]] = list(other[f[1]])
        elif f[0] == 'special' and f[1] == 'variableDatum':
            obj.variableDatumLength = other['variableDatumLength']
            obj.variableData[:] = other['variableData']
            v.update(variableDatumLength=other['variableDatumLength'], variableData=list(other['variableData']))
    return v


def fresh(ctx, name, what):
    if name in START:
        got = bridge.extract(bridge.blank(name), name)
        d = model.diff(START[name], got)
        ctx.check(d is None, 'new object', lambda: f'{what}: a new {name} is not what it was at the start: {name}{d}')


def run(plan, ctx):
    pool = []                       # [object, its model]
    buf = bytearray(1 << 17)
    last = None
    for n, op in enumerate(plan['ops']):
        k, what = op['k'], f'op {n} ({op["k"]} {op.get("name", "")})'
        mine = [e for e in pool if op.get('name') in (None, e[1]['__c'])]
        e = mine[op['o'] % len(mine)] if mine else None
        ctx.state(k, op.get('name'), last)
        last = op.get('name')
        ctx.log(k, op.get('name'), op['o'], len(pool))
        if k in ('new', 'defaults'):
            ctx.fault('new')
            fresh(ctx, op['name'], what)
            if k == 'new' and op['name'] in START:
                pool.append([bridge.blank(op['name']), START[op['name']]])
        elif k == 'build' or e is None and k in ('mutate', 'grow', 'parse'):
            pool.append([bridge.build(op['v'], op['mode']), op['v']])
        elif k == 'mutate':
            ctx.fault('mutate')
            c = model.SCHEMA[op['name']]
            bridge.assign(e[0], c, bridge.values(c, op['v'], 'inplace'), op['v'], 'inplace')
            e[1] = op['v']
        elif k == 'grow':
            ctx.fault('grow')
            e[1] = grow(e[0], e[1], op['v'])
        elif k == 'touch' and pool:
            # one field, somewhere deep inside one object
            e = pool[-1 - op['o'] % min(3, len(pool))]
            rng = core.rng_of(op['seed'])
            for _ in range(rng.choice((1, 1, 2, 4))):
                try:
                    ed = model.gen_edit(e[1], rng)
                except Exception:       # a default object may not be ready to send
                    break
                if not ed:
                    break
                ctx.fault('touch')
                bridge.poke(e[0], ed[0], ed[1])
                e[1] = model.edited(e[1], tuple(ed[0]), ed[1])
                same(ctx, e[1], e[0], 'changed', f'{what}: its own object')
        elif k == 'parse':
            ctx.fault('parse')
            parse_into(e[0], model.encode(op['v']))
            e[1] = model.delivered(op['v'])
        elif k == 'receive':
            ctx.fault('receive')
            data = model.encode(op['v'])
            if op['name'] not in model.DISPATCHED:
                continue
            buf[:len(data)] = data
            view = bytes(memoryview(buf)[:len(data)])
            pool.append([create(view), model.delivered(op['v'])])
            for m in range(len(data)):          # the next datagram lands in the same buffer
                buf[m] = 0xa5
            ctx.fault('buffer-reuse')
        elif k == 'damaged':
            # the octets end early, or not where they should: an error, or something else
            data = model.encode(op['v'])
            ctx.fault('damaged')
            try:
                create(data[:int(op['at'] * len(data))])
            except Exception as x:
                ctx.log('damaged', type(x).__name__)
        elif k == 'copy' and pool:
            ctx.fault('copy')
            obj, v = pool[op['o'] % len(pool)]
            pool.append([copy.deepcopy(obj), v])
        elif k == 'forget' and pool:
            ctx.fault('forget')
            del pool[op['o'] % len(pool)]
        if len(pool) > 10:
            del pool[0]
        for m, (obj, v) in enumerate(pool):
            same(ctx, v, obj, 'changed', f'{what}: object {m}')
    for m, (obj, v) in enumerate(pool):
        try:
            want = model.encode(v)
        except Exception:           # a default object may not be ready to send
            continue
        ctx.check(serialize(obj) == want, 'sent', f'object {m}, a {v["__c"]}, is sent as something else')
    for name in sorted({op['name'] for op in plan['ops'] if 'name' in op}):
        fresh(ctx, name, 'at the end')
