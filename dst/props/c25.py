"""What an application leaves out goes out as its default; what it gives, as given."""
import os

from .. import bridge, core, model
from ..streams import ERRORS, Writer
from ..world import R, create, gen_size, parse_into, pick_pdu, receive, same, serialize

ID = 'C25'
RUNS = dict(quick=26000, thorough=780000)
MUST_FIRE = ('blank', 'keyword', 'positional', 'attribute', 'in-place', 'none', 'explicit-zero', 'scribble', 'damaged',
             'received', 'failed-make', 'loss', 'duplicate', 'send-fails')
RULE = ('A run is the life of a node that builds PDUs and records from parts of their fields, by keyword, position '
        'and attribute, nested, and sends them over a faulty network, while it receives, decodes damaged octets and '
        'scribbles on objects made before; the oracle is the table of defaults and argument orders.')
STATES = 'distinct (class, way of giving, number of fields given, what went before)'
REAL = ['opendis.dis7', 'opendis.record', 'opendis.stream', 'opendis.PduFactory']
STUB = ['network', 'streams']
ASSUMES = ['an EnvironmentGeneral has no default for its geometry (its documentation says it needs hand coding)']

# defaults other than zero, None and empty
DEF = {('PduHeader', 'protocolVersion'): 7,
       ('BasicHaveQuickMP', 'mwod_index'): 1,
       ('DirectedEnergyDamage', 'temperature'): -273.15,
       ('AngleDeception', 'recordType'): 3501, ('AngleDeception', 'recordLength'): 48,
       ('FalseTargetsAttribute', 'recordType'): 3502, ('FalseTargetsAttribute', 'recordLength'): 48,
       ('BlankingSector', 'recordType'): 3500, ('BlankingSector', 'recordLength'): 40,
       ('EntityTypeVP', 'recordType'): 3, ('SeparationVP', 'recordType'): 2,
       ('AttachedParts', 'recordType'): 1, ('EntityAssociation', 'recordType'): 4,
       ('RadioType', 'entityKind'): 7,
       ('IOCommunicationsNode', 'recordType'): 5501, ('IOCommunicationsNode', 'recordLength'): 16,
       ('IOEffect', 'recordType'): 5500, ('IOEffect', 'recordLength'): 16}
# fields that mean something only together
TOGETHER = {'modulationParameters': ('modulationType', 'modulationParameters'),
            'antennaPattern': ('antennaPatternType', 'antennaPattern'),
            'variableData': ('variableDatumLength', 'variableData')}
NEEDED = {'EnvironmentGeneral': ('geometry',)}
ARGS = {}
for _l in open(os.path.join(model.HERE, 'params.txt')):
    if _l.strip() and _l[0] != ';':
        _w = _l.split()
        ARGS[_w[0]] = [tuple(x.partition('=')[::2]) if '=' in x else (x, x) for x in _w[1:]]
NAMES = [n for n in model.PDUS + model.RECORDS + sorted(c.name for c in model.SV_TYPES.values()) if n in ARGS]


def blank(name):
    c = model.SCHEMA[name]
    v = {'__c': name}
    for f in c.fields:
        k = f[0]
        if k == 'prim':
            z = 0.0 if f[2][0] == 'f' else 0
            own = DEF.get((name, f[1]), 7 if c.kind == 'pdu' and f[1] == 'protocolVersion' else z)
            v[f[1]] = own if f[3] is None else f[3]
        elif k == 'rec':
            v[f[1]] = blank(f[2])
        elif k in ('list', 'sv'):
            v[f[1]] = []
        elif k == 'array':
            v[f[1]] = [0] * f[2]
        elif k == 'bits':
            v.update((nm, False if isbool else 0) for nm, _, isbool in f[2] if nm != '-')
        elif k == 'special':
            if f[1] == 'variableDatum':
                v.update(variableDatumLength=0, variableData=[])
            else:
                v[f[1]] = None
    return v


def fields(name):
    """attribute -> ('rec', class) | ('list', class) | ('value', its zero)"""
    out = {}
    for f in model.SCHEMA[name].fields:
        k = f[0]
        if k == 'prim' and f[3] is None:
            out[f[1]] = ('value', 0.0 if f[2][0] == 'f' else 0)
        elif k == 'rec':
            out[f[1]] = ('rec', f[2])
        elif k == 'list' and f[2] not in model.PACK:
            out[f[1]] = ('list', f[2])
        elif k in ('list', 'sv'):
            out[f[1]] = ('value', [])
        elif k == 'array':
            out[f[1]] = ('value', [0] * f[2])
        elif k == 'bits':
            out.update((nm, ('value', False if isbool else 0)) for nm, _, isbool in f[2] if nm != '-')
        elif k == 'special' and f[1] == 'variableDatum':
            out.update(variableDatumLength=('value', None), variableData=('value', None))
        elif k == 'special':
            out[f[1]] = ('value', None)
    return out


F = {n: fields(n) for n in model.SCHEMA}


def gen_spec(rng, name, size, v=None, how=None):
    """which fields of v are given, and how; {'c', 'how', 'given', 'none', 'n'}"""
    v = v or model.gen(name, rng, size)
    fs = F[name]
    density = rng.choice((0, .1, .3, .5, .8, 1))
    mask = {a for a in fs if rng.random() < density}
    if fs and density and not mask:
        mask = {rng.choice(sorted(fs))}
    how = how or rng.choice(('kw', 'kw', 'pos', 'attr', 'in-place'))
    mask |= set(NEEDED.get(name, ()))
    n = 0
    args = ARGS.get(name, [])
    if how == 'pos' and args:
        n = rng.randrange(1, len(args) + 1)
        mask |= {a for _, a in args[:n] if a}
    for a, b in TOGETHER.items():
        if a in fs and mask & set(b):
            mask |= set(b)
    given = {}
    zero = rng.random() < .4
    for a in fs:
        if a not in mask:
            continue
        k, c = fs[a]
        if k == 'value':
            x = v[a]
            if zero and c is not None and a not in ('radioSystem', 'antennaPatternType') and rng.random() < .5:
                x = c
            given[a] = x
        elif k == 'rec':
            alone = a == 'modulationType'
            given[a] = gen_spec(rng, v[a]['__c'], size - 1, v[a], 'kw' if alone else None)
            if alone:
                given[a]['given'] = {b: v[a][b] if F[c][b][0] == 'value' else full(v[a][b]) for b in F[c]}
                given[a]['none'] = []
        else:
            given[a] = [gen_spec(rng, x['__c'], size - 1, x) for x in ([] if zero and rng.random() < .3 else v[a])]
    none = [p for p, a in args[n:] if a and a not in mask and how in ('kw', 'pos')
            and fs.get(a, ('', 0))[0] in ('rec', 'list') and rng.random() < .15]
    return dict(c=name, how=how, given=given, none=none, n=n)


def full(v):
    return dict(c=v['__c'], how='attr', none=[], n=0,
                given={a: v[a] if F[v['__c']][a][0] == 'value' else full(v[a]) if F[v['__c']][a][0] == 'rec'
                       else [full(x) for x in v[a]] for a in F[v['__c']]})


def want(s):
    v = blank(s['c'])
    for a, x in s['given'].items():
        k = F[s['c']][a][0]
        v[a] = x if k == 'value' else want(x) if k == 'rec' else [want(y) for y in x]
    return v


def value(c, a, x):
    """a leaf as the application writes it"""
    f = next((f for f in model.SCHEMA[c].fields if f[1] == a), None)
    if f and f[0] == 'sv':
        return [bridge._sub(y, 'ctor', f[2]) for y in x]
    if isinstance(x, dict):
        return bridge._sub(x, 'attrs')
    return list(x) if isinstance(x, list) else x


def made(s, ctx, obj=None):
    name, how = s['c'], s['how']
    fs = F[name]

    def x(a):
        y = s['given'][a]
        k = fs[a][0]
        if k == 'rec':
            return made(y, ctx)
        if k == 'list':
            return [made(z, ctx) for z in y]
        if y == fs[a][1] and not y:
            ctx.fault('explicit-zero')
        return value(name, a, y)
    if obj is None:
        pos, kw = [], {}
        args = ARGS.get(name, [])
        if how == 'pos':
            ctx.fault('positional')
            for p, a in args[:s['n']]:
                pos.append(x(a) if a in s['given'] else [] if name == 'UaPdu' else 0)
        if how in ('kw', 'pos'):
            for p, a in args[s['n']:]:
                if a in s['given']:
                    ctx.fault('keyword')
                    kw[p] = x(a)
            for p in s['none']:
                if p not in kw:
                    ctx.fault('none')
                    kw[p] = None
        if not pos and not kw and not s['given']:
            ctx.fault('blank')
        obj = bridge.cls_of(name)(*pos, **kw)
        done = {a for _, a in args} if how in ('kw', 'pos') else set()
    else:
        done = set()
    for a in s['given']:
        if a in done:
            continue
        ctx.fault('attribute')
        if how == 'in-place' and fs[a][0] == 'rec' and s['given'][a]['c'] == fs[a][1]:
            ctx.fault('in-place')
            made(dict(s['given'][a], how='in-place'), ctx, getattr(obj, a))
        else:
            bridge.put(obj, a, x(a))
    return obj


def gen(rng, i):
    net = core.gen_net(rng)
    focus = [pick_pdu(rng, i, 0, NAMES), rng.choice(NAMES)]
    ops = []
    for k in range(rng.choice((3, 5, 9, 14))):
        r = rng.random()
        name = rng.choice(focus) if rng.random() < .7 else pick_pdu(rng, i, k, NAMES)
        op = dict(fate=core.gen_fate(rng, dict(net, corrupt=0, padded=0)))
        if r < .62:
            op.update(k='make', s=gen_spec(rng, name, gen_size(rng)))
            if rng.random() < .15:
                op.update(fails=rng.randrange(30), kind=rng.choice(sorted(ERRORS)))
        elif r < .74:
            op.update(k='scribble', name=name, seed=rng.randrange(1 << 30), s=gen_spec(rng, name, 1))
        elif r < .84:
            op.update(k='received', v=model.gen(name, rng, 2))
        elif r < .94:
            op.update(k='damaged', v=model.gen(name, rng, 2), at=rng.random(), byte=rng.randrange(256))
        else:
            op.update(k='failed', name=name)
        ops.append(op)
    ops.append(dict(k='make', s=dict(c=focus[0], how='kw', none=[], n=0, given=gen_spec(
        rng, focus[0], 0)['given'] if focus[0] in NEEDED else {}), fate=[[.1, 'ok']]))
    return dict(ops=ops)


def scribble(rng, obj, v, depth=0):
    """whatever an object holds is overwritten where it is"""
    for a, (k, c) in F[v['__c']].items():
        if k == 'rec':
            if depth < 6:
                scribble(rng, getattr(obj, a), v[a], depth + 1)
        elif k == 'list':
            getattr(obj, a).append(bridge.blank(c))
        elif isinstance(c, list):
            xs = getattr(obj, a)
            if xs:
                xs[rng.randrange(len(xs))] = 1
            xs.append(1)
        elif c is not None and rng.random() < .7:
            bridge.put(obj, a, True if c is False else 1)


def run(plan, ctx):
    sim = core.Sim(ctx)
    net = core.Net(sim, ctx)
    past = [None]

    def arrive(src, body, intact, what, meta):
        op = plan['ops'][meta]
        name = op['s']['c']
        what = f'op {meta}: {name} received'
        if model.SCHEMA[name].kind != 'pdu' or name not in model.PDUS:
            return
        try:
            ref, _ = model.decode(name, body)
        except model.Reject as e:
            ctx.log('not decodable', meta, str(e))
            return
        same(ctx, ref, receive(name, body), 'received', what)
        ctx.log('received', meta, len(body))

    def step(n, op):
        k = op['k']
        if k == 'make':
            s = op['s']
            v = want(s)
            what = f'op {n}: {s["c"]} with {", ".join(s["given"]) or "nothing"} given ({s["how"]}) after {past[0]}'
            ctx.state(s['c'], s['how'], min(len(s['given']), 9), past[0])
            obj = made(s, ctx)
            same(ctx, v, obj, 'made', what)
            octets = model.encode(v)
            if 'fails' in op:
                w = Writer((op['fails'], op['kind']))
                try:
                    obj.serialize(R.stream.DataOutputStream(w))
                except (Exception, KeyboardInterrupt):
                    if not w.fired:
                        raise
                    ctx.fault('send-fails')
            got = serialize(obj)
            ctx.check(got == octets, 'sent', lambda: f'{what}: {got.hex()[:200]} sent instead of {octets.hex()[:200]}')
            same(ctx, v, obj, 'kept', what)
            ctx.log('made', s['c'], s['how'], len(octets))
            net.send('s', octets, {'r': op['fate']}, n)
        elif k == 'scribble':
            ctx.fault('scribble')
            # a default object, and one partly given, written over
            for s in (op['s'], dict(op['s'], given={a: op['s']['given'][a] for a in NEEDED.get(op['s']['c'], ())}, none=[], n=0, how='kw')):
                obj = made(s, ctx)
                same(ctx, want(s), obj, 'made', f'op {n}: {s["c"]} with {", ".join(s["given"]) or "nothing"} given')
                scribble(core.rng_of(op['seed']), obj, want(s))
            ctx.log('scribble', op['name'])
        elif k == 'received':
            ctx.fault('received')
            name = op['v']['__c']
            data = model.encode(op['v'])
            obj = bridge.build(op['v'], 'attrs')
            if name in model.DISPATCHED:
                obj = create(data)
            scribble(core.rng_of(n), obj, op['v'])
            ctx.log('received', name)
        elif k == 'damaged':
            ctx.fault('damaged')
            name = op['v']['__c']
            data = bytearray(model.encode(op['v']))
            if data:
                data[int(op['at'] * len(data))] = op['byte']
            try:
                if name in model.DISPATCHED:
                    create(bytes(data[:int(len(data) * max(.2, op['at']))]))
                else:
                    parse_into(bridge.blank(name), bytes(data[:-1]))
            except Exception as e:
                ctx.log('damaged', type(e).__name__)
        else:
            ctx.fault('failed-make')
            name = op['name']
            try:
                bridge.cls_of(name)(noSuchField=1)
            except TypeError:
                ctx.log('failed', name)
        past[0] = k
    net.join('r', arrive)
    for n, op in enumerate(plan['ops']):
        sim.at(n * .1, step, n, op)
    sim.run()
