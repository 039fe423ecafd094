"""Markings: the name every node shows is the name last given."""
from .. import core, model
from ..world import R, create, serialize

ID = 'C21'
RUNS = dict(quick=25000, thorough=750000)
MUST_FIRE = ('rename', 'shorter', 'empty', 'too-long', 'loss', 'duplicate', 'delay', 'crash', 'foreign', 'confirm')
RULE = ('A run renames entities of several nodes and publishes them through a faulty network; each receiver\'s marking '
        'must be that of the state it last received, to the octet, and an owner\'s what was last set.')
STATES = 'distinct (length, length before, receiver reuses its object)'
REAL = ['opendis.dis7', 'opendis.stream', 'opendis.PduFactory']
STUB = ['network', 'node processes']
ASSUMES = ['names are ASCII without NUL; a name of more than 11 characters keeps its first 11 (the size of the field)']


def gen_name(rng):
    if rng.random() < .04:
        s = model.WORDS.pick(rng, 'str')
        if s is not None and all(0 < ord(c) < 128 for c in s):
            return s
    n = rng.choice((0, 1, 1, 2, 4, 5, 10, 11, 11, 12, 30))
    return ''.join(chr(rng.choice((rng.randrange(32, 127), 65, 127, 1))) for _ in range(n))


def gen(rng, i):
    net = core.gen_net(rng)
    net['corrupt'] = 0
    n = rng.choice((1, 2, 3))
    ops, t = [], 0.0
    for _ in range(rng.choice((3, 6, 12))):
        t = round(t + rng.random() * 2, 6)
        ops.append(dict(t=t, e=rng.randrange(n), k=rng.choice(('rename', 'rename', 'publish', 'adopt', 'foreign', 'foreign', 'swap', 'confirm', 'confirm')), name=gen_name(rng),
                        cs=rng.randrange(3), raw=[rng.choice((0, 0, 65, 90, 48, rng.randrange(1, 128))) for _ in range(11)], o=rng.randrange(n), fate=core.gen_fate(rng, net)))
    crashes = [[round(rng.uniform(0, t), 6)]] if rng.random() < .3 else []
    return dict(n=n, crashes=crashes, reuse=rng.random() < .5, ops=ops)


def run(plan, ctx):
    sim = core.Sim(ctx)
    net = core.Net(sim, ctx)
    own = [R.dis7.EntityStatePdu() for _ in range(plan['n'])]
    names = [''] * plan['n']
    shown = {}
    sent = {}

    def look(pdu, name, what):
        if isinstance(name, list):      # not a name; the octets are what counts
            ctx.check(list(pdu.marking.characters) == name, 'octets', lambda: f'{what}: {list(pdu.marking.characters)} '
                      f'instead of {name}')
            return
        got = pdu.marking.charactersString()
        ctx.check(got == name, 'name', f'{what}: shown as {got!r} instead of {name!r}')
        octets = list(name.encode()) + [0] * (11 - len(name))
        ctx.check(list(pdu.marking.characters) == octets, 'octets', lambda: f'{what}: {list(pdu.marking.characters)} '
                  f'instead of {octets}')

    def everything(what):
        for e in range(plan['n']):
            look(own[e], names[e], f'{what}: entity {e} at its owner')
        for e, (pdu, name) in shown.items():
            look(pdu, name, f'{what}: entity {e} at the receiver')

    def step(n, op):
        e = op['e']
        if op['k'] == 'rename':
            ctx.fault('rename')
            new = op['name'][:11]
            if len(op['name']) > 11:
                ctx.fault('too-long')
            if len(new) < len(names[e]):
                ctx.fault('shorter')
            if not new:
                ctx.fault('empty')
            ctx.state(len(op['name']), len(names[e]), plan['reuse'])
            own[e].marking.setString(op['name'])
            own[e].marking.characterSet = op['cs']
            names[e] = new
        elif op['k'] == 'confirm':
            # it is given the name that it shows
            ctx.fault('confirm')
            own[e].marking.setString(names[e] if isinstance(names[e], str) else bytes(filter(None, names[e])).decode())
            names[e] = names[e] if isinstance(names[e], str) else bytes(filter(None, names[e])).decode()
        elif op['k'] == 'adopt':
            # a node takes an entity over under a marking of its own making
            m = R.dis7.EntityMarking()
            m.setString(op['name'])
            own[e].marking = m
            names[e] = op['name'][:11]
        elif op['k'] == 'foreign':
            # it comes from another node, with octets no name gives
            ctx.fault('foreign')
            own[e].marking = R.dis7.EntityMarking(op['cs'], list(op['raw']))
            names[e] = list(op['raw'])
        elif op['k'] == 'swap':
            own[e].marking, own[op['o']].marking = own[op['o']].marking, own[e].marking
            names[e], names[op['o']] = names[op['o']], names[e]
        own[e].entityID.entityNumber = e
        data = serialize(own[e])
        want = bytes(names[e]) if isinstance(names[e], list) else names[e].encode() + bytes(11 - len(names[e]))
        ctx.check(data[129:140] == want, 'sent', f'op {n}: sent {data[129:140]!r} instead of {want!r}')
        sent[n] = names[e]
        ctx.log(f'{sim.now:.6f}', op['k'], e, names[e])
        net.send('s', data, {'r': op['fate']}, n)
        everything(f'op {n}')

    def arrive(src, body, intact, what, meta):
        e = plan['ops'][meta]['e']
        if plan['reuse'] and e in shown:
            pdu = shown[e][0]
            pdu.parse(R.stream.DataInputStream(__import__('io').BytesIO(body)))
        else:
            pdu = create(body)
        shown[e] = (pdu, sent[meta])
        ctx.log(f'{sim.now:.6f}', 'shown', e, sent[meta])
        everything(f'delivery of op {meta}')

    def crash():
        ctx.fault('crash')
        shown.clear()

    net.join('r', arrive)
    for n, op in enumerate(plan['ops']):
        sim.at(op['t'], step, n, op)
    for t, in plan['crashes']:
        sim.at(t, crash)
    sim.run()
    everything('at the end')
