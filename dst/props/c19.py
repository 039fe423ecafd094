"""Gateways: a PDU decoded and sent on, any number of times, is still the same octets."""
from .. import bridge, core, model
from ..world import R, create, gen_size, parse_into, pick_pdu, receive, same, serialize

ID = 'C19'
RUNS = dict(quick=14000, thorough=420000)
MUST_FIRE = ('hop', 'loss', 'duplicate', 'delay', 'crash', 'unknown-record', 'edit')
RULE = ('A run sends PDUs of a foreign node, with record types nobody knows and reserved bits set, through a chain of '
        'gateways that decode and re-encode every PDU and may crash, lose, repeat and delay, or change one field of what '
        'they relay; what any gateway sends is compared with what the origin sent, with those changes.')
STATES = 'distinct (PDU class, hops, unknown records inside)'
REAL = ['opendis.dis7', 'opendis.record', 'opendis.stream', 'opendis.PduFactory']
STUB = ['network', 'the foreign origin (dst/model.py)', 'gateway processes']


def gen(rng, i):
    hops = rng.choice((1, 2, 3, 5))
    net = core.gen_net(rng)
    net['corrupt'] = 0
    ops, t = [], 0.0
    for k in range(rng.choice((1, 3, 6, 10))):
        t = round(t + rng.random(), 6)
        names = model.PDUS if rng.random() < .6 else ['TransmitterPdu', 'DirectedEnergyFirePdu', 'EntityDamageStatusPdu',
                                                      'SetDataPdu', 'IntercomControlPdu', 'SignalPdu', 'AttributePdu']
        v = model.plain(model.gen(pick_pdu(rng, i, k, names), rng, gen_size(rng)))
        edits, w = {}, v
        if rng.random() < .4:           # gateways that change one field before sending on
            for n in sorted(rng.sample(range(hops), rng.choice((1, 1, hops)))):
                e = model.gen_edit(w, rng)
                if e:
                    edits[str(n)], w = e, model.edited(w, *e)
        ops.append(dict(t=t, v=v, reuse=rng.random() < .3, edits=edits,
                        fates=[core.gen_fate(rng, net) for _ in range(hops)]))
    crashes = []
    if rng.random() < .4:
        a = rng.uniform(0, t)
        crashes.append([rng.randrange(hops), round(a, 6), round(a + rng.uniform(.1, 2), 6)])
    return dict(hops=hops, crashes=crashes, ops=ops)


def unknowns(v):
    if isinstance(v, dict):
        return ('data' in v and v['__c'].startswith('Unknown')) + sum(unknowns(x) for x in v.values())
    return sum(unknowns(x) for x in v) if isinstance(v, list) else 0


def run(plan, ctx):
    sim = core.Sim(ctx)
    net = core.Net(sim, ctx)
    held = {}

    def boot(n):
        held[n] = {}
        net.join(str(n), lambda *a: gateway(n, *a))

    def crash(n):
        ctx.fault('crash')
        held.pop(n, None)
        net.leave(str(n))

    def gateway(n, src, body, intact, what, meta):
        op = plan['ops'][meta]
        v = op['v']
        name = v['__c']
        ctx.fault('hop')
        for k in range(n + 1):
            if str(k) in op['edits']:
                v = model.edited(v, *op['edits'][str(k)])
        orig = model.encode(v)
        e = op['edits'].get(str(n))
        if op['reuse'] and name in held[n]:
            obj = parse_into(held[n][name], body)       # a gateway with one object per class
        else:
            obj = receive(name, body)
        held[n][name] = obj
        if e:
            ctx.fault('edit')
            bridge.poke(obj, *e)
        u = unknowns(v)
        if u:
            ctx.fault('unknown-record', u)
        data = serialize(obj)
        ctx.state(name, n, u)
        ctx.log(f'{sim.now:.6f}', 'hop', meta, n, len(data))

        def msg():
            k = next((k for k, (a, b) in enumerate(zip(data, orig)) if a != b), min(len(data), len(orig)))
            return (f'op {meta}: gateway {n} sends {name} on as {len(data)} octets, '
                    f'instead of {len(orig)}{", with " + repr(e) if e else ""}; first '
                    f'difference at octet {k}: {data[k:k + 8].hex()} instead of {orig[k:k + 8].hex()}')
        ctx.check(data == orig, 'relayed', msg)
        if n + 1 < plan['hops']:
            net.send(str(n), data, {str(n + 1): op['fates'][n + 1]}, meta)

    for n in range(plan['hops']):
        boot(n)
    for n, a, b in plan['crashes']:
        sim.at(a, crash, n)
        sim.at(b, boot, n)
    for m, op in enumerate(plan['ops']):
        sim.at(op['t'], net.send, 'origin', model.encode(op['v']), {'0': op['fates'][0]}, m)
    sim.run()
