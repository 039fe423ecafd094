"""Interoperation: nodes of this library and peers with a codec of their own."""
import struct

from .. import bridge, core, model
from ..streams import Reader
from ..world import SENT, Exercise, R, gen_exercise, gen_size, parse_into, receive, same, serialize

ID = 'C02'
RUNS = dict(quick=20000, thorough=600000)
MUST_FIRE = ('loss', 'duplicate', 'delay', 'partition', 'crash', 'foreign-pdu', 'foreign-record')
RULE = ('A run is an exercise in which odd nodes are reference peers, whose codec is generated from the reviewed '
        'layout table schema.txt and shares nothing with the library, and even nodes run the library; octets sent '
        'are compared with the peer\'s, values received with what the peer sent, for 56 PDU classes and 114 '
        'records on their own.')
STATES = 'distinct (PDU or record class, length)'
REAL = ['opendis.dis7', 'opendis.record', 'opendis.stream', 'opendis.PduFactory']
STUB = ['UDP network', 'clock', 'the foreign peers (dst/model.py from schema.txt)']
ASSUMES = ['schema.txt, reviewed against IEEE 1278.1-2012 as the library documents it, is the agreed wire layout']

UA = {'shaft': (1, 0, 0, 8), 'APA': (0, 1, 0, 4), 'emitter-system': (0, 0, 1, 12)}


def gen(rng, i):
    p = gen_exercise(rng, i, rng.choice((2, 4, 8, 12)))
    p['records'] = [dict(v=model.gen(model.RECORDS[(i * 3 + k) % len(model.RECORDS)], rng, gen_size(rng)),
                         mode=rng.choice(SENT), tail=rng.choice((0, 0, 1, 5))) for k in range(3)]
    return p


SHRINK = ('ops', 'records')


def known_plans():
    return [dict(known=k, nodes=2, cuts=[], crashes=[], ops=[], records=[]) for k in UA]


def octets(ctx, v, data, want, what):
    def msg():
        n = next((k for k, (a, b) in enumerate(zip(data, want)) if a != b), min(len(data), len(want)))
        return (f'{what}: {v["__c"]} sent as {len(data)} octets, expected {len(want)}, first difference at '
                f'octet {n}: {data[n:n + 8].hex()} instead of {want[n:n + 8].hex()}')
    ctx.check(data == want, 'octets', msg)


class Run(Exercise):
    def send(self, n, op, src):
        want = model.encode(op['v'])
        if int(src) % 2:
            self.ctx.fault('foreign-pdu')
            return want
        data = serialize(bridge.build(op['v'], op['mode']))
        octets(self.ctx, op['v'], data, want, f'op {n}')
        return data

    def arrive(self, node, src, body, intact, what, meta):
        v, ctx = self.plan['ops'][meta]['v'], self.ctx
        if not intact and what != 'pad':
            return
        want = model.delivered(v)
        ctx.state(v['__c'], len(body))
        ctx.log('deliver', meta, node)
        if int(node) % 2:
            got, used = model.decode(v['__c'], body)
            d = model.diff(want, got)
            ctx.check(d is None, 'understood', lambda: f'op {meta}: the peer reads {v["__c"]}{d}')
            ctx.check(used == len(model.encode(v)), 'understood', f'op {meta}: the peer uses {used} octets')
        else:
            same(ctx, want, receive(v['__c'], body), 'understood here', f'op {meta}')


def run(plan, ctx):
    if plan.get('known'):
        counts = UA[plan['known']]
        v = model.gen('UaPdu', core.rng_of('known'), 0)
        b = model.encode(v)
        b = b[:-3] + bytes(counts[:3]) + bytes(counts[3])
        ctx.fault('foreign-pdu')
        sig = f'UaPdu with {plan["known"]} record'
        try:
            pdu = R.factory.createPdu(b)
        except Exception as e:
            raise core.Violation(sig, f'{type(e).__name__}: {e}')
        ctx.check(pdu is not None and pdu.numberOfShafts + pdu.numberOfAPAs + pdu.numberOfUAEmitterSystems == 1,
                  sig, 'the record is lost')
        return
    Run(plan, ctx).run()
    for n, r in enumerate(plan['records']):
        v = r['v']
        want = model.encode(v)
        ctx.fault('foreign-record')
        data = serialize(bridge.build(v, r['mode']))
        octets(ctx, v, data, want, f'record {n}')
        got, used = model.decode(v['__c'], data)
        d = model.diff(model.delivered(v), got)
        ctx.check(d is None, 'understood', lambda: f'record {n}: the peer reads {v["__c"]}{d}')
        rd = Reader(want + struct.pack('>5B', 1, 2, 3, 4, 5)[:r['tail']])
        obj = parse_into(bridge.blank(v['__c']), None, rd)
        same(ctx, model.delivered(v), obj, 'understood here', f'record {n}')
        ctx.check(rd.pos == len(want), 'consumed', f'record {n}: {v["__c"]} of {len(want)} octets used {rd.pos}')
        ctx.log('record', v['__c'], data[:48].hex(), len(data))
        ctx.state(v['__c'], len(data))
