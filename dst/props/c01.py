"""Intact delivery: every value survives serialization, the network and parsing."""
from .. import bridge, model
from ..world import Exercise, gen_exercise, receive, same, serialize

ID = 'C01'
RUNS = dict(quick=20000, thorough=600000)
MUST_FIRE = ('loss', 'duplicate', 'delay', 'crash', 'partition', 'truncate', 'garbage', 'bitflip')
RULE = ('A run is an exercise of 2 to 4 nodes exchanging PDUs of all 56 concrete classes whose fields are '
        'drawn over their whole wire range, under loss, duplication, delay, corruption, partitions and crashes; '
        'the oracle is the sent value itself.')
STATES = 'distinct (PDU class, length of the datagram)'
REAL = ['opendis.dis7', 'opendis.record', 'opendis.stream', 'opendis.PduFactory']
STUB = ['UDP network', 'clock', 'node processes (in-process tables, lost on crash)']
ASSUMES = ['schema.txt lists which attributes of each class are transmitted',
           'UaPdu is sent without its unfinished record lists (known finding, see C02)']


def gen(rng, i):
    return gen_exercise(rng, i, rng.choice((1, 2, 4, 8, 14)))


class Run(Exercise):
    def boot(self, node):
        if node not in self.up:
            super().boot(node)
            self.up[node].update(kept=[], own={})

    def send(self, n, op, src):
        own, v = self.up[src]['own'], op['v']
        if op['again'] and v['__c'] in own:
            # a node that goes on using the PDU object it has, with new content
            obj = own[v['__c']]
            c = model.SCHEMA[v['__c']]
            bridge.assign(obj, c, bridge.values(c, v, 'attrs'), v, 'attrs')
            self.ctx.probes['reused'] += 1
        else:
            obj = own[v['__c']] = bridge.build(v, op['mode'])
        same(self.ctx, v, obj, 'assigned', f'op {n}: object as assigned')
        return serialize(obj)

    def arrive(self, node, src, body, intact, what, meta):
        v = self.plan['ops'][meta]['v']
        me, ctx = self.up[node], self.ctx
        if not intact and what != 'pad':
            try:
                receive(v['__c'], body)
            except Exception as e:      # what garbage does is another property's business
                ctx.log('rejected', node, meta, type(e).__name__)
            return
        obj = receive(v['__c'], body)
        ctx.log(f'{self.sim.now:.6f}', 'deliver', meta, node)
        ctx.state(v['__c'], len(body))
        want = model.delivered(v)
        same(ctx, want, obj, 'delivered', f'op {meta} at node {node}')
        me['kept'].append((meta, obj, want))
        self.recheck(me, -2)

    def recheck(self, me, n):
        if len(me['kept']) >= abs(n):
            meta, obj, want = me['kept'][n]
            same(self.ctx, want, obj, 'held', f'op {meta}, held since it arrived')

    def run(self):
        super().run()
        for node in sorted(self.up):
            for n in range(len(self.up[node]['kept'])):
                self.recheck(self.up[node], -1 - n)


def run(plan, ctx):
    Run(plan, ctx).run()
