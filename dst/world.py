"""Workloads shared by the properties: exercises of several nodes on one
simulated network, and calls into the code under test."""
import os
import random

from . import bridge, core, model, sched, words
from .streams import Reader, Writer

R = bridge.R
model.WORDS = words.Words(os.path.join(bridge.REPO, 'opendis'))
# classes that differ from those of the unchanged tree are sent more often
sched.OWN |= model.WORDS.own
HOT = set(n for n in model.SCHEMA if n in model.WORDS.hot)
HOT = HOT if len(HOT) < 40 else set()
MODES = ('attrs', 'inplace', 'ctor')     # ways to build an object
SENT = MODES + ('shared',)                # ... that is not changed any more


def serialize(obj):
    w = Writer()
    obj.serialize(R.stream.DataOutputStream(w))
    return w.getvalue()


def parse_into(obj, data, reader=None):
    obj.parse(R.stream.DataInputStream(reader or Reader(data)))
    return obj


def create(data):
    return R.factory.createPdu(data)


def receive(name, data):
    """what a receiver gets: through the factory, or for the one PDU class the
    factory does not dispatch to, by its own parse"""
    if name == 'FastEntityStatePdu':
        return parse_into(bridge.blank(name), data)
    return create(data)


def same(ctx, want, obj, sig, what):
    ctx.check(obj is not None, sig + ': nothing', f'{what}: nothing was returned')
    got = bridge.extract(obj)
    d = model.diff(want, got)
    ctx.check(d is None, sig, lambda: f'{what}: {want["__c"]}{d}')


def pick_pdu(rng, i, k, names=model.PDUS):
    """rotate over the types so that few runs cover all of them"""
    if HOT and rng.random() < .3:
        hot = [n for n in names if n in HOT]
        if hot:
            return rng.choice(hot)
    return names[(i + k * 17) % len(names)] if rng.random() < .5 else rng.choice(names)


def gen_size(rng):
    return rng.choice((0, 1, 1, 1, 2, 2, 3)) if rng.random() < .9 else 3


def gen_exercise(rng, i, ops, names=model.PDUS, net=None, nodes=None):
    """{nodes, cuts, crashes, ops}; every datagram with its fates"""
    nodes = nodes or rng.choice((2, 2, 3, 3, 4))
    net = core.gen_net(rng) if net is None else net
    t, out = 0.0, []
    if rng.random() < .5:               # a run may be about few classes, often sent
        names = [pick_pdu(rng, i, 0, names) if HOT else names[i % len(names)]] + rng.sample(names, rng.randrange(0, 3))
    for k in range(ops):
        t = round(t + rng.choice((0.0, .001, .02, .5, 1, 5)) * (1 + rng.random()), 6)
        src = rng.randrange(nodes)
        v = model.gen(pick_pdu(rng, i, k, names), rng, gen_size(rng))
        out.append(dict(t=t, src=src, v=v, mode=rng.choice(SENT), again=rng.random() < .25,
                        fates={str(d): core.gen_fate(rng, net) for d in range(nodes) if d != src}))
    cuts, crashes = [], []
    if rng.random() < .3:
        a = rng.uniform(0, t)
        cuts.append([round(a, 6), round(a + rng.uniform(.1, max(t, .2)), 6),
                     sorted(rng.sample(range(nodes), rng.randrange(1, nodes)))])
    if rng.random() < .4:
        a = rng.uniform(0, t)
        crashes.append([rng.randrange(nodes), round(a, 6), round(a + rng.uniform(.05, 8), 6)])
    return dict(nodes=nodes, cuts=cuts, crashes=crashes, ops=out)


class Exercise:
    """Runs such a plan; subclasses say what sending and receiving mean."""

    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.sim = core.Sim(ctx)
        self.net = core.Net(self.sim, ctx)
        self.net.cuts = [(a, b, set(str(x) for x in s)) for a, b, s in plan['cuts']]
        self.up = {}
        for n in range(plan['nodes']):
            self.boot(str(n))
        for node, a, b in plan['crashes']:
            self.sim.at(a, self.crash, str(node))
            self.sim.at(b, self.boot, str(node))
        for n, op in enumerate(plan['ops']):
            self.sim.at(op['t'], self.op, n, op)

    def boot(self, node):
        if node in self.up:
            return
        self.up[node] = {}
        self.net.join(node, lambda *a, node=node: self.arrive(node, *a))

    def crash(self, node):
        if node in self.up:
            self.ctx.fault('crash')
            self.ctx.log(f'{self.sim.now:.6f}', 'crash', node)
            del self.up[node]
            self.net.leave(node)

    def op(self, n, op):
        src = str(op['src'])
        if src not in self.up:
            self.ctx.log(f'{self.sim.now:.6f}', 'op of a node that is down', n)
            return
        data = self.send(n, op, src)
        if data is None:
            return
        self.ctx.log(f'{self.sim.now:.6f}', 'send', n, src, op['v']['__c'], data[:64].hex(), len(data))
        self.net.send(src, data, op['fates'], n)

    def send(self, n, op, src):
        return serialize(bridge.build(op['v'], op['mode']))

    def arrive(self, node, src, body, intact, what, meta):
        raise NotImplementedError

    def run(self):
        self.sim.run()
