"""Threads that use their own PDUs do not disturb each other, however they are
interleaved; nor do threads that send one PDU nobody changes."""
import os
import tempfile

from .. import bridge, model, sched, work
from ..world import MODES, same

ID = 'C06'
PAST = False
RUNS = dict(quick=8000, thorough=240000)
BATCH = 20
MUST_FIRE = ('thread-switch', 'shared-send', 'blocked-stream')
RULE = ('A run has 2 to 4 threads encode and decode PDUs of their own, send one shared PDU, convert coordinates and '
        'dead-reckon; they are real threads of which one runs at a time, switched at lines or bytecodes of the '
        'library and at stream calls as the plan says. Each result is compared with what a lone thread gets.')
STATES = 'distinct (operation, operation it was switched into)'
REAL = ['opendis.dis7', 'opendis.record', 'opendis.stream', 'opendis.PduFactory', 'opendis.RangeCoordinates',
        'opendis.DeadReckoning']
STUB = ['thread scheduler (one runs at a time)', 'locks the library would make', 'streams']
ASSUMES = ['switches happen between bytecodes; memory is sequentially consistent']


def gen(rng, i):
    n = rng.choice((2, 2, 3, 4))
    names = work.gen_names(rng, i)
    shared = [dict(v=model.gen(rng.choice(names), rng, rng.choice((0, 1, 2))), mode=rng.choice(MODES)) for _ in range(2)]
    poses = work.gen_poses(rng)
    threads = [[work.gen_op(rng, names, poses) for _ in range(rng.choice((1, 2, 3)))] for _ in range(n)]
    return dict(threads=threads, shared=shared, grain=rng.choice(('line', 'line', 'op')),
                switches=sched.gen_switches(rng), hot=sched.gen_hot(rng))


SHRINK = ('switches', 'threads')
MIN = {'threads': 1}


def simpler_plans(p):
    for t, ops in enumerate(p['threads']):
        for k in range(len(ops)):
            yield dict(p, threads=p['threads'][:t] + [ops[:k] + ops[k + 1:]] + p['threads'][t + 1:])


def run(plan, ctx):
    s = sched.Threads(ctx, plan['switches'], plan['grain'], hot=plan['hot'])
    shared = [(bridge.build(o['v'], o['mode']), model.encode(o['v']), o['v']) for o in plan['shared']]
    alone = {(t, k): work.expected(op) for t, ops in enumerate(plan['threads']) for k, op in enumerate(ops)}
    doing = {}

    def body(t, ops):
        for k, op in enumerate(ops):
            for u, d in doing.items():
                if u != t and d:
                    ctx.state(op['k'], op.get('v', {}).get('__c'), d)
            doing[t] = op['k']
            ctx.log('begin', t, k, op['k'], s.steps)
            work.do(ctx, op, f'thread {t} op {k} ({op["k"]})', s.point, shared, alone[t, k], os.path.join(tmp, f'{t}-{k}'))
            doing[t] = None
        ctx.log('end', t, s.steps)

    for t, ops in enumerate(plan['threads']):
        s.spawn(lambda t=t, ops=ops: body(t, ops))
    if not plan['threads']:
        return
    with tempfile.TemporaryDirectory(prefix='dst-c06-') as tmp:
        for e in s.run():
            if e is not None:
                raise e
    for obj, want, v in shared:
        same(ctx, v, obj, 'shared changed', 'the shared PDU')
    ctx.probes['steps'] += s.steps
