"""The library is used again in the middle of its own work: by signal handlers, and
by streams whose reads and writes use it."""
import os
import tempfile

from .. import bridge, model, sched, work
from ..world import MODES, same

ID = 'C24'
PAST = False
RUNS = dict(quick=14000, thorough=420000)
MUST_FIRE = ('signal', 'callback', 'nested twice', 'shared-send')
RULE = ('A run encodes, decodes, converts coordinates and dead-reckons; at planned lines of the library a signal '
        'handler, and at planned stream calls the stream itself, does other such work with the library, up to two '
        'levels deep. Each result, of the outer and of the inner work, is compared with what it is by itself.')
STATES = 'distinct (operation, class, operation inside it, class, line or stream call)'
REAL = ['opendis.dis7', 'opendis.record', 'opendis.stream', 'opendis.PduFactory', 'opendis.RangeCoordinates',
        'opendis.DeadReckoning']
STUB = ['signal delivery', 'streams', 'locks the library would make']
ASSUMES = ['signal handlers run between lines of Python code']


def gen(rng, i):
    names = work.gen_names(rng, i)
    shared = [dict(v=model.gen(rng.choice(names), rng, rng.choice((0, 1, 2))), mode=rng.choice(MODES)) for _ in range(2)]
    poses = work.gen_poses(rng)

    def one(depth):
        op = work.gen_op(rng, names, poses)
        op['inner'] = [dict(at=rng.choice((rng.randrange(8), rng.randrange(60), rng.randrange(400), rng.randrange(1500))),
                            by=rng.choice(('signal', 'signal', 'stream')), op=one(depth - 1))
                       for _ in range(rng.choice((1, 2, 4)) if depth == 2 else rng.choice((0, 0, 1)))] if depth else []
        if depth == 2:
            op['hot'] = sched.gen_hot(rng)
        if depth == 2 and rng.random() < .2:    # a timer that goes off again and again
            gap, inner = rng.choice((1, 2, 5, 17)), one(0)
            op['inner'] += [dict(at=k * gap, by='signal', op=inner) for k in range(1, 12)]
        return op
    return dict(ops=[one(2) for _ in range(rng.choice((1, 2, 3)))], shared=shared)


def simpler_plans(p):
    for n, op in enumerate(p['ops']):
        for k in range(len(op['inner'])):
            yield dict(p, ops=p['ops'][:n] + [dict(op, inner=op['inner'][:k] + op['inner'][k + 1:])] + p['ops'][n + 1:])
        for k, x in enumerate(op['inner']):
            if x['op']['inner']:
                y = dict(x, op=dict(x['op'], inner=[]))
                yield dict(p, ops=p['ops'][:n] + [dict(op, inner=op['inner'][:k] + [y] + op['inner'][k + 1:])] + p['ops'][n + 1:])


def run(plan, ctx):
    shared = [(bridge.build(o['v'], o['mode']), model.encode(o['v']), o['v']) for o in plan['shared']]
    files = [0]

    def name(op):
        return f'{op["k"]} {op.get("v", {}).get("__c", "")}'

    def prepare(op):
        return work.expected(op), [prepare(x['op']) for x in op['inner']]

    def do(op, what, ready, depth):
        calls = [0]
        files[0] += 1
        path = os.path.join(tmp, str(files[0]))
        late = []               # streams' own errors would look like failures of the stream

        def nest(k, how):
            x = op['inner'][k]
            ctx.fault(how)
            if depth:
                ctx.fault('nested twice')
            ctx.state(name(op), name(x['op']), how)
            ctx.log(how, depth, k, name(x['op']))
            do(x['op'], f'{what}, in it by {how} at {x["at"]} {name(x["op"])}', ready[1][k], depth + 1)

        def point():
            c, calls[0] = calls[0], calls[0] + 1
            for k, x in enumerate(op['inner']):
                if x['by'] == 'stream' and x['at'] == c:
                    try:
                        nest(k, 'callback')
                    except Exception as e:
                        late.append(e)
        signals = [k for k, x in enumerate(op['inner']) if x['by'] == 'signal']
        signals.sort(key=lambda k: op['inner'][k]['at'])
        try:
            if signals and depth == 0:
                with sched.Signals([op['inner'][k]['at'] for k in signals], lambda k: nest(signals[k], 'signal'), op.get('hot')):
                    work.do(ctx, op, what, point, shared, ready[0], path)
            else:
                work.do(ctx, op, what, point, shared, ready[0], path)
        except Exception:
            if not late:
                raise
        if late:
            raise late[0]

    with tempfile.TemporaryDirectory(prefix='dst-c24-') as tmp:
        for n, op in enumerate(plan['ops']):
            ctx.log('op', n, name(op))
            do(op, f'op {n} ({name(op)})', prepare(op), 0)
    for obj, want, v in shared:
        same(ctx, v, obj, 'shared changed', 'the shared PDU')
