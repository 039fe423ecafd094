"""A node that runs for ever: what it has handled and dropped takes no memory."""
import gc
import os
import tempfile
import threading
import tracemalloc

from .. import bridge, core, fleet, model, work
from ..streams import ERRORS, Reader, Writer
from ..world import MODES, R, create, parse_into, serialize

ID = 'C23'
PAST = False
RUNS = dict(quick=96, thorough=5000)
BATCH = 2
STEPS = 60_000_000
MUST_FIRE = ('received', 'sent', 'parsed into', 'damaged', 'unknown', 'failed write', 'failed read', 'query', 'file')
RULE = ('A run is a long life of one node: thousands of messages of few classes, all different, received, parsed into '
        'a kept object, sent, sent into a failing stream, damaged, unknown, read from files and failing files, with '
        'coordinates and dead reckoning in between. The memory that is in use is measured after each seventh of it, '
        'with everything dropped; it must not go on growing.')
STATES = 'distinct (class, operation)'
REAL = ['opendis.dis7', 'opendis.record', 'opendis.stream', 'opendis.PduFactory', 'opendis.RangeCoordinates',
        'opendis.DeadReckoning']
STUB = ['streams']
ASSUMES = ['a bounded table of at most about a thousand entries is no leak']

WINDOWS, EACH = 7, 450
SLACK = 4000               # octets a window may grow by


def gen(rng, i):
    names = [model.PDUS[i % len(model.PDUS)]] + rng.sample(model.PDUS, rng.randrange(0, 3))
    kinds = [i // 3 % 12, rng.randrange(12), rng.randrange(12), rng.choice((0, 3, 4))]
    return dict(seed=rng.randrange(1 << 40), names=names, each=EACH, kinds=kinds)


SHRINK = ('names', 'kinds')
MIN = {'names': 1, 'kinds': 1}


def one(rng, names, kinds, kept, ctx, tmp, n):
    """one message or query; everything of it is dropped at the end"""
    k = rng.choice(kinds)
    name = rng.choice(names)
    if k < 10:
        v = model.gen(name, rng, rng.choice((0, 1, 1, 2)))
        data = model.encode(v)
    if k < 3:
        ctx.fault('received')
        create(data)
    elif k == 3:
        ctx.fault('parsed into')
        parse_into(kept[name], data)
    elif k in (4, 5):
        ctx.fault('sent')
        obj = bridge.build(v, rng.choice(MODES))
        serialize(obj)
    elif k == 6:
        ctx.fault('failed write')
        obj = bridge.build(v)
        for _ in range(4):
            try:
                obj.serialize(R.stream.DataOutputStream(Writer((rng.randrange(len(data)), rng.choice(sorted(ERRORS))))))
            except (Exception, KeyboardInterrupt):
                pass
    elif k == 7:
        ctx.fault('damaged')
        b = bytearray(data[:rng.randrange(3, len(data) + 1)])
        for _ in range(rng.randrange(3)):
            b[rng.randrange(3, max(4, len(b))) % len(b)] = rng.randrange(4)
        for _ in range(4):
            try:
                create(bytes(b))
            except Exception:
                pass
    elif k == 8:
        ctx.fault('failed read')
        for _ in range(4):
            try:
                parse_into(bridge.blank(name), None, Reader(data, (rng.randrange(40), rng.choice(sorted(ERRORS)))))
            except (Exception, KeyboardInterrupt):
                pass
    elif k == 9:
        ctx.fault('file')
        path = os.path.join(tmp, f'capture-{n}.bin')
        if rng.random() < .1:           # of a type the library does not implement
            data = data[:2] + bytes([rng.randrange(80, 256)]) + data[3:]
        if rng.random() < .9:
            with open(path, 'wb') as f:
                f.write(data[:rng.choice((len(data), len(data), rng.randrange(len(data) + 1)))])
        for _ in range(2):
            try:
                R.factory.createPduFromFilePath(path)
            except Exception:
                pass
        if os.path.exists(path):
            os.unlink(path)
    elif k == 10:
        ctx.fault('unknown')
        try:
            create(bytes([7, 1, rng.randrange(80, 256)]) + rng.randbytes(rng.randrange(200)))
            R.record.getStandardVariableClass(rng.randrange(1 << 32))(rng.randbytes(10))
        except Exception:
            pass
    else:
        ctx.fault('query')
        x = work.gen_pose(rng)
        work.geo(x)
        work.dr(x, rng.sample(work.ALGS, 2))
        m = R.dis7.EntityMarking()
        m.setString('name %d' % rng.randrange(1 << 20))
        m.charactersString()


def run(plan, ctx):
    kept = {n: bridge.blank(n) for n in plan['names']}
    used, n = [], 0
    gc.collect()
    tracemalloc.start(1)
    try:
        with tempfile.TemporaryDirectory(prefix='dst-c23-') as tmp:
            for w in range(WINDOWS):
                for _ in range(plan['each']):
                    one(core.rng_of(plan['seed'], n), plan['names'], plan['kinds'], kept, ctx, tmp, n)
                    n += 1
                for name in kept:
                    kept[name] = bridge.blank(name)
                gc.collect()
                used.append((tracemalloc.get_traced_memory()[0], threading.active_count(), len(os.listdir('/proc/self/fd'))))
                ctx.log('window', w, n, plan['names'], plan['kinds'], plan['seed'])
        growth = [b[0] - a[0] for a, b in zip(used, used[1:])]
        ctx.state(plan['names'], plan['kinds'])
        ctx.probes['octets kept in the last three windows'] += sum(growth[-3:])
        ctx.check(min(growth[-3:]) <= SLACK, 'memory', lambda: (
            f'{plan["each"]} messages of {plan["names"]} each time, dropped: memory grew by {growth} octets; most in '
            + where()))
        ctx.check(len({u[1:] for u in used[1:]}) == 1, 'threads or files', lambda: f'threads and open files: {[u[1:] for u in used]}')
    finally:
        tracemalloc.stop()


def where():
    s = tracemalloc.take_snapshot().statistics('lineno')
    return ', '.join(f'{os.path.basename(x.traceback[0].filename)}:{x.traceback[0].lineno} ({x.size})' for x in s[:3])
