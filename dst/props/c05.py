"""Failing streams, interrupts and allocations: the failure is reported, the PDU
survives it, and trying again works."""
from .. import bridge, model
from ..sched import Interrupt
from ..streams import ERRORS, Reader, Writer
from ..world import SENT, R, gen_size, parse_into, pick_pdu, same, serialize

ID = 'C05'
RUNS = dict(quick=30000, thorough=900000)
MUST_FIRE = tuple(ERRORS) + ('interrupt', 'alloc')
RULE = ('A run serializes and parses a few PDUs and records while the stream fails at a chosen octet or read call, '
        'or an interrupt or a failed allocation strikes at a chosen line of library code; afterwards the '
        'operation is repeated, up to three failures in a row.')
STATES = 'distinct (class, operation, fault, place)'
REAL = ['opendis.dis7', 'opendis.record', 'opendis.stream', 'opendis.PduFactory']
STUB = ['disk, socket and pipe streams', 'signals and allocator (exceptions raised by a trace function)']
ASSUMES = ['a failed parse may leave the object it parsed into half filled; only parsing again is defined']

WRITE_ERRORS = [k for k in ERRORS]


def gen(rng, i):
    ops = []
    for k in range(rng.choice((1, 2, 3, 5))):
        v = model.gen(pick_pdu(rng, i, k, model.PDUS if rng.random() < .75 else model.RECORDS), rng,
                      rng.choice((0, 1, 1, 2, gen_size(rng))))
        n = len(model.encode(v))
        if not n:
            continue
        faults = []
        for _ in range(rng.choice((1, 1, 2, 3))):
            act = rng.choice(('write', 'write', 'read', 'read', 'create'))
            kind = rng.choice(WRITE_ERRORS + ['interrupt', 'alloc', 'interrupt', 'alloc'])
            at = rng.randrange(n) if act == 'write' and kind in ERRORS else rng.choice(
                (rng.randrange(8), rng.randrange(40), rng.randrange(2 * n + 10)))
            faults.append([act, kind, at])
        ops.append(dict(v=v, mode=rng.choice(SENT), faults=faults))
    return dict(ops=ops)


SHRINK_IN_OP = ('faults',)


def comes_from(e, cause):
    seen = set()
    while e is not None and id(e) not in seen:
        if e is cause:
            return True
        seen.add(id(e))
        e = e.__cause__ or e.__context__
    return False


def attempt(act, kind, at, v, obj, data):
    """-> (fired, place, the exception injected, the exception that came out, result)"""
    name = v['__c']
    w = Writer((at, kind)) if act == 'write' and kind in ERRORS else Writer()
    rd = Reader(data, (at, kind) if act != 'write' and kind in ERRORS else None)
    out = R.stream.DataOutputStream(w)
    inp = R.stream.DataInputStream(rd)
    via_factory = act == 'create' and name in model.DISPATCHED
    target = obj if act == 'write' or via_factory else bridge.blank(name)
    intr = exc = res = None
    if kind == 'interrupt':
        intr = Interrupt(at, KeyboardInterrupt('simulated'))
    elif kind == 'alloc':
        intr = Interrupt(at, MemoryError('simulated'))
    try:
        if intr:
            intr.__enter__()
        try:
            if act == 'write':
                target.serialize(out)
                res = w.getvalue()
            elif via_factory:
                res = R.factory.getPdu(inp)
            else:
                target.parse(inp)
                res = target
        finally:
            if intr:
                intr.__exit__()
    except (Exception, KeyboardInterrupt) as e:
        exc = e
        if via_factory and rd.raised:   # the same stream, which works again
            res = R.factory.getPdu(inp)
    fired = intr.fired if intr else w.fired or rd.fired
    cause = intr.exc if intr else w.raised or rd.raised
    place = intr.where if intr else at
    return fired, place, cause, exc, res, w, target


def run(plan, ctx):
    for n, op in enumerate(plan['ops']):
        v, name = op['v'], op['v']['__c']
        data = model.encode(v)
        want = model.delivered(v)
        obj = bridge.build(v, op['mode'])
        half = None
        for act, kind, at in op['faults']:
            fired, place, cause, exc, res, w, target = attempt(act, kind, at, v, obj, data)
            what = f'op {n}: {kind} at {place} while {"serializing" if act == "write" else "decoding"} {name}'
            ctx.log(act, kind, at, name, fired, type(exc).__name__)
            if fired:
                ctx.fault(kind)
                ctx.state(name, act, kind, place)
                ctx.check(exc is not None, 'swallowed', lambda: f'{what}: reported as success')
                if isinstance(exc, (KeyboardInterrupt, MemoryError)) or not isinstance(exc, Exception):
                    pass
                else:
                    ctx.check(comes_from(exc, cause), 'disguised', lambda: f'{what}: came out as {exc!r}')
                if act == 'write':
                    ctx.check(data.startswith(w.getvalue()), 'torn',
                              lambda: f'{what}: what was written before is not a prefix of the PDU')
            else:
                ctx.check(exc is None, 'failed alone', lambda: f'{what}, which did not happen: {exc!r}')
            if act == 'write':
                same(ctx, v, obj, 'sender changed', what)
            elif act == 'create' and name in model.DISPATCHED and fired and kind in ERRORS:
                same(ctx, want, res, 'retry same stream', what)
            elif target is not obj:
                half = target
        # everything works again: the object serialized, the octets decoded,
        # into a new object and into the one left half filled
        ctx.check(serialize(obj) == data, 'retry', f'op {n}: {name} serialized after the faults differs')
        same(ctx, want, parse_into(bridge.blank(name), data), 'retry', f'op {n}: {name} parsed after the faults')
        if half is not None:
            same(ctx, want, parse_into(half, data), 'retry same object', f'op {n}: {name} parsed again')
