"""Hostile traffic: garbage is refused or read as what it is, at bounded cost,
and leaves nothing behind."""
from .. import bridge, core, model
from ..limits import Small
from ..streams import Reader
from ..world import R, create, gen_size, parse_into, pick_pdu, same, serialize

ID = 'C04'
RUNS = dict(quick=22000, thorough=660000)
MUST_FIRE = ('misplaced', 'bitflip', 'octet', 'insert', 'delete', 'extreme', 'splice', 'garbage', 'truncate')
RULE = ('A run feeds one receiver damaged datagrams (flipped bits, replaced, inserted and deleted octets, extreme '
        'counts and lengths, spliced PDUs, variable records in PDUs they do not belong in, garbage behind a valid header) with intact ones in between; the oracle '
        'is the reference decoder: the same value, or refusal, and reads that stay within the datagram.')
STATES = 'distinct (PDU class, verdict, damaged offset)'
REAL = ['opendis.dis7', 'opendis.record', 'opendis.stream', 'opendis.PduFactory']
STUB = ['network (the hostile sender)']


def damage(rng, b, other):
    b = bytearray(b)
    log = []
    for _ in range(rng.choice((1, 1, 1, 2, 3, 6))):
        k = rng.choice(('bitflip', 'octet', 'insert', 'delete', 'extreme', 'extreme', 'splice', 'truncate'))
        n = len(b)
        if n < 2:
            break
        # the first octets decide much; so does whatever a count field says
        at = rng.randrange(n) if rng.random() < .7 else rng.randrange(min(n, 60))
        if k == 'bitflip':
            b[at] ^= 1 << rng.randrange(8)
        elif k == 'octet':
            b[at] = rng.choice((0, 1, 2, 127, 128, 255, rng.randrange(256)))
        elif k == 'insert':
            b[at:at] = rng.randbytes(rng.choice((1, 2, 4, 8)))
        elif k == 'delete':
            del b[at:at + rng.choice((1, 2, 4, 8))]
        elif k == 'extreme':
            w = rng.choice((1, 2, 4))
            at = at // w * w
            b[at:at + w] = rng.choice((b'\xff' * w, b'\x80' + bytes(w - 1), b'\x7f' + b'\xff' * (w - 1),
                                       bytes(w - 1) + bytes([rng.randrange(20)]), bytes(w)))[:max(0, n - at)]
        elif k == 'splice':
            b[at:] = other[min(at, len(other)):] if rng.random() < .5 else other[rng.randrange(len(other)):]
        else:
            del b[at:]
        log.append(k)
    return bytes(b), log


HOLD = {n: [f for f in model.SCHEMA[n].fields if f[0] == 'sv' and f[2] != 'StandardVariableRecord']
        for n in model.DISPATCHED}
HOSTS = sorted(n for n in HOLD if HOLD[n])


def misplaced(rng, i):
    """a whole record of a known type in a PDU that it does not belong in"""
    name = HOSTS[i % len(HOSTS)]
    v = model.gen(name, rng, rng.choice((0, 1, 2)))
    f = rng.choice(HOLD[name])
    xs = list(v[f[1]])
    wrong = [c.name for c in model.SV_TYPES.values() if not model.is_base(c, f[2])]
    xs.insert(rng.choice((0, len(xs), rng.randrange(len(xs) + 1))), model.gen(rng.choice(wrong), rng, 1))
    return v, model.encode(dict(v, **{f[1]: xs}))


def gen(rng, i):
    ops = []
    if rng.random() < .06:              # a broken sender repeats itself, or nearly
        v = model.gen(pick_pdu(rng, i, 0, model.DISPATCHED), rng, rng.choice((0, 1)))
        data = model.encode(v)
        other = model.encode(model.gen(rng.choice(model.DISPATCHED), rng, 1))
        worse = [damage(rng, data, other) for _ in range(2)] + [(data[:rng.randrange(3, len(data))], ['truncate'])]
        worse = worse[-1:] if rng.random() < .5 else worse
        n = rng.choice((12, 40, 110))
        for k in range(n):
            bad, kinds = rng.choice(worse)
            ops.append(dict(v=v, bad=bad, kinds=kinds, control=k == n - 1, via=rng.choice(('datagram', 'stream'))))
        return dict(ops=ops)
    for k in range(rng.choice((2, 4, 8))):
        v = model.gen(pick_pdu(rng, i, k, model.DISPATCHED), rng, rng.choice((0, 1, 1, 2, gen_size(rng))))
        data = model.encode(v)
        if rng.random() < .08:
            ty = rng.choice((data[2], rng.randrange(256)))
            bad = bytes([7, 1, ty, 1]) + rng.randbytes(8 + rng.choice((0, 4, 40, 200, 800)))
            kinds = ['garbage']
        elif HOSTS and rng.random() < .06:
            v, bad = misplaced(rng, rng.randrange(1000))
            kinds = ['misplaced']
        else:
            other = model.encode(model.gen(rng.choice(model.DISPATCHED), rng, 1))
            bad, kinds = damage(rng, data, other)
        ops.append(dict(v=v, bad=bad, kinds=kinds, control=rng.random() < .5,
                        via=rng.choice(('datagram', 'stream'))))
    return dict(ops=ops)


def simpler_plans(p):
    for n, op in enumerate(p['ops']):
        if op['control']:
            yield dict(p, ops=p['ops'][:n] + [dict(op, control=False)] + p['ops'][n + 1:])
        b = op['bad']
        good = model.encode(op['v'])
        for k in range(min(len(b), len(good))):
            if b[k] != good[k] and len(b) == len(good):
                c = b[:k] + good[k:k + 1] + b[k + 1:]
                if c != good:
                    yield dict(p, ops=p['ops'][:n] + [dict(op, bad=c)] + p['ops'][n + 1:])


def run(plan, ctx):
    kept = []                           # what the receiver goes on holding
    for n, op in enumerate(plan['ops']):
        bad, v = op['bad'], op['v']
        for k in op['kinds']:
            ctx.fault(k)
        try:
            want = model.decode_pdu(bad)
            verdict = 'unknown' if want is None else 'value'
        except model.Reject:
            want, verdict = None, 'reject'
        rd = Reader(bad)
        small = Small(steps=10 * len(bad) + 2000)
        try:
            with small:
                if op['via'] == 'datagram':
                    obj, e = create(bad), None
                else:
                    obj, e = R.factory.getPdu(R.stream.DataInputStream(rd)), None
        except (Exception, core.Budget) as x:
            obj, e = None, x
        cls = model.FACTORY.get(bad[2]) if len(bad) > 2 else None
        off = next((k for k, (a, b) in enumerate(zip(bad, model.encode(v))) if a != b), -1)
        ctx.state(cls, verdict, min(off, 200))
        ctx.probes[verdict] += 1
        ctx.log('hostile', n, cls, verdict, type(e).__name__, len(bad))
        what = f'op {n}: damaged {v["__c"]} ({",".join(op["kinds"])}, {bad[:200].hex()})'
        ctx.check(not isinstance(e, core.Budget), 'work', lambda: f'{what}: {e} for {len(bad)} octets')
        ctx.check(not isinstance(e, (MemoryError, RecursionError)), 'resources',
                  lambda: f'{what}: {type(e).__name__} for {len(bad)} octets')
        if verdict == 'reject':
            ctx.check(obj is None, 'garbage accepted',
                      lambda: f'{what}: read as {type(obj).__name__}, which its octets do not hold')
            ctx.check(e is not None, 'garbage ignored', lambda: f'{what}: neither a value nor an error')
        elif verdict == 'unknown':
            ctx.check(e is None and obj is None, 'unknown type', lambda: f'{what}: unknown type gave {obj!r}, {e!r}')
        else:
            ctx.check(e is None, 'readable refused', lambda: f'{what}: {e!r}')
            same(ctx, want[0], obj, 'misread', what)
            kept.append((want[0], obj, what))
        if op['via'] == 'stream':
            ctx.check(rd.calls <= 4 * len(bad) + 400, 'reads',
                      f'{what}: {rd.calls} reads of a datagram of {len(bad)} octets')
        if op['control']:
            # nothing of it is left: the next intact PDU is as good as ever
            good = model.encode(v)
            for m in range(2):
                what = f'op {n}: intact PDU {m} after {bad[:60].hex()}'
                obj = create(good)
                same(ctx, model.delivered(v), obj, 'after garbage', what)
                kept.append((model.delivered(v), obj, what))
            ctx.check(serialize(bridge.build(v)) == good, 'after garbage', f'op {n}: own PDU after {bad[:60].hex()}')
            blank = bridge.blank(v['__c'])
            parse_into(blank, good)
            same(ctx, model.delivered(v), blank, 'after garbage', f'op {n}: parse after {bad[:60].hex()}')
    for n, (want, obj, what) in enumerate(kept):
        same(ctx, want, obj, 'held', f'{what}: at the end')
        ctx.check(all(obj is not x for _, x, _ in kept[:n]), 'held', lambda: f'{what}: the same object again')
