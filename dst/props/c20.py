"""Decoding takes the octets of one PDU and no more: bundles and connections stay
in step, and nothing waits for octets that belong to the next PDU."""
import io

from .. import bridge, core, model
from ..streams import ERRORS, Reader
from ..world import R, gen_size, parse_into, pick_pdu, same

ID = 'C20'
RUNS = dict(quick=20000, thorough=600000)
MUST_FIRE = ('bundle', 'resume', 'not-yet-arrived', 'cut', 'eof', 'foreign-tail',
             'file-bytes', 'file-peek', 'file-both')
RULE = ('A run puts several PDUs and records behind each other into one datagram, file or connection whose octets '
        'arrive in pieces and may end within a PDU or fail; the reader takes them off one by one. The oracle is where the '
        'reference encoder ended each one.')
STATES = 'distinct (class, class before, length)'
REAL = ['opendis.dis7', 'opendis.record', 'opendis.stream']
STUB = ['connection delivering in pieces']


ALONE = [c.name for c in model.SV_TYPES.values()] + ['UnknownSV', 'UnknownRadio', 'UnknownAntennaPattern']


def gen_alone(rng):
    name = rng.choice(ALONE)
    if name == 'UnknownSV':
        while True:
            v = model.gen_sv(rng.choice(sorted(bridge.BASES)), rng, 1)
            if v['__c'] == name:
                return v
    if name in model.SCHEMA:
        return model.gen(name, rng, 1)
    return {'__c': name, 'data': rng.randbytes(rng.choice((1, 2, 16, 39, 40, 255)))}


def octets(v):
    """what the parse of a v reads"""
    if v['__c'].startswith('Unknown'):
        return v['data']
    return model.encode(v)[6 if v['__c'] in ALONE else 0:]


def blank(v):
    return R.record.getStandardVariableClass(v['recordType'])() if v['__c'] == 'UnknownSV' else bridge.blank(v['__c'])


def read(obj, v, rd):
    if v['__c'] in ALONE:
        n = len(octets(v)) + (0 if v['__c'] in ('UnknownRadio', 'UnknownAntennaPattern') else 6)
        obj.parse(R.stream.DataInputStream(rd), n)
    else:
        parse_into(obj, None, rd)


def equal(ctx, v, obj, sig, what):
    if v['__c'] == 'UnknownSV':
        got = bridge.extract_sv(obj, 'StandardVariableRecord')
        ctx.check(model.diff(v, got) is None, sig, lambda: f'{what}: {model.diff(v, got)}')
    else:
        same(ctx, model.delivered(v), obj, sig, what)


def complete(v, data):
    """a v is in data but for alignment"""
    if v['__c'].startswith('Unknown'):
        return False
    try:
        model.decode(v['__c'], data)
    except model.Reject:
        return False
    return True


def gen(rng, i):
    items = []
    for k in range(rng.choice((1, 2, 3, 5, 8))):
        names = model.PDUS if rng.random() < .8 else model.RECORDS
        if rng.random() < .12:          # a record that is told its length
            items.append(dict(v=gen_alone(rng), into=False))
            continue
        items.append(dict(v=model.gen(pick_pdu(rng, i, k, names), rng, gen_size(rng)), into=rng.random() < .2))
    total = sum(len(octets(x['v'])) for x in items)
    return dict(ops=items, file=rng.choice(('bytes', 'peek', 'both')), ahead=rng.choice((1, 16, 8192)), tail=rng.randbytes(rng.choice((0, 0, 1, 4, 50))), cut=rng.choice((None, rng.randrange(total + 1))),
                fail=rng.choice((None, [rng.randrange(0, 80), rng.choice(sorted(ERRORS))])))


def run(plan, ctx):
    items = plan['ops']
    parts = [octets(x['v']) for x in items]
    data = b''.join(parts) + plan['tail']
    ends, at = [], 0
    for p in parts:
        at += len(p)
        ends.append(at)
    if plan['tail']:
        ctx.fault('foreign-tail')
    objs = {}

    def take(rd, n, what, pos=lambda rd: rd.pos):
        name = items[n]['v']['__c']
        obj = objs[name] if items[n]['into'] and name in objs else blank(items[n]['v'])
        read(obj, items[n]['v'], rd)
        objs[name] = obj
        equal(ctx, items[n]['v'], obj, 'bundle', f'{what}: item {n} of {len(items)}')
        ctx.check(pos(rd) == ends[n], 'in step', f'{what}: item {n}, a {name}, ends at {ends[n]}, read to {pos(rd)}')

    # all there: a bundle in one datagram
    rd = Reader(data)
    prev = None
    for n in range(len(items)):
        take(rd, n, 'bundle')
        ctx.fault('bundle')
        ctx.state(items[n]['v']['__c'], prev, len(parts[n]))
        prev = items[n]['v']['__c']
    ctx.log('bundle', [x['v']['__c'] for x in items], len(data))
    # ... or in a file of Python's own
    rd = {'bytes': io.BytesIO, 'peek': lambda b: io.BufferedReader(io.BytesIO(b), plan['ahead']),
          'both': lambda b: io.BufferedRandom(io.BytesIO(b), plan['ahead'])}[plan['file']](data)
    for n in range(len(items)):
        take(rd, n, type(rd).__name__, lambda rd: rd.tell())
        ctx.fault('file-' + plan['file'])
    rd.close()
    # a connection: when item n is complete nothing after it has arrived yet,
    # and a reader that asks for it would wait for ever
    rd = Reader(data)
    for n in range(len(items)):
        rd.stop = ends[n]
        take(rd, n, 'connection')
        ctx.fault('not-yet-arrived')
        ctx.check(not rd.overread, 'waits', f'connection: item {n}, a {items[n]["v"]["__c"]}, asks for octets after its end')
    # ... which ends or fails in the middle: what was complete is intact, the
    # rest is an error, and a new connection resumes at the last good boundary
    for cut, fail in ((plan['cut'], None), (None, plan['fail'])):
        if cut is None and fail is None:
            continue
        rd = Reader(data[:cut] if cut is not None else data, fail)
        n, exc = 0, None
        while n < len(items):
            try:
                obj = blank(items[n]['v'])
                read(obj, items[n]['v'], rd)
            except (Exception, KeyboardInterrupt) as e:
                exc = e
                break
            if cut is not None and ends[n] > cut:
                if complete(items[n]['v'], data[(ends[n] - len(parts[n])):cut]):
                    break               # only alignment is missing
                ctx.check(False, 'cut accepted', f'item {n}, a {items[n]["v"]["__c"]}, cut at {cut} of {ends[n]} was accepted')
            equal(ctx, items[n]['v'], obj, 'before the cut', f'item {n}')
            n += 1
        if cut is not None:
            ctx.fault('cut')
            if cut < ends[-1]:
                ctx.fault('eof')
            ctx.check(n >= sum(e <= cut for e in ends), 'complete refused', lambda: f'item {n} was complete at {cut}: {exc!r}')
        elif rd.fired:
            ctx.fault(fail[1])
            ctx.check(exc is not None, 'failure hidden', f'item {n}')
        start = ends[n - 1] if n else 0
        rd = Reader(data)
        rd.pos = start
        for m in range(n, len(items)):
            take(rd, m, 'resumed')
            ctx.fault('resume')
        ctx.log('cut', cut, str(fail), n, type(exc).__name__)
