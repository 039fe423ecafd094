"""A datagram, file or connection that ends too early never yields a PDU."""
import io

from .. import bridge, core, model
from ..streams import Reader
from ..world import R, create, gen_size, parse_into, pick_pdu, same

ID = 'C03'
RUNS = dict(quick=20000, thorough=600000)
MUST_FIRE = ('truncate', 'eof', 'short', 'mid-record')
RULE = ('A run cuts a few valid PDUs at chosen or at all octet offsets, delivers each stump as a datagram, a '
        'file-like stream, or a connection that closes (end of stream, or one octet short, at the k-th read); the '
        'oracle is the reference decoder, which knows where the fields end.')
STATES = 'distinct (PDU class, cut offset)'
REAL = ['opendis.dis7', 'opendis.record', 'opendis.stream', 'opendis.PduFactory']
STUB = ['network and connections (simulated streams)']
ASSUMES = ['alignment octets at the very end of a PDU are not information: a cut within them may pass']


def gen(rng, i):
    ops = []
    for k in range(rng.choice((1, 2, 3))):
        v = model.gen(pick_pdu(rng, i, k), rng, rng.choice((0, 1, 1, 2, gen_size(rng))))
        n = len(model.encode(v))
        if n <= 220 and rng.random() < .25:
            cuts = list(range(n))
        else:
            cuts = sorted({rng.choice((rng.randrange(n), n - 1 - min(n - 1, rng.randrange(12)), rng.randrange(min(n, 14))))
                           for _ in range(rng.choice((3, 8, 16)))})
        ops.append(dict(v=v, cuts=cuts, via=rng.choice(('datagram', 'stream', 'bytesio', 'into')),
                        closes=[[rng.randrange(0, 60), rng.choice(('eof', 'short'))] for _ in range(3)]))
    return dict(ops=ops)


SHRINK_IN_OP = ('cuts', 'closes')


def attempt(v, via, data):
    """-> (object or None, exception or None)"""
    name = v['__c']
    try:
        if via == 'into' or name == 'FastEntityStatePdu':
            return parse_into(bridge.blank(name), data), None
        if via == 'datagram':
            return create(data), None
        raw = Reader(data) if via == 'stream' else io.BytesIO(data)
        return R.factory.getPdu(R.stream.DataInputStream(raw)), None
    except Exception as e:
        return None, e


def run(plan, ctx):
    for n, op in enumerate(plan['ops']):
        v = op['v']
        data, name = model.encode(v), v['__c']
        for c in op['cuts']:
            if c >= len(data):
                continue
            ctx.fault('truncate')
            if c > 12:
                ctx.fault('mid-record')
            ctx.state(name, c)
            obj, e = attempt(v, op['via'], data[:c])
            try:
                want = model.decode(name, data[:c])[0]
            except model.Reject:
                want = None
            ctx.log('cut', name, c, op['via'], type(e).__name__, want is None)
            if want is None:
                ctx.check(obj is None, 'truncated accepted',
                          lambda: f'op {n}: the first {c} of {len(data)} octets of a {name} gave a {type(obj).__name__}')
            else:
                ctx.check(e is None, 'complete refused', lambda: f'op {n}: {name} without its alignment: {e!r}')
                same(ctx, want, obj, 'complete', f'op {n}')
        for k, kind in op['closes']:
            rd = Reader(data, (k, kind))
            obj = bridge.blank(name)
            try:
                parse_into(obj, None, rd)
                e = None
            except Exception as x:
                e = x
            if not rd.fired:
                continue
            ctx.fault(kind)
            ctx.log('close', name, k, kind, rd.pos, type(e).__name__)
            if rd.pos < len(data):
                try:
                    model.decode(name, data[:rd.pos])
                    continue            # only alignment is missing
                except model.Reject:
                    pass
                ctx.check(e is not None, 'closed accepted',
                          lambda: f'op {n}: {name} parsed from a stream that ended after {rd.pos} of {len(data)} octets')
