"""The stream primitives: what is written is read back, or an error says it is not."""
import math
import struct

from .. import model
from ..streams import ERRORS, Reader, Writer
from ..world import R

ID = 'C18'
RUNS = dict(quick=40000, thorough=1200000)
MUST_FIRE = tuple(ERRORS) + ('eof', 'short', 'out-of-range', 'cut')
RULE = ('A run is a conversation of typed values over one stream that fails at a chosen octet or read call, closes '
        'early, or is asked for values its type cannot carry; the oracle is the big-endian encoding and the list of '
        'values written.')
STATES = 'distinct (type, type before, fault)'
REAL = ['opendis.stream']
STUB = ['disk, socket and pipe streams']

# method suffix: struct code
INTS = {'byte': 'b', 'unsigned_byte': 'B', 'short': 'h', 'unsigned_short': 'H', 'int': 'i', 'unsigned_int': 'I',
        'long': 'q', 'int8': 'b', 'int16': 'h', 'int32': 'i', 'int64': 'q', 'uint8': 'B', 'uint16': 'H',
        'uint32': 'I', 'uint64': 'Q'}
FLOATS = {'float': 'f', 'double': 'd', 'float32': 'f', 'float64': 'd'}
KINDS = sorted(INTS) + sorted(FLOATS) + ['boolean', 'char', 'char8', 'utf', 'bytes']


def gen_value(rng, k):
    if k in INTS:
        c = INTS[k]
        return model.gen_int(rng, struct.calcsize('>' + c) * 8, c.islower())
    if k in FLOATS:
        return model.gen_prim(rng, 'f32' if FLOATS[k] == 'f' else 'f64')
    if k == 'boolean':
        return rng.random() < .5
    if k == 'char':
        return rng.choice((rng.randrange(128), rng.randrange(0x10000), 0xffff, 0xd800, 0))
    if k == 'char8':
        return rng.choice((rng.randrange(128), rng.randrange(256), 128, 255))
    n = rng.choice((0, 1, 2, 7, 100, 255, 256, 1000))
    if k == 'utf' and rng.random() < .02:
        n = rng.choice((32767, 32768, 65535))
    text = model.WORDS and rng.random() < .1 and model.WORDS.text(rng)
    return text or rng.randbytes(n)


def beyond(rng, k):
    """a value the type cannot carry"""
    if k in INTS:
        c = INTS[k]
        w = struct.calcsize('>' + c) * 8
        lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if c.islower() else (0, (1 << w) - 1)
        n = model.WORDS and rng.random() < .2 and model.WORDS.integer(rng, 64)
        if n and not lo <= n <= hi:
            return n
        return rng.choice((lo - 1, hi + 1, hi + 1 + rng.randrange(1 << 40), lo - 1 - rng.randrange(1 << 40), 1 << 80))
    if k in FLOATS and FLOATS[k] == 'f':
        return rng.choice((1e39, -1e300))
    if k == 'char':
        return rng.choice((0x10000, 0x10ffff))
    if k == 'char8':
        return rng.choice((256, 0xffff))
    if k == 'utf' and rng.random() < .2:
        return bytes(65536 + rng.choice((0, 1, rng.randrange(70000))))
    return None


def gen(rng, i):
    ops, prev = [], None
    focus = rng.sample(KINDS, 3) if rng.random() < .4 else KINDS
    for _ in range(rng.choice((2, 5, 12, 30))):
        k = rng.choice(focus)
        if rng.random() < .12:
            v = beyond(rng, k)
            if v is not None:
                ops.append(dict(k=k, bad=True, x=v))
                continue
        ops.append(dict(k=k, bad=False, x=gen_value(rng, k)))
    total = sum(len(octets(o['k'], o['x'])) for o in ops if not o['bad'])
    faults = []
    for _ in range(rng.choice((0, 1, 2, 3))):
        f = rng.choice(('write', 'read', 'close', 'cut'))
        faults.append([f, rng.choice(sorted(ERRORS)) if f in ('write', 'read') else rng.choice(('eof', 'short')),
                       rng.randrange(max(1, total)) if f in ('write', 'cut') else rng.randrange(len(ops) + 4)])
    return dict(ops=ops, faults=faults)


SHRINK = ('ops', 'faults')


def octets(k, x):
    if k in INTS:
        return struct.pack('>' + INTS[k], x)
    if k in FLOATS:
        return struct.pack('>' + FLOATS[k], x)
    if k == 'boolean':
        return b'\1' if x else b'\0'
    if k == 'char':
        return struct.pack('>H', x)
    if k == 'char8':
        return bytes([x])
    if k == 'utf':
        return struct.pack('>H', len(x)) + x
    return x


def write(out, op):
    x = op['x']
    getattr(out, 'write_' + op['k'])(chr(x) if op['k'] in ('char', 'char8') else x)


def read(inp, op):
    if op['k'] == 'bytes':
        return inp.read_bytes(len(op['x']))
    return getattr(inp, 'read_' + op['k'])()


def equal(op, got):
    x = op['x']
    if op['k'] in ('char', 'char8'):
        return isinstance(got, str) and got == chr(x)
    if op['k'] in FLOATS:
        return isinstance(got, float) and (got == x and math.copysign(1, got) == math.copysign(1, x) or got != got and x != x)
    if op['k'] == 'boolean':
        return got is x
    if op['k'] in INTS:
        return isinstance(got, int) and got == x
    return bytes(got) == x


def comes_from(e, cause):
    return e is cause or e.__cause__ is cause or e.__context__ is cause


def send(ctx, ops, w, what):
    """-> values accepted; what is in w is their encoding"""
    out = R.stream.DataOutputStream(w)
    done, want = [], b''
    for n, op in enumerate(ops):
        before = w.getvalue()
        try:
            write(out, op)
            exc = None
        except (Exception, KeyboardInterrupt) as e:
            exc = e
        if w.fired:
            ctx.check(exc is not None, 'write error hidden', lambda: f'{what}: op {n} {op} succeeded')
            ctx.check(comes_from(exc, w.raised), 'write error disguised', lambda: f'{what}: op {n} {op}: {exc!r}')
            full = want + (octets(op['k'], op['x']) if not op['bad'] else b'')
            ctx.check(full.startswith(w.getvalue()), 'torn', lambda: f'{what}: op {n} {op} left {w.getvalue().hex()[-80:]}')
            return done, True
        if op['bad']:
            ctx.fault('out-of-range')
            ctx.check(exc is not None, 'out of range accepted',
                      lambda: f'{what}: write_{op["k"]}({op["x"]!r:.80}) wrote {w.getvalue()[len(before):].hex()[:80]}')
            ctx.check(w.getvalue() == before, 'out of range written',
                      lambda: f'{what}: refused write_{op["k"]}({op["x"]!r:.80}) wrote {w.getvalue()[len(before):].hex()[:80]}')
            continue
        ctx.check(exc is None, 'write failed', lambda: f'{what}: write_{op["k"]}({op["x"]!r:.80}): {exc!r}')
        enc = octets(op['k'], op['x'])
        want += enc
        ctx.check(w.getvalue() == want, 'written', lambda: f'{what}: write_{op["k"]}({op["x"]!r:.80}) wrote '
                  f'{w.getvalue()[len(before):].hex()[:80]} instead of {enc.hex()[:80]}')
        done.append(op)
    return done, False


def receive(ctx, ops, data, rd, what):
    inp = R.stream.DataInputStream(rd)
    at = 0
    for n, op in enumerate(ops):
        try:
            got, exc = read(inp, op), None
        except (Exception, KeyboardInterrupt) as e:
            got, exc = None, e
        end = at + len(octets(op['k'], op['x']))
        if rd.fired and rd.raised is not None:
            ctx.check(exc is not None, 'read error hidden', lambda: f'{what}: read_{op["k"]} gave {got!r:.80}')
            ctx.check(comes_from(exc, rd.raised), 'read error disguised', lambda: f'{what}: read_{op["k"]}: {exc!r}')
            return
        # octets that have really been handed out
        if rd.pos < end and (rd.ended or end > len(data)):
            ctx.check(exc is not None, 'short read accepted',
                      lambda: f'{what}: read_{op["k"]} gave {got!r:.80} from {rd.pos - at} of {end - at} octets')
            return
        ctx.check(exc is None, 'read failed', lambda: f'{what}: read_{op["k"]}: {exc!r}')
        ctx.check(equal(op, got), 'read', lambda: f'{what}: read_{op["k"]} gave {got!r:.80} instead of {op["x"]!r:.80}')
        at = end
        ctx.check(rd.pos == at, 'consumed', lambda: f'{what}: read_{op["k"]} left the stream at {rd.pos} instead of {at}')


def run(plan, ctx):
    ops = plan['ops']
    prev = None
    for op in ops:
        ctx.state(op['k'], prev, op['bad'])
        prev = op['k']
    w = Writer()
    good, _ = send(ctx, ops, w, 'no fault')
    data = w.getvalue()
    ctx.log('sent', len(good), data[:64].hex(), len(data))
    receive(ctx, good, data, Reader(data), 'no fault')
    for f, kind, at in plan['faults']:
        what = f'{f} {kind} at {at}'
        if f == 'write':
            w = Writer((at, kind))
            _, hit = send(ctx, ops, w, what)
            if hit:
                ctx.fault(kind)
        elif f == 'cut':
            ctx.fault('cut')
            receive(ctx, good, data[:at], Reader(data[:at]), what)
        else:
            rd = Reader(data, (at, kind))
            receive(ctx, good, data, rd, what)
            if rd.fired:
                ctx.fault(kind)
        ctx.log(what)
