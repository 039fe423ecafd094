"""The reference peer: DIS records and PDUs as plain values, with its own codec.

Values are JSON-like: a record is {"__c": CLASS, attr: value, ...}, a list a
list, bytes are bytes.  The wire layout comes from schema.txt alone; nothing
here reads /repo.  (bridge.py turns values into objects of the code under test
and back.)
"""
import copy
import math
import os
import struct

HERE = os.path.dirname(os.path.abspath(__file__))
FMT = {'u8': 'B', 'i8': 'b', 'u16': 'H', 'i16': 'h', 'u32': 'I', 'i32': 'i',
       'u64': 'Q', 'i64': 'q', 'f32': 'f', 'f64': 'd'}
PACK = {k: struct.Struct('>' + v) for k, v in FMT.items()}
SIZE = {k: v.size for k, v in PACK.items()}


class Reject(Exception):
    """The reference decoder does not accept these octets."""


class Short(Reject):
    """... because there are too few of them."""


class Cls:
    __slots__ = ('name', 'kind', 'base', 'type', 'family', 'sv', 'own', 'fields',
                 'abstract', 'kinds')


def _load():
    out, cur = {}, None
    for line in open(os.path.join(HERE, 'schema.txt')):
        line = line.split(';')[0].rstrip()
        if not line:
            continue
        w = line.split()
        if not line.startswith(' '):
            cur = Cls()
            cur.kind, cur.name = w[0], w[1]
            kv = dict(x.split('=') for x in w[2:])
            cur.base = kv.get('base')
            cur.type = int(kv['type']) if 'type' in kv else None
            cur.family = int(kv['family']) if 'family' in kv else None
            cur.sv = int(kv['sv']) if 'sv' in kv else None
            cur.own, cur.kinds = [], {}
            out[cur.name] = cur
            continue
        if '|' in w[-1]:
            w[-1], *more = w[-1].split('|')
            cur.kinds[w[0]] = more
        if w[0] == '#':
            if w[2] == 'count':
                cur.own.append(('count', w[1], w[3], w[4], int(w[5]), int(w[6])))
            else:
                cur.own.append(('size', w[1], w[3], w[4]))
        elif w[0] == 'bits':
            parts = []
            for p in w[2:]:
                n, b = p.split(':')
                parts.append((n, int(b.rstrip('b')), b.endswith('b')))
            assert sum(p[1] for p in parts) == int(w[1]), line
            cur.own.append(('bits', int(w[1]), parts))
        elif w[0] == 'pad':
            cur.own.append(('pad', w[1]))
        elif w[0] == 'align':
            cur.own.append(('align', int(w[1])))
        elif w[0] == 'special':
            cur.own.append(('special', w[1]))
        elif w[1] == 'array':
            cur.own.append(('array', w[0], int(w[2]), w[3]))
        elif w[1] == 'list':
            cur.own.append(('list', w[0], w[2]))
        elif w[1] == 'sv':
            cur.own.append(('sv', w[0], w[2]))
        elif w[1] in FMT:
            const = int(w[2][1:]) if len(w) > 2 else None
            cur.own.append(('prim', w[0], w[1], const))
        else:
            cur.own.append(('rec', w[0], w[1]))
    subclassed = {c.base for c in out.values()}
    for c in out.values():
        fields, b, fam = list(c.own), c.base, c.family
        while b and b in out:
            fields = out[b].own + fields
            c.kinds = {**out[b].kinds, **c.kinds}
            fam = fam if fam is not None else out[b].family
            b = out[b].base
        c.family = fam
        c.abstract = c.name in subclassed or c.name in (
            'PduSuperclass', 'Pdu', 'LiveEntityPdu') or (
            c.kind == 'record' and c.name.endswith('FamilyPdu'))
        if c.type is not None:
            fields = [('prim', f[1], f[2], {'pduType': c.type,
                                            'protocolFamily': c.family}.get(f[1], f[3]))
                      if f[0] == 'prim' else f for f in fields]
        c.fields = fields
        for f in fields:
            if f[0] in ('rec', 'list') and f[-1] not in FMT:
                assert f[-1] in out, (c.name, f)
    return out


SCHEMA = _load()
# fields that may hold records of several classes of one length
KINDS = {c.name: c.kinds for c in SCHEMA.values() if c.kinds}


def _holders():
    out = set(KINDS)
    while True:
        more = {c.name for c in SCHEMA.values() if c.name not in out and any(
            f[0] in ('rec', 'list') and (f[2] in out or any(k in out for k in c.kinds.get(f[1], ())))
            for f in c.fields)}
        if not more:
            return out
        out |= more


HOLDERS = _holders()
SV_TYPES = {c.sv: c for c in SCHEMA.values() if c.sv is not None}
# PDU classes a peer can send over the network, and the type octet each has
PDUS = sorted((c.name for c in SCHEMA.values() if c.type is not None), key=lambda n: SCHEMA[n].type)
FACTORY = {SCHEMA[n].type: n for n in PDUS if n != 'FastEntityStatePdu'}
DISPATCHED = [FACTORY[t] for t in sorted(FACTORY)]
MP_BY_SYSTEM = {2: 'BasicHaveQuickMP', 3: 'BasicHaveQuickMP', 4: 'BasicHaveQuickMP',
                6: 'CCTTSincgarsMP'}
MP_SIZE = {'BasicHaveQuickMP': 16, 'CCTTSincgarsMP': 16}
# Record classes that can be sent on their own (they need no outside length)
RECORDS = sorted(c.name for c in SCHEMA.values()
                 if c.kind == 'record' and not c.abstract and c.sv is None)


# ---------------------------------------------------------------- encoding
def encode(v):
    out = bytearray()
    _enc(v, out)
    return bytes(out)


def _enc(v, out):
    c = SCHEMA[v['__c']]
    start = len(out)
    if c.sv is not None:
        out += struct.pack('>IH', c.sv, 0)
    for f in c.fields:
        k = f[0]
        if k == 'prim':
            out += PACK[f[2]].pack(v[f[1]])
        elif k == 'rec':
            _enc(v[f[1]], out)
        elif k == 'count':
            out += PACK[f[1]].pack(len(v[f[2]]) * f[4] + f[5])
        elif k == 'list':
            if f[2] in PACK:
                p = PACK[f[2]]
                for x in v[f[1]]:
                    out += p.pack(x)
            else:
                for x in v[f[1]]:
                    _enc(x, out)
        elif k == 'array':
            p = PACK[f[3]]
            for x in v[f[1]]:
                out += p.pack(x)
        elif k == 'pad':
            out += bytes(SIZE[f[1]])
        elif k == 'bits':
            n = 0
            for name, w, _ in f[2]:
                n = (n << w) | (0 if name == '-' else int(v[name]))
            out += n.to_bytes(f[1] // 8, 'big')
        elif k == 'sv':
            for x in v[f[1]]:
                _enc_sv(x, out)
        elif k == 'align':
            out += bytes(-(len(out) - start) % f[1])
        elif k == 'size':
            out += PACK[f[1]].pack(blob_size(v[f[2]]))
        elif k == 'special':
            if f[1] == 'variableDatum':
                bits = v['variableDatumLength']
                out += struct.pack('>I', bits)
                n = (bits + 7) // 8
                out += bytes(v['variableData'][:n])
                out += bytes(-n % 8)
            else:
                x = v[f[1]]
                if x is not None:
                    if 'data' in x:
                        out += x['data']
                    elif x['__c'] in SCHEMA:
                        _enc(x, out)
        else:
            raise AssertionError(f)
    if c.sv is not None:
        struct.pack_into('>H', out, start + 4, len(out) - start)


def _enc_sv(x, out):
    if x['__c'] == 'UnknownSV':
        out += struct.pack('>IH', x['recordType'], 6 + len(x['data'])) + x['data']
    else:
        _enc(x, out)


def blob_size(x):
    if x is None or x['__c'] in ('GenericRadio', 'SimpleIntercomRadio'):
        return 0
    if 'data' in x:
        return len(x['data'])
    return len(encode(x))


# ---------------------------------------------------------------- decoding
class _In:
    __slots__ = ('b', 'p')

    def __init__(self, b):
        self.b, self.p = b, 0

    def take(self, n):
        p = self.p + n
        if p > len(self.b):
            raise Short()
        r = self.b[self.p:p]
        self.p = p
        return r

    def prim(self, t):
        return PACK[t].unpack(self.take(SIZE[t]))[0]


def decode(name, data):
    """-> (value, octets consumed); raises Reject"""
    i = _In(data)
    v = _dec(name, i)
    return v, i.p


def decode_pdu(data):
    """What a receiver makes of a datagram: (value, consumed), or None when the
    type is one nobody knows; raises Reject."""
    if len(data) < 3:
        raise Short()
    name = FACTORY.get(data[2])
    return None if name is None else decode(name, data)


def _dec(name, i):
    c = SCHEMA[name]
    v = {'__c': name}
    counts = {}
    for f in c.fields:
        k = f[0]
        if k == 'prim':
            v[f[1]] = i.prim(f[2])
        elif k == 'rec':
            v[f[1]] = _dec(f[2], i)
        elif k == 'count':
            counts[f[2]] = max(0, (i.prim(f[1]) - f[5]) // f[4])
        elif k == 'size':
            counts[f[2]] = i.prim(f[1])
        elif k == 'list':
            n = counts[f[1]]
            if n > len(i.b):
                raise Short()
            if f[2] in PACK:
                v[f[1]] = [i.prim(f[2]) for _ in range(n)]
            else:
                v[f[1]] = [_dec(f[2], i) for _ in range(n)]
        elif k == 'array':
            v[f[1]] = [i.prim(f[3]) for _ in range(f[2])]
        elif k == 'pad':
            if name == 'UaPdu' and f[1] == 'u8':
                if i.prim(f[1]):
                    raise Reject('UaPdu record lists')
            else:
                i.take(SIZE[f[1]])
        elif k == 'bits':
            n = int.from_bytes(i.take(f[1] // 8), 'big')
            w = f[1]
            for nm, wd, isbool in f[2]:
                w -= wd
                x = (n >> w) & ((1 << wd) - 1)
                if nm != '-':
                    v[nm] = bool(x) if isbool else x
        elif k == 'sv':
            v[f[1]] = [_dec_sv(f[2], i) for _ in range(counts[f[1]])]
        elif k == 'align':
            pass
        elif k == 'special':
            if f[1] == 'variableDatum':
                bits = v['variableDatumLength'] = i.prim('u32')
                n = (bits + 7) // 8
                v['variableData'] = list(i.take(n))
                i.take(-n % 8)
            elif f[1] == 'modulationParameters':
                n = counts[f[1]]
                mp = MP_BY_SYSTEM.get(v['modulationType']['radioSystem'])
                if n == 0:
                    v[f[1]] = None
                elif mp and MP_SIZE[mp] == n:
                    v[f[1]] = _dec(mp, i)
                else:
                    v[f[1]] = {'__c': 'UnknownRadio', 'data': i.take(n)}
            elif f[1] == 'antennaPattern':
                n = counts[f[1]]
                if n == 0:
                    v[f[1]] = None
                elif n == 40 and v['antennaPatternType'] == 1:
                    v[f[1]] = _dec('BeamAntennaPattern', i)
                else:
                    v[f[1]] = {'__c': 'UnknownAntennaPattern', 'data': i.take(n)}
    return v


def is_base(c, base):
    return c.base == base or base == 'StandardVariableRecord'


def _dec_sv(base, i):
    rt, n = struct.unpack('>IH', i.take(6))
    c = SV_TYPES.get(rt)
    if c is not None and not is_base(c, base):
        raise Reject('record type not allowed here')
    body = _In(i.take(max(n - 6, 0)))
    if n < 8 or n % 8:
        raise Reject('record length')
    if c is None:
        return {'__c': 'UnknownSV', 'recordType': rt, 'data': body.b}
    v = _dec(c.name, body)
    body.take(-(body.p + 6) % 8 if any(f[0] == 'align' for f in c.fields) else 0)
    return v


# -------------------------------------------------------------- expectation
def delivered(v):
    """The value a receiver holds after v went over the wire intact."""
    v = plain(v)
    if v['__c'] == 'TransmitterPdu' and v['modulationParameters'] is not None \
            and v['modulationParameters']['__c'] in ('GenericRadio', 'SimpleIntercomRadio'):
        v = dict(v, modulationParameters=None)
    return v


def plain(v):
    """v with every record of the kind that a receiver takes it for"""
    name = v['__c']
    if name not in HOLDERS:
        return v
    out, c = v, SCHEMA[name]
    for f in c.fields:
        if f[0] == 'rec' or f[0] == 'list' and f[2] not in PACK:
            xs = v[f[1]] if f[0] == 'list' else [v[f[1]]]
            ys = [plain(x) if x['__c'] == f[2] else decode(f[2], encode(x))[0] for x in xs]
            if any(x is not y for x, y in zip(xs, ys)):
                out = dict(out, **{f[1]: ys if f[0] == 'list' else ys[0]})
    return out


def diff(a, b, path=''):
    """First difference between two values, or None."""
    if isinstance(a, dict) and isinstance(b, dict):
        if a.get('__c') != b.get('__c'):
            return f"{path or '.'}: {a.get('__c')} became {b.get('__c')}"
        for k in a:
            if k != '__c':
                if k not in b:
                    return f'{path}.{k}: missing'
                d = diff(a[k], b[k], f'{path}.{k}')
                if d:
                    return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f'{path}: {len(a)} elements became {len(b)}'
        for n, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f'{path}[{n}]')
            if d:
                return d
        return None
    if isinstance(a, float) and isinstance(b, (float, int)):
        if a == b and math.copysign(1, a) == math.copysign(1, b) or a != a and b != b:
            return None
        return f'{path}: {a!r} became {b!r}'
    if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
        if bytes(a) == bytes(b):
            return None
    elif type(a) is type(b) or isinstance(a, int) and isinstance(b, int):
        if a == b:
            return None
    s = f'{path}: {a!r} became {b!r}'
    return s if len(s) < 300 else s[:300] + '...'


# --------------------------------------------------------------- generation
def f32(x):
    try:
        return struct.unpack('>f', struct.pack('>f', x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


F32S = [0.0, -0.0, 1.0, -1.0, f32(0.1), 3.4028234663852886e38, -3.4028234663852886e38,
        1.401298464324817e-45, -1.1754943508222875e-38, math.inf, -math.inf, math.nan, -math.nan,
        f32(3.14159265), 16777216.0, -16777215.0]
F64S = [0.0, -0.0, 1.0, -1.0, 0.1, 1.7976931348623157e308, -1.7976931348623157e308, 5e-324,
        -2.2250738585072014e-308, math.inf, -math.inf, math.nan, -math.nan, 6378137.0, -6356752.3142,
        9007199254740993.0]


WORDS = None                            # words.Words of the code under test, if any


def word(rng, lo, hi, p=.04):
    """now and then a number that the code under test has something to do with, or None"""
    if WORDS and rng.random() < p:
        x = WORDS.number(rng)
        if x is not None and lo <= x <= hi:
            return x


def some(rng, lo, hi, xs, p=.04):
    """the numbers, one of them replaced by such a number now and then"""
    x = word(rng, lo, hi, p)
    if x is not None:
        xs = list(xs)
        xs[rng.randrange(len(xs))] = x
    return xs


def gen_int(rng, bits, signed):
    if WORDS and WORDS.wanted(rng):
        n = WORDS.integer(rng, bits)
        if n is not None:
            n &= (1 << bits) - 1
            return n - (1 << bits) if signed and n >> (bits - 1) else n
    r = rng.random()
    if r < .30:
        n = rng.getrandbits(bits)
    elif r < .42:
        n = 0
    elif r < .50:
        n = (1 << bits) - 1
    elif r < .60:
        n = (1 << (bits - 1)) + rng.choice((-1, 0, 0, 1))
    elif r < .72:
        n = (1 << rng.randrange(bits)) + rng.choice((-1, 0, 1))
    elif r < .86:
        n = rng.randrange(min(1 << bits, 12))
    else:
        n = (1 << bits) - 1 - rng.randrange(min(1 << bits, 12))
    n &= (1 << bits) - 1
    if signed and n >> (bits - 1):
        n -= 1 << bits
    return n


def gen_prim(rng, t):
    if t[0] == 'f' and WORDS and WORDS.wanted(rng):
        x = WORDS.number(rng)
        if x is not None:
            return x if t == 'f64' else f32(x)
    if t == 'f32':
        r = rng.random()
        if r < .3:
            return rng.choice(F32S)
        if r < .65:
            return f32(rng.uniform(-1000, 1000))
        return f32(math.ldexp(rng.uniform(-1, 1), rng.randrange(-140, 128)))
    if t == 'f64':
        r = rng.random()
        if r < .3:
            return rng.choice(F64S)
        if r < .65:
            return rng.uniform(-7e6, 7e6)
        return math.ldexp(rng.uniform(-1, 1), rng.randrange(-1060, 1023))
    return gen_int(rng, SIZE[t] * 8, t[0] == 'i')


COUNT_MAX = {'u8': 255, 'u16': 65535, 'u32': 1 << 20}


def gen_len(rng, f, size, small=False):
    """how many elements; size is 0 (none or few) .. 3 (may be at the limit)"""
    cap = (COUNT_MAX[f[1]] - f[5]) // f[4]
    n = WORDS.length(rng) if WORDS and size >= 1 else None
    if n is not None and n <= ((2000 if small else 100) if size < 3 else 9000 if small else 1000):
        return min(cap, n)
    r = rng.random()
    if size <= 0:
        return min(cap, rng.choice((0, 0, 1)))
    if size >= 2 and r < .06 * size:
        return min(cap, rng.choice((16, 31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 130, 191, 254,
                                    255, 256, 257) if size >= 3 else (8, 9, 15, 16, 17, 31, 33, 64)))
    return min(cap, rng.choice((0, 0, 1, 1, 1, 2, 2, 3, 4, 7)))


def kind(c, f, rng, p):
    """the class of a record for a field, now and then another than usual"""
    return rng.choice(c.kinds[f[1]]) if f[1] in c.kinds and rng.random() < p else f[2]


def gen(name, rng, size=1):
    if WORDS:
        WORDS.turn(rng)
    c = SCHEMA[name]
    v = {'__c': name}
    lens = {}
    for f in c.fields:
        k = f[0]
        if k == 'prim':
            v[f[1]] = f[3] if f[3] is not None else gen_prim(rng, f[2])
        elif k == 'rec':
            v[f[1]] = gen(kind(c, f, rng, .12), rng, size - 1)
        elif k == 'count':
            lens[f[2]] = gen_len(rng, f, size, any(x[:2] == ('list', f[2]) and x[2] == 'u8' for x in c.fields))
        elif k == 'list':
            n = lens[f[1]]
            if f[2] in PACK:
                if f[2] == 'u8' and size >= 3 and rng.random() < .1:
                    cf = next(x for x in c.fields if x[0] == 'count' and x[2] == f[1])
                    n = min((COUNT_MAX[cf[1]] - cf[5]) // cf[4], rng.choice((1000, 4095, 4096, 8191)))
                v[f[1]] = [gen_prim(rng, f[2]) for _ in range(n)]
            else:
                inner = size - 1 if n < 10 else 0
                v[f[1]] = alike(rng, [gen(kind(c, f, rng, .3), rng, inner) for _ in range(n)])
        elif k == 'array':
            if rng.random() < .4:
                n = rng.randrange(f[2] + 1)
                v[f[1]] = [rng.randrange(32, 127) for _ in range(n)] + [0] * (f[2] - n)
                if n and rng.random() < .2:
                    v[f[1]][rng.randrange(n)] = 0
            else:
                v[f[1]] = [gen_prim(rng, f[3]) for _ in range(f[2])]
        elif k == 'bits':
            for nm, w, isbool in f[2]:
                if nm != '-':
                    x = gen_int(rng, w, False)
                    v[nm] = bool(x) if isbool else x
        elif k == 'sv':
            n = lens[f[1]]
            v[f[1]] = alike(rng, [gen_sv(f[2], rng, size - 1 if n < 10 else 0) for _ in range(n)])
        elif k == 'special':
            if f[1] == 'variableDatum':
                n = rng.choice((0, 1, 7, 8, 9, 15, 16, 31, 32, 33, 56, 57, 63, 64, 65, 96, 120, 128,
                                rng.randrange(300)))
                if size >= 3 and rng.random() < .1:
                    n = rng.choice((1024, 2047, 2048, 2056, 8192, 65528, 65536))
                x = WORDS.length(rng) if WORDS else None
                if x is not None:
                    n = x * (rng.choice((1, 8)) if x < 300 or size >= 3 else 1)
                v['variableDatumLength'] = n
                v['variableData'] = [rng.getrandbits(8) for _ in range((n + 7) // 8)]
            elif f[1] == 'modulationParameters':
                r = rng.random()
                mt = v['modulationType']
                if r < .2:
                    v[f[1]] = None
                elif r < .3:
                    mt['radioSystem'] = 1
                    v[f[1]] = {'__c': 'SimpleIntercomRadio' if mt['majorModulation'] == 0 else 'GenericRadio'}
                elif r < .5:
                    mt['radioSystem'] = rng.choice((2, 3, 4))
                    v[f[1]] = gen('BasicHaveQuickMP', rng, 0)
                elif r < .65:
                    mt['radioSystem'] = 6
                    v[f[1]] = gen('CCTTSincgarsMP', rng, 0)
                else:
                    known = mt['radioSystem'] in MP_BY_SYSTEM
                    n = rng.choice((1, 2, 7, 8, 15, 17, 24, 127, 128, 248, 255, rng.randrange(1, 256)))
                    if not known and rng.random() < .3:
                        n = 16
                    if known and n == 16:
                        n = 24
                    v[f[1]] = {'__c': 'UnknownRadio', 'data': rng.randbytes(n)}
            elif f[1] == 'antennaPattern':
                r = rng.random()
                if r < .25:
                    v[f[1]] = None
                elif r < .65:
                    v['antennaPatternType'] = 1
                    v[f[1]] = gen('BeamAntennaPattern', rng, 0)
                else:
                    n = rng.choice((1, 8, 16, 24, 39, 41, 48, 128, 255, 256, rng.randrange(1, 400)))
                    if v['antennaPatternType'] != 1 and rng.random() < .3:
                        n = 40
                    if v['antennaPatternType'] == 1 and n == 40:
                        n = 48
                    v[f[1]] = {'__c': 'UnknownAntennaPattern', 'data': rng.randbytes(n)}
    if c.type is not None and rng.random() < .15:
        v = related(v, rng)
    return v


def inner(v, path=()):
    """(path, record) of the records that are fields of v, and of those"""
    for f in SCHEMA[v['__c']].fields:
        if f[0] == 'rec':
            yield path + (f[1],), v[f[1]]
            yield from inner(v[f[1]], path + (f[1],))


def related(v, rng):
    """v with fields that have to do with each other: equal, or extreme together"""
    recs = [x for x in inner(v) if x[1]['__c'] in SCHEMA]
    w = v
    for _ in range(rng.choice((1, 1, 2))):
        r = rng.random()
        pairs = [(p, y) for p, x in recs for q, y in recs if p != q and x['__c'] == y['__c'] and p[:len(q)] != q
                 and q[:len(p)] != p]
        if r < .5 and pairs:
            p, y = rng.choice(pairs)
            w = edited(w, p, copy.deepcopy(y))
        elif r < .85 and recs:
            p, x = rng.choice(recs)
            top = rng.random() < .6
            for q, t in leaves(x):
                n = 1 if t is bool else t if isinstance(t, int) else SIZE[t] * 8
                x = edited(x, q, bool(top) if t is bool else rng.choice((0.0, -0.0)) if t in ('f32', 'f64') else
                           (((1 << n - 1) - 1 if str(t)[0] == 'i' else (1 << n) - 1) if top else 0))
            w = edited(w, p, x)
        else:
            ls = list(leaves(w))
            same = [(p, q) for p, t in ls[:40] for q, u in ls[:40] if t == u and p < q and len(p) == len(q)]
            if same:
                p, q = rng.choice(same)
                w = edited(w, q, at(w, p))
    try:
        b = encode(w)
        got, n = decode(w['__c'], b)
        if n == len(b) and diff(delivered(w), got) is None:
            return w
    except (Reject, KeyError, struct.error):
        pass
    return v


def alike(rng, xs):
    """elements of one list may be equal, or differ in one field only"""
    if len(xs) > 1 and rng.random() < .3:
        for n in range(1, len(xs)):
            if rng.random() < .5:
                x = copy.deepcopy(xs[rng.randrange(n)])
                if rng.random() < .3 and 'data' not in x:
                    e = gen_edit(x, rng) if SCHEMA[x['__c']].sv is None else None
                    x = edited(x, e[0], e[1]) if e else x
                xs[n] = x
    return xs


def gen_sv(base, rng, size=0):
    known = [c.name for c in SV_TYPES.values() if is_base(c, base)]
    if rng.random() < .65:
        return gen(rng.choice(known), rng, size)
    while True:
        rt = gen_int(rng, 32, False)
        if rng.random() < .3:
            rt = rng.choice(sorted(SV_TYPES)) + rng.choice((-1, 1, 256, 65536))
        if rt not in SV_TYPES:
            break
    n = rng.choice((2, 2, 10, 18, 26, 34, 90, 122, 130, 250, 258)) if size < 2 \
        else rng.choice((2, 10, 34, 250, 258, 1018, 32762, 65522))
    return {'__c': 'UnknownSV', 'recordType': rt, 'data': rng.randbytes(n)}


# -------------------------------------------------------------- fields walk
def walk(v, path=()):
    """every (path, kind, value) leaf of a value"""
    if isinstance(v, dict):
        for k, x in v.items():
            if k != '__c':
                yield from walk(x, path + (k,))
    elif isinstance(v, list):
        yield path, 'list', v
        for n, x in enumerate(v):
            yield from walk(x, path + (n,))
    else:
        yield path, 'leaf', v


# ------------------------------------------------------- edits of one field
def leaves(v, path=()):
    """(path, type) of every field of v that can be changed on its own"""
    c = SCHEMA.get(v['__c'])
    if c is None:
        return
    for f in c.fields:
        k = f[0]
        if k == 'prim' and f[3] is None:
            yield path + (f[1],), f[2]
        elif k == 'rec':
            yield from leaves(v[f[1]], path + (f[1],))
        elif k == 'list' and f[2] in PACK:
            for n in range(len(v[f[1]])):
                yield path + (f[1], n), f[2]
        elif k in ('list', 'sv'):
            for n, x in enumerate(v[f[1]]):
                yield from leaves(x, path + (f[1], n))
        elif k == 'array':
            for n in range(f[2]):
                yield path + (f[1], n), f[3]
        elif k == 'bits':
            for nm, w, isbool in f[2]:
                if nm != '-':
                    yield path + (nm,), bool if isbool else w
        elif k == 'special' and f[1] == 'variableDatum':
            for n in range(len(v['variableData'])):
                yield path + ('variableData', n), 'u8'
        elif k == 'special' and v[f[1]] is not None:
            yield from leaves(v[f[1]], path + (f[1],))


def sequences(v, path=()):
    """(path, length) of every list in v whose order is free"""
    for f in SCHEMA[v['__c']].fields:
        k = f[0]
        if k == 'rec':
            yield from sequences(v[f[1]], path + (f[1],))
        elif k in ('list', 'sv', 'array'):
            yield path + (f[1],), len(v[f[1]])
            if k == 'list' and f[2] not in PACK or k == 'sv':
                for n, x in enumerate(v[f[1]]):
                    if 'data' not in x:
                        yield from sequences(x, path + (f[1], n))
        elif k == 'special' and f[1] == 'variableDatum':
            yield path + ('variableData',), len(v['variableData']) - 1      # the last octet may be partly used


def at(v, path):
    for k in path:
        v = v[k]
    return v


def at_obj(obj, path):
    for k in path:
        obj = obj[k] if isinstance(k, int) else getattr(obj, k)
    return obj


def permuted(xs, n, rng):
    """xs with its first n elements in another order"""
    out = list(xs)
    k = rng.randrange(3)
    if k == 0:
        out[:n] = out[:n][::-1]
    elif k == 1:
        a, b = rng.sample(range(n), 2)
        out[a], out[b] = out[b], out[a]
    else:
        out[:n] = out[1:n] + out[:1]
    return out


def edited(v, path, x):
    """v with the field at path being x"""
    if not path:
        return x
    if isinstance(v, dict):
        return dict(v, **{path[0]: edited(v[path[0]], path[1:], x)})
    return v[:path[0]] + [edited(v[path[0]], path[1:], x)] + v[path[0] + 1:]


def gen_edit(v, rng):
    """[path, new value] of a change to one field that does not decide how others
    are read; None where there is none"""
    ls = list(leaves(v))
    deep = [x for x in ls if any(isinstance(k, int) for k in x[0][:-1])]
    if deep and rng.random() < .4:      # in a record of a list
        ls = deep
    for _ in range(4):
        if not ls:
            break
        path, t = rng.choice(ls)
        x = rng.random() < .5 if t is bool else gen_int(rng, t, False) if isinstance(t, int) else gen_prim(rng, t)
        w = edited(v, path, x)
        try:
            got, n = decode(v['__c'], encode(w))
        except Reject:
            continue
        if n == len(encode(v)) and diff(delivered(w), got) is None:
            return [list(path), x]
    return None


# ------------------------------------------------------------------ shrinking
def simplify(v):
    """(field, simpler content) for the fields of one record, schema kept"""
    c = SCHEMA[v['__c']]
    for f in c.fields:
        k = f[0]
        if k == 'prim' and f[3] is None and f[1] not in ('radioSystem', 'antennaPatternType'):
            z = 0.0 if f[2][0] == 'f' else 0
            if v[f[1]] != z:
                yield f[1], z
        elif k in ('list', 'sv'):
            x = v[f[1]]
            if x:
                yield f[1], []
                if len(x) > 2:
                    yield f[1], x[:len(x) // 2]
                if len(x) > 1:
                    yield f[1], x[:-1]
        elif k == 'array':
            if any(v[f[1]]):
                yield f[1], [0] * f[2]
        elif k == 'bits':
            for nm, _, isbool in f[2]:
                if nm != '-' and v[nm]:
                    yield nm, False if isbool else 0
        elif k == 'special' and f[1] in ('modulationParameters', 'antennaPattern') and v[f[1]] is not None:
            yield f[1], None


# ------------------------------------------------------------- JSON carrier
def to_json(x):
    if isinstance(x, (bytes, bytearray)):
        return {'__b': bytes(x).hex()}
    if isinstance(x, dict):
        return {k: to_json(y) for k, y in x.items()}
    if isinstance(x, (list, tuple)):
        return [to_json(y) for y in x]
    if isinstance(x, float) and x != x and math.copysign(1, x) < 0:
        return {'__n': 1}
    return x


def from_json(x):
    if isinstance(x, dict):
        if '__n' in x:
            return -math.nan
        if '__b' in x:
            return bytes.fromhex(x['__b'])
        return {k: from_json(y) for k, y in x.items()}
    if isinstance(x, list):
        return [from_json(y) for y in x]
    return x
