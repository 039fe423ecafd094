"""A value that does not fit its field is refused; it is never sent as another one."""
import enum
import math

import numpy as np

from .. import bridge, model
from ..streams import Writer
from ..world import MODES, R, create, gen_size, pick_pdu, receive, same, serialize

ID = 'C22'
RUNS = dict(quick=30000, thorough=900000)
MUST_FIRE = ('too-large', 'negative', 'wraps', 'fraction', 'not-a-number', 'float-overflow', 'fits', 'numpy', 'enum',
             'repaired', 'bit-field')
RULE = ('A run is the history of a node whose application makes mistakes: it assigns values that do not fit to fields, '
        'list elements and bit fields of PDUs it keeps sending, and corrects them again; every send either gives the '
        'octets of exactly the values assigned or raises, and one that carries a value that does not fit raises.')
STATES = 'distinct (class, field type, kind of mistake)'
REAL = ['opendis.dis7', 'opendis.record', 'opendis.stream', 'opendis.PduFactory']
STUB = ['the application and its mistakes']
ASSUMES = ['values of 64-bit float fields always fit; those of 32-bit float fields fit when they do not overflow',
           'a beam status is documented to use the lowest bit of what it is given']


class Kind(enum.IntEnum):
    A = 0
    B = 1
    C = 3


def bits_of(t):
    return t if isinstance(t, int) else model.SIZE[t] * 8


def gen_bad(rng, t):
    """[kind, value, does it fit]"""
    if t == 'f32':
        k = rng.choice(('float-overflow', 'fits', 'numpy'))
        if k == 'float-overflow':
            return [k, rng.choice((1e39, -1e39, 1.7976931348623157e308, 3.5e38, 10 ** 60)), False]
        return [k, model.gen_prim(rng, t), True]
    if t == 'f64':
        return [rng.choice(('fits', 'numpy')), model.gen_prim(rng, t), True]
    if t is bool:
        k = rng.choice(('too-large', 'too-large', 'negative', 'wraps', 'fits', 'not-a-number'))
        if k == 'fits':
            return [k, rng.random() < .5, True]
        return [k, {'too-large': rng.choice((2, 3, 255, 1 << 40)), 'negative': -rng.choice((1, 2, 256)),
                    'wraps': rng.choice((256, 257, 65536)), 'not-a-number': rng.choice((None, 'x', []))}[k], False]
    b = bits_of(t)
    signed = isinstance(t, str) and t[0] == 'i'
    lo, hi = (-(1 << b - 1), (1 << b - 1) - 1) if signed else (0, (1 << b) - 1)
    k = rng.choice(('too-large', 'too-large', 'negative', 'negative', 'wraps', 'fraction', 'not-a-number', 'fits', 'numpy', 'enum'))
    n = model.WORDS and k in ('too-large', 'negative') and rng.random() < .2 and model.WORDS.integer(rng, 64)
    if n and not lo <= n <= hi:
        return ['too-large' if n > hi else 'negative', n, False]
    if k == 'too-large':
        return [k, rng.choice((hi + 1, hi + 2, (hi + 1) * 2, hi + 1 + rng.randrange(1 << b), 1 << 80)), False]
    if k == 'negative':
        return [k, lo - rng.choice((1, 1, 2, 5, 1 << b, 1 << 70)), False]
    if k == 'wraps':                    # keeps its low bits when it is cut
        return [k, (hi + 1) * (2 if signed else 1) + rng.randrange(hi + 1), False]
    if k == 'fraction':
        return [k, rng.choice((.5, 1.5, float(hi) / 2 + .25 if b < 40 else .75)), False]
    if k == 'not-a-number':
        return [k, rng.choice((math.nan, math.inf, 'x', None, [])), False]
    if k == 'enum':
        return [k, rng.choice((0, 1)), True]
    return [k, model.gen_int(rng, b, signed), True]


def gen(rng, i):
    v = model.gen(pick_pdu(rng, i, 0), rng, gen_size(rng))
    if rng.random() < .35:
        v = model.gen(rng.choice(model.RECORDS), rng, gen_size(rng))
    elif rng.random() < .2:
        v = model.gen(rng.choice(('TransmitterPdu', 'DirectedEnergyFirePdu', 'EntityDamageStatusPdu')), rng, 2)
    ls = [(p, t) for p, t in model.leaves(v) if p[-1] != 'beamState']
    narrow = [(p, t) for p, t in ls if isinstance(t, int) or t is bool]
    ops = []
    for _ in range(rng.choice((1, 2, 4, 8))):
        if not ls:
            break
        p, t = rng.choice(narrow if narrow and rng.random() < .4 else ls)
        ops.append([list(p), 'bool' if t is bool else t] + gen_bad(rng, t) + [rng.random() < .5])
    return dict(v=v, mode=rng.choice(MODES), ops=ops)


def run(plan, ctx):
    v, name = plan['v'], plan['v']['__c']
    obj = bridge.build(v, plan['mode'])
    control = bridge.build(v, plan['mode'])
    good = model.encode(v)
    wrong = {}                          # path -> in the object and not sendable
    for n, (path, t, kind, x, fits, repair) in enumerate(plan['ops']):
        path = tuple(path)
        old = v
        for k in path:
            old = old[k]
        put = x
        if kind == 'numpy':
            put = np.float32(x) if t == 'f32' else np.float64(x) if t == 'f64' else \
                np.int64(x) if -1 << 63 <= x < 1 << 63 else np.uint64(x)
        elif kind == 'enum':
            put = Kind(x)
        ctx.fault(kind)
        if isinstance(t, int) or t == 'bool':
            ctx.fault('bit-field')
        ctx.state(name, t, kind)
        what = f'op {n}: {name} {path} (type {t}) set to {put!r}'
        refused = False
        try:
            bridge.poke(obj, path, put)
        except Exception:               # refused at once
            refused = True
        else:
            if fits:
                v = model.edited(v, path, x)
                wrong.pop(path, None)
            else:
                wrong[path] = what
        try:
            w = Writer()
            obj.serialize(R.stream.DataOutputStream(w))
            data, e = w.getvalue(), None
        except Exception as err:
            data, e = None, err
        ctx.log(kind, n, type(e).__name__, len(data or b''))
        if wrong:
            ctx.check(e is not None, 'sent although it does not fit',
                      lambda: f'{what}: sent as {data[:200].hex()} ({len(data)} octets) with '
                              f'{next(iter(wrong.values()))}')
        elif e is None:
            ctx.check(data == model.encode(v), 'sent as another value', lambda: f'{what}: sent as {data[:200].hex()}')
        else:
            ctx.check(kind == 'numpy' or not fits and refused, 'refused although it fits', f'{what}: {e!r}')
        if not fits and not refused and repair or e is not None and fits and not wrong:
            ctx.fault('repaired')
            bridge.poke(obj, path, old)
            v = model.edited(v, path, old)
            wrong.pop(path, None)
            if not wrong:
                ctx.check(serialize(obj) == model.encode(v), 'after repair', f'{what}, then {old!r} again')
        # others are as they were, and can be sent
        ctx.check(serialize(control) == good, 'other object', what)
        if name in model.PDUS:
            same(ctx, model.delivered(plan['v']), receive(name, good), 'other object', what)
