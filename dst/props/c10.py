"""Counts and lengths always say what is there, whatever happened to the lists."""
import os

from .. import bridge, core, model
from ..streams import ERRORS, Reader, Writer
from ..world import MODES, R, create, gen_size, parse_into, same, serialize

ID = 'C10'
RUNS = dict(quick=24000, thorough=720000)
MUST_FIRE = ('append', 'delete', 'clear', 'replace', 'parse', 'failed-parse', 'swap', 'EIO', 'limit', 'beyond',
             'refill', 'overfull')
RULE = ('A run edits the variable part of an object (append, insert, delete, clear, sort, replace, re-parse, failed '
        'parse or send) and asks after each step for its counts, its size and its octets; the oracle counts the '
        'model\'s list and re-reads the octets with the reference decoder.')
STATES = 'distinct (class, list, edit, length)'
REAL = ['opendis.dis7', 'opendis.record', 'opendis.stream']
STUB = ['streams']

COUNTS = {}
for _line in open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'counts.txt')):
    if not _line.startswith(';'):
        _c, _l, _p = _line.split()
        COUNTS.setdefault(_c, []).append((_l, _p))
SIZED = ['EntityIdentifier', 'EulerAngles', 'EventIdentifier', 'SimulationAddress', 'Vector3Float', 'WorldCoordinates',
         'BeamAntennaPattern', 'SpreadSpectrum', 'ModulationType', 'NetId', 'BasicHaveQuickMP', 'CCTTSincgarsMP',
         'HighFidelityHAVEQUICKRadio', 'DirectedEnergyDamage', 'DirectedEnergyAreaAimpoint',
         'DirectedEnergyPrecisionAimpoint', 'DEFireFlags', 'DirectedEnergyTargetEnergyDeposition']
VARYING = sorted(n for n, c in model.SCHEMA.items() if not c.abstract and n in bridge.CLASSES
                 and any(f[0] in ('count', 'size') for f in c.fields))


def lists(name):
    return [f for f in model.SCHEMA[name].fields if f[0] in ('list', 'sv')]


def blobs(name):
    return [f for f in model.SCHEMA[name].fields if f[0] == 'special' and f[1] != 'variableDatum']


def refillable(v, path=()):
    """(path, class) of the records of opaque octets in v"""
    for k, x in v.items():
        if isinstance(x, dict):
            if 'data' in x and x['__c'].startswith('Unknown'):
                yield path + (k,), x['__c']
            elif x['__c'] in model.SCHEMA:
                yield from refillable(x, path + (k,))
        elif isinstance(x, list):
            for n, y in enumerate(x):
                if isinstance(y, dict):
                    if y['__c'] == 'UnknownSV':
                        yield path + (k, n), y['__c']
                    elif y['__c'] in model.SCHEMA:
                        yield from refillable(y, path + (k, n))


MOST = {'modulationParameters': 255, 'antennaPattern': 65535}


def gen(rng, i):
    name = VARYING[i % len(VARYING)] if rng.random() < .7 else rng.choice(VARYING + SIZED)
    v = model.plain(model.gen(name, rng, gen_size(rng)))
    fields = {f[2]: f for f in model.SCHEMA[name].fields if f[0] == 'count'}
    ops, caps = [], {k: (model.COUNT_MAX[f[1]] - f[5]) // f[4] for k, f in fields.items()}
    for _ in range(rng.choice((2, 4, 8, 12))):
        k = rng.choice(('append', 'append', 'append', 'insert', 'delete', 'clear', 'reverse', 'replace', 'extend', 'swap',
                        'parse', 'failed-parse', 'failed-send', 'same-twice', 'refill', 'refill'))
        ops.append(dict(k=k, list=rng.randrange(4), at=rng.random(), v=model.gen(name, rng, rng.choice((0, 1, 1, 2))), seed=rng.randrange(1 << 30),
                        kind=rng.choice(sorted(ERRORS))))
    if caps and rng.random() < .06 and min(caps.values()) <= 8191:
        ops.append(dict(k=rng.choice(('limit', 'beyond')), list=rng.randrange(4), at=rng.random(),
                        v=model.gen(name, rng, 1), kind='EIO', seed=0))
    if rng.random() < .04:
        ops.append(dict(k='overfull', list=0, at=rng.random(), v=model.gen(name, rng, 1), kind='EIO', seed=rng.randrange(1 << 30)))
    return dict(v=v, mode=rng.choice(MODES), ops=ops)


def measure(ctx, obj, v, what):
    name = v['__c']
    for attr, prop in COUNTS.get(name, ()):
        f = next(f for f in model.SCHEMA[name].fields if f[0] in ('count', 'size') and f[2] == attr)
        n = len(v[attr]) * f[4] + f[5] if f[0] == 'count' else model.blob_size(v[attr])
        got = getattr(obj, prop)
        ctx.check(got == n, 'count', lambda: f'{what}: {prop} of {name} is {got}, {attr} makes it {n}')
    want = model.encode(v)
    data = serialize(obj)

    def msg():
        try:
            d = model.diff(model.delivered(v), model.decode(name, data)[0])
        except model.Reject as e:
            d = f' refused ({e!r})'
        return f'{what}: {name} is {len(data)} octets instead of {len(want)}; read back: {name}{d}'
    ctx.check(data == want, 'octets', msg)
    if name in SIZED and hasattr(obj, 'marshalledSize'):
        ctx.check(obj.marshalledSize() == len(want), 'size',
                  lambda: f'{what}: marshalledSize of {name} is {obj.marshalledSize()}, it takes {len(want)} octets')


def run(plan, ctx):
    v = plan['v']
    name = v['__c']
    obj = bridge.build(v, plan['mode'])
    ctx.log('start', name)
    measure(ctx, obj, v, 'at the start')
    ls = lists(name)
    caps = {f[2]: (model.COUNT_MAX[f[1]] - f[5]) // f[4] for f in model.SCHEMA[name].fields if f[0] == 'count'}
    sv = model.SCHEMA[name].sv is not None
    for n, op in enumerate(plan['ops']):
        k = op['k']
        what = f'op {n} ({k})'
        nv = op['v']
        if k in ('parse', 'failed-parse'):
            data = model.encode(nv)
            if sv:
                continue
            ctx.fault(k)
            if k == 'failed-parse':
                # what is left may be anything, but it must still be consistent
                # once it is parsed into again
                try:
                    parse_into(obj, None, Reader(data, (int(op['at'] * 30), op['kind'])))
                except (Exception, KeyboardInterrupt) as e:
                    ctx.log('failed', type(e).__name__)
            parse_into(obj, data)
            v = model.delivered(nv)
        elif k == 'failed-send':
            w = Writer((int(op['at'] * max(1, len(model.encode(v)))), op['kind']))
            try:
                obj.serialize(R.stream.DataOutputStream(w))
            except (Exception, KeyboardInterrupt):
                if not w.fired:
                    raise
            if w.fired:
                ctx.fault(op['kind'])
        elif k == 'refill':
            # other octets in the record of opaque octets that is there
            rng = core.rng_of(op['seed'])
            paths = list(refillable(v))
            if not paths:
                continue
            ctx.fault('refill')
            path, c = rng.choice(paths)
            data = rng.randbytes(rng.choice((2, 10, 18, 122, 250)) if c == 'UnknownSV' else rng.choice((1, 7, 41, 200)))
            x = model.at_obj(obj, path)
            x.data = data
            for p, _ in paths:          # it may be there more than once
                if model.at_obj(obj, p) is x:
                    v = model.edited(v, p, dict(model.at(v, p), data=data))
        elif k == 'overfull':
            # a record longer than the length field before it can say
            rng = core.rng_of(op['seed'])
            paths = list(refillable(v))
            if not paths:
                continue
            path, c = rng.choice(paths)
            x = model.at_obj(obj, path)
            most = 65529 if c == 'UnknownSV' else MOST[path[-1]]
            x.data = rng.randbytes(most + rng.choice((1, 1, 9, 257)))
            ctx.fault('overfull')
            try:
                data = serialize(obj)
            except Exception as e:
                ctx.log('overfull', type(e).__name__)
            else:
                ctx.check(False, 'beyond the limit', f'{what}: {name} with a {path[-1]} of {len(x.data)} octets, {most} '
                          f'at most, is sent as {len(data)} octets')
            x.data = model.at(v, path)['data']
        elif k == 'swap' and blobs(name):
            ctx.fault('swap')
            v = dict(v, **{a: nv[a] for a in ('modulationType', 'modulationParameters', 'antennaPatternType',
                                              'antennaPattern') if a in v})
            c = model.SCHEMA[name]
            vals = bridge.values(c, v, 'attrs')
            bridge.assign(obj, c, {a: vals[a] for a in ('modulationType', 'modulationParameters', 'antennaPatternType',
                                                       'antennaPattern') if a in v}, v, 'attrs')
        elif ls:
            f = ls[op['list'] % len(ls)]
            a = f[1]
            old, new = list(v[a]), list(nv[a])
            lst = getattr(obj, a)
            elems = bridge.values(model.SCHEMA[name], nv, 'attrs')[a]
            at = int(op['at'] * (len(old) + 1))
            if k == 'beyond':
                # more than the count can say: an error, and as before once they are gone
                if not elems or caps[a] > 8191:
                    continue
                have, most = len(old), caps[a]
                extra = 1 + int(op['at'] * 300)
                for m in range(most + extra - have):
                    lst.append(elems[m % len(elems)])
                ctx.fault('beyond')
                try:
                    data = serialize(obj)
                except Exception as e:
                    ctx.log('beyond', type(e).__name__)
                else:
                    ctx.check(False, 'beyond the limit', f'{what}: {name} with {len(lst)} {a}, {most} at most, is '
                              f'sent as {len(data)} octets')
                del lst[have:]
            elif k == 'limit':
                if not elems or caps[a] > 255:
                    continue
                while len(old) < caps[a]:
                    lst.append(elems[len(old) % len(elems)])
                    old.append(new[len(old) % len(new)])
                ctx.fault('limit')
            elif k in ('append', 'extend', 'insert', 'same-twice', 'replace') and len(old) + len(new) + 1 > caps[a]:
                continue
            elif k == 'append' and elems:
                lst.append(elems[0])
                old.append(new[0])
                ctx.fault('append')
            elif k == 'same-twice' and elems:
                lst.append(elems[0])
                lst.append(elems[0])
                old += [new[0], new[0]]
            elif k == 'extend':
                lst.extend(elems)
                old += new
            elif k == 'insert' and elems:
                lst.insert(at, elems[0])
                old.insert(at, new[0])
            elif k == 'delete' and old:
                at = min(at, len(old) - 1)
                del lst[at]
                del old[at]
                ctx.fault('delete')
            elif k == 'clear':
                lst.clear()
                old = []
                ctx.fault('clear')
            elif k == 'reverse':
                lst.reverse()
                old.reverse()
            elif k == 'replace':
                bridge.put(obj, a, elems)
                old = new
                ctx.fault('replace')
            v = dict(v, **{a: old})
            ctx.state(name, a, k, len(old))
        ctx.log(k, name, len(model.encode(v)))
        measure(ctx, obj, v, what)
    same(ctx, v, obj, 'content', 'at the end')
