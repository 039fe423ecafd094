"""Between model values and objects of the code under test.

Only the public surface is used: constructors, attributes, serialize, parse.
"""
import importlib
import inspect
import os
import sys
import types

from . import model, sched

REPO = os.environ.get('VERIF_REPO', '/repo')


def load():
    """import opendis from /repo's working tree, whatever else is installed"""
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    for lib in ('numpy', 'numpy.random', 'io', 'enum', 'ctypes', 'dataclasses', 'abc', 'logging', 'functools'):
        importlib.import_module(lib)
    m = types.SimpleNamespace()
    real = sys.modules['threading']
    sys.modules['threading'] = sched.seam()
    try:
        _load(m)
    finally:
        sys.modules['threading'] = real
    assert os.path.realpath(m.dis7.__file__).startswith(os.path.realpath(REPO) + os.sep), m.dis7.__file__
    return m


def _load(m):
    m.dis7 = importlib.import_module('opendis.dis7')
    m.stream = importlib.import_module('opendis.stream')
    m.record = importlib.import_module('opendis.record')
    m.radio = importlib.import_module('opendis.record.radio')
    m.warfare = importlib.import_module('opendis.record.warfare')
    m.factory = importlib.import_module('opendis.PduFactory')
    m.geo = importlib.import_module('opendis.RangeCoordinates')
    m.dr = importlib.import_module('opendis.DeadReckoning')


R = load()
CLASSES = {}
for _n in list(model.SCHEMA) + ['UnknownRadio', 'UnknownAntennaPattern', 'GenericRadio',
                                'SimpleIntercomRadio']:
    for _m in (R.dis7, R.record, R.radio, R.warfare):
        if hasattr(_m, _n):
            CLASSES[_n] = getattr(_m, _n)
            break
BASES = {'StandardVariableRecord': R.record.base.StandardVariableRecord,
         'VariableTransmitterParametersRecord': R.radio.VariableTransmitterParametersRecord,
         'DamageDescriptionRecord': R.warfare.DamageDescriptionRecord}
_params = {}


def params(cls):
    if cls not in _params:
        try:
            _params[cls] = set(inspect.signature(cls.__init__).parameters) - {'self'}
        except (TypeError, ValueError):
            _params[cls] = set()
    return _params[cls]


def cls_of(name):
    return CLASSES[name]


class Shared(str):
    """a mode that remembers the records built"""


def build(v, mode='attrs'):
    """mode: attrs (default-construct, then assign), inplace (assign into the
    default-constructed sub-records), ctor (pass what the constructor takes),
    shared (attrs, where equal records are one object)"""
    if mode == 'shared':
        mode = Shared('attrs')
        mode.seen = {}
    if isinstance(mode, Shared):
        key = v['__c'], repr(v), model.encode(v)
        if key not in mode.seen:
            mode.seen[key] = _build(v, mode)
        return mode.seen[key]
    return _build(v, mode)


def _build(v, mode):
    c = model.SCHEMA[v['__c']]
    cls = cls_of(c.name)
    vals = values(c, v, mode)
    if mode == 'ctor':
        p = params(cls)
        obj = cls(**{k: x for k, x in vals.items() if k in p})
        rest = {k: x for k, x in vals.items() if k not in p}
    else:
        obj, rest = cls(), vals
    assign(obj, c, rest, v, mode)
    return obj


def blank(name):
    """a default-constructed object to parse into"""
    return cls_of(name)()


def _sub(x, mode, base=None):
    if x is None:
        return None
    if x['__c'] == 'UnknownSV':
        return R.record.getStandardVariableClass(x['recordType'], BASES[base])(x['data'])
    if 'data' in x:
        return cls_of(x['__c'])(x['data'])
    if x['__c'] in ('GenericRadio', 'SimpleIntercomRadio'):
        return cls_of(x['__c'])()
    return build(x, mode)


def values(c, v, mode):
    out = {}
    for f in c.fields:
        k = f[0]
        if k == 'prim':
            if f[3] is None:
                out[f[1]] = v[f[1]]
        elif k == 'rec':
            out[f[1]] = build(v[f[1]], mode) if mode != 'inplace' else v[f[1]]
        elif k == 'list':
            out[f[1]] = list(v[f[1]]) if f[2] in model.PACK else [build(x, mode) for x in v[f[1]]]
        elif k == 'array':
            out[f[1]] = list(v[f[1]])
        elif k == 'bits':
            for nm, _, _b in f[2]:
                if nm != '-':
                    out[nm] = v[nm]
        elif k == 'sv':
            out[f[1]] = [_sub(x, mode, f[2]) for x in v[f[1]]]
        elif k == 'special':
            if f[1] == 'variableDatum':
                out['variableDatumLength'] = v['variableDatumLength']
                out['variableData'] = list(v['variableData'])
            else:
                out[f[1]] = _sub(v[f[1]], mode)
    return out


def put(obj, name, x):
    """assign a public attribute; a list behind a read-only property is filled"""
    if isinstance(x, list):
        try:
            setattr(obj, name, x)
        except AttributeError:
            getattr(obj, name)[:] = x
    else:
        setattr(obj, name, x)


def assign(obj, c, vals, v, mode):
    for k, x in vals.items():
        if mode == 'inplace' and isinstance(x, dict):
            sub = getattr(obj, k)
            sc = model.SCHEMA[x['__c']]
            if type(sub) is not cls_of(x['__c']):
                put(obj, k, build(x, mode))
                continue
            assign(sub, sc, values(sc, x, mode), x, mode)
        else:
            put(obj, k, x)


def poke(obj, path, x):
    """change one field, deep in an object, where it is"""
    for k in path[:-1]:
        obj = obj[k] if isinstance(k, int) else getattr(obj, k)
    if isinstance(path[-1], int):
        obj[path[-1]] = x
    else:
        setattr(obj, path[-1], x)


def extract(obj, name=None):
    """the value an object holds, read through its public attributes"""
    if obj is None:
        return None
    if name is None:
        name = next((n for n, k in CLASSES.items() if type(obj) is k), None)
        if name is None:
            return {'__c': type(obj).__name__}
    elif type(obj) is not CLASSES[name]:
        return {'__c': type(obj).__name__}
    v = {'__c': name}
    if name in ('UnknownRadio', 'UnknownAntennaPattern'):
        v['data'] = obj.data
        return v
    if name not in model.SCHEMA:
        return v
    for f in model.SCHEMA[name].fields:
        k = f[0]
        if k == 'prim':
            v[f[1]] = getattr(obj, f[1])
        elif k == 'rec':
            v[f[1]] = extract_kind(getattr(obj, f[1]), name, f)
        elif k == 'list':
            xs = getattr(obj, f[1])
            v[f[1]] = list(xs) if f[2] in model.PACK else [extract_kind(x, name, f) for x in xs]
        elif k == 'array':
            v[f[1]] = list(getattr(obj, f[1]))
        elif k == 'bits':
            for nm, _, _b in f[2]:
                if nm != '-':
                    v[nm] = getattr(obj, nm)
        elif k == 'sv':
            v[f[1]] = [extract_sv(x, f[2]) for x in getattr(obj, f[1])]
        elif k == 'special':
            if f[1] == 'variableDatum':
                v['variableDatumLength'] = obj.variableDatumLength
                v['variableData'] = list(obj.variableData)
            else:
                v[f[1]] = extract(getattr(obj, f[1]))
    return v


def extract_kind(obj, name, f):
    for n in model.KINDS.get(name, {}).get(f[1], ()):
        if type(obj) is CLASSES[n]:
            return extract(obj, n)
    return extract(obj, f[2])


_known_sv = {CLASSES[c.name]: c.name for c in model.SV_TYPES.values()}


def extract_sv(x, base):
    n = _known_sv.get(type(x))
    if n:
        return extract(x, n)
    if not isinstance(x, BASES[base]) or not hasattr(x, 'data'):
        return {'__c': type(x).__name__}
    return {'__c': 'UnknownSV', 'recordType': x.recordType, 'data': x.data}
