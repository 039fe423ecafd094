"""Imports: in any order, by any of its modules, and again after one has failed."""
import importlib
import importlib.abc
import importlib.util
import io
import os
import sys

from .. import bridge, core, model
from ..sched import Interrupt
from ..world import R, pick_pdu

ID = 'C27'
RUNS = dict(quick=3200, thorough=96000)
BATCH = 20
PAST = False
MUST_FIRE = ('torn import', 'module fails', 'retry', 'star', 'again', 'between', 'own class')
RULE = ('A run is a process that has not yet loaded the library: it imports its modules in an order of its own and in '
        'different ways, uses what it has, and some imports fail at a chosen line or module (unreadable file, no memory, '
        'interrupt) and are repeated; between them it declares PDU classes of its own; in the end the library must '
        'be whole, and be one.')
STATES = 'distinct (first modules imported, way, what failed where)'
REAL = ['every module of opendis, executed anew in each run']
STUB = ['the loader of modules (compiled once)', 'the process (its table of modules)']
ASSUMES = ['modules of Python and numpy are loaded already']

PUBLIC = ['opendis', 'opendis.dis7', 'opendis.stream', 'opendis.types', 'opendis.PduFactory', 'opendis.RangeCoordinates',
          'opendis.DeadReckoning', 'opendis.record', 'opendis.record.base', 'opendis.record.bitfield',
          'opendis.record.common', 'opendis.record.symbolic_names', 'opendis.record.radio', 'opendis.record.warfare',
          'opendis.record.warfare.enums']
CODE = {}


def compiled():
    """every module of the tree: name -> (path, code, whether it is a package)"""
    if not CODE:
        top = os.path.join(bridge.REPO, 'opendis')
        for d, dirs, files in os.walk(top):
            dirs[:] = [x for x in dirs if x != '__pycache__']
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(d, f)
                name = os.path.relpath(path, bridge.REPO)[:-3].replace(os.sep, '.')
                pkg = name.endswith('.__init__')
                name = name[:-9] if pkg else name
                with open(path, 'rb') as s:
                    src = s.read()
                try:
                    CODE[name] = path, compile(src, path, 'exec', dont_inherit=True), pkg
                except SyntaxError:
                    continue            # a file that nobody imports
    return CODE


class Loader(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """serves the modules of the tree; the fail-th that is executed raises"""

    def __init__(self):
        self.count, self.fail, self.fired = 0, None, None

    def find_spec(self, name, path=None, target=None):
        if name not in compiled():
            return None
        f, _, pkg = CODE[name]
        spec = importlib.util.spec_from_loader(name, self, origin=f, is_package=pkg)
        spec.has_location = True
        if pkg:
            spec.submodule_search_locations[:] = [os.path.dirname(f)]
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        k, self.count = self.count, self.count + 1
        if self.fail and k == self.fail[0]:
            exc, self.fail = self.fail[1], None
            self.fired = module.__name__
            raise exc
        module.__file__ = CODE[module.__name__][0]
        exec(CODE[module.__name__][1], module.__dict__)     # noqa: S102


ERR = dict(unreadable=lambda: OSError(5, 'simulated'), nomem=lambda: MemoryError('simulated'),
           interrupt=lambda: KeyboardInterrupt('simulated'))


def gen(rng, i):
    names = rng.sample(PUBLIC, len(PUBLIC))
    if rng.random() < .7:
        names = names[:rng.choice((1, 2, 4, 8))]
    steps = []
    for n in names:
        s = dict(m=n, how=rng.choice(('import', 'from', 'star', 'module')), fails=[])
        if rng.random() < .35:
            for _ in range(rng.choice((1, 1, 2, 4))):
                kind = rng.choice(sorted(ERR))
                s['fails'].append(['module', kind, rng.randrange(8)] if rng.random() < .5 else
                                  ['line', rng.choice(('nomem', 'interrupt')), rng.choice((rng.randrange(60), rng.randrange(4000)))])
        s['v'] = model.gen(pick_pdu(rng, i, len(steps), sorted(model.DISPATCHED)), rng, rng.choice((0, 1)))
        if rng.random() < .3:
            s['own'] = pick_pdu(rng, i, len(steps), sorted(model.DISPATCHED)), rng.randrange(4), rng.random() < .8
        steps.append(s)
    return dict(steps=steps, vs=[model.gen(rng.choice(sorted(model.DISPATCHED)), rng, rng.choice((0, 1, 2)))
                                 for _ in range(3)])


def bring(step):
    ns, m = {}, step['m']
    if step['how'] == 'module':
        importlib.import_module(m)
    elif step['how'] == 'import':
        exec(f'import {m}', ns)                             # noqa: S102
    elif step['how'] == 'star':
        exec(f'from {m} import *', ns)                      # noqa: S102
    elif '.' in m:
        exec('from {} import {}'.format(*m.rsplit('.', 1)), ns)     # noqa: S102
    else:
        exec(f'import {m} as it', ns)                       # noqa: S102
    return {k: x for k, x in ns.items() if k != '__builtins__'}


def declare(ctx, like, up, same):
    """the application's own class of PDU, a sibling or a child of one of the library's"""
    dis7 = sys.modules.get('opendis.dis7')
    base = getattr(dis7, like, None)
    if base is None:
        return None
    mro = [c for c in base.__mro__ if c is not object]
    number = base.pduType if same else 222
    ctx.fault('own class')
    return type(base)('Mine', (mro[min(up, len(mro) - 1)],), dict(pduType=number, __module__='application'))


def trip(ctx, what, v):
    """a PDU through whatever library is loaded now"""
    factory, stream = (sys.modules['opendis.' + n] for n in ('PduFactory', 'stream'))
    data = model.encode(v)
    obj = factory.createPdu(data)
    ctx.check(type(obj).__name__ == v['__c'], 'decoded', lambda: f'{what}: {v["__c"]} became {obj!r:.100}')
    ctx.check(type(obj) is getattr(sys.modules['opendis.dis7'], v['__c'], None), 'two libraries', lambda: (
        f'{what}: the {v["__c"]} of the factory is not that of dis7'))
    f = io.BytesIO()
    obj.serialize(stream.DataOutputStream(f))
    ctx.check(f.getvalue() == data, 'sent', lambda: f'{what}: {v["__c"]} sent on as {f.getvalue().hex():.200} '
              f'instead of {data.hex():.200}')


def run(plan, ctx):
    loader = Loader()
    old = {n: sys.modules.pop(n) for n in list(sys.modules) if n == 'opendis' or n.startswith('opendis.')}
    said, out, err = io.StringIO(), sys.stdout, sys.stderr
    path, hooks = list(sys.path), list(sys.meta_path)
    sys.meta_path.insert(0, loader)
    sys.stdout = sys.stderr = said
    try:
        steps(plan, ctx, loader, said)
        ctx.check(sys.path == path, 'path', lambda: f'sys.path became {sys.path}')
        ctx.check([x for x in sys.meta_path if x is not loader] == hooks, 'import hooks', 'import hooks changed')
    finally:
        sys.stdout, sys.stderr = out, err
        sys.meta_path[:] = [x for x in sys.meta_path if x is not loader]
        for n in list(sys.modules):
            if n == 'opendis' or n.startswith('opendis.'):
                del sys.modules[n]
        sys.modules.update(old)
    # who uses the library that was loaded before
    v = plan['vs'][0]
    f = io.BytesIO()
    obj = R.factory.createPdu(model.encode(v))
    obj.serialize(R.stream.DataOutputStream(f))
    ctx.check(type(obj) is bridge.CLASSES[v['__c']] and f.getvalue() == model.encode(v), 'library before', (
        f'the library loaded before handles {v["__c"]} otherwise'))


def steps(plan, ctx, loader, said):
    own = []
    for n, s in enumerate(plan['steps']):
        what = f'step {n}: {s["m"]} ({s["how"]})'
        for place, kind, at in s['fails']:
            exc, exc0, fired = None, ERR[kind](), None
            try:
                if place == 'module':
                    loader.count, loader.fail, loader.fired = 0, (at, exc0), None
                    bring(s)
                else:
                    with Interrupt(at, exc0) as i:
                        bring(s)
            except BaseException as e:      # noqa: BLE001
                exc = e
            fired = loader.fired if place == 'module' else i.where if i.fired else None
            loader.fail = None
            if fired:
                ctx.fault('module fails' if place == 'module' else 'torn import')
                ctx.fault('retry')
                ctx.check(exc is not None, 'swallowed', lambda: f'{what}: {kind} in {fired} was reported as success')
                what += f', after {kind} in {fired}'
            elif exc is not None:
                raise exc
            ctx.state(*[x['m'] for x in plan['steps'][:2]][:n + 1], s['how'], kind, fired)
            ctx.log(n, s['m'], place, kind, fired, type(exc).__name__)
        names = bring(s)
        again = bring(s)
        ctx.fault('again')
        ctx.check(names.keys() == again.keys() and all(names[k] is again[k] for k in names), 'again', lambda: (
            f'{what}: another thing when imported again: '
            f'{[k for k in names.keys() | again.keys() if names.get(k) is not again.get(k)]}'))
        if 'own' in s:
            own.append(declare(ctx, *s['own']))
        if s['how'] == 'star':
            ctx.fault('star')
            lost = set(getattr(sys.modules[s['m']], '__all__', ())) - set(names)
            ctx.check(not lost, 'star', lambda: f'{what}: without {lost}')
        ctx.log(n, s['m'], len(names))
        ctx.state(*[x['m'] for x in plan['steps'][:2]][:n + 1], s['how'])
        if 'opendis.PduFactory' in sys.modules and not s['fails']:
            ctx.fault('between')
            trip(ctx, what, s['v'])
        ctx.check(not said.getvalue(), 'printed', lambda: f'{what}: {said.getvalue()!r:.300}')
    done = f'after {[s["m"] for s in plan["steps"]]}'
    for m in PUBLIC:
        importlib.import_module(m)
    now = {n: m for n, m in sys.modules.items() if n == 'opendis' or n.startswith('opendis.')}
    for n, ref in REFERENCE.items():
        lost = ref - set(vars(now[n])) if n in now else {n}
        ctx.check(not lost, 'names', lambda: f'{done}: {n} is without {sorted(lost)[:8]}')
    # one class of a name everywhere
    seen = {}
    for n, m in now.items():
        for k, x in vars(m).items():
            if isinstance(x, type) and x.__module__.split('.')[0] == 'opendis':
                key = x.__module__, x.__qualname__
                ctx.check(seen.setdefault(key, x) is x, 'two classes', lambda: f'{done}: {n}.{k} is another {key}')
                home = now.get(x.__module__)
                ctx.check(home is not None, 'two libraries', lambda: f'{done}: {n}.{k} comes from {x.__module__}')
    for v in plan['vs']:
        trip(ctx, done, v)
    table = sys.modules['opendis.PduFactory'].PduTypeDecoders
    kinds = {t: c.__name__ for t, c in table.items()}
    ctx.check(kinds == {t: c.__name__ for t, c in R.factory.PduTypeDecoders.items()}, 'table', (
        f'{done}: PDU types are handled otherwise than usual'))
    ctx.check(not said.getvalue(), 'printed', lambda: f'{done}: {said.getvalue()!r:.300}')


REFERENCE = {}


def reference():
    """the names each module has when all were imported once, from the first"""
    loader = Loader()
    old = {n: sys.modules.pop(n) for n in list(sys.modules) if n == 'opendis' or n.startswith('opendis.')}
    sys.meta_path.insert(0, loader)
    try:
        for m in PUBLIC:
            importlib.import_module(m)
        for n, m in sys.modules.items():
            if n == 'opendis' or n.startswith('opendis.'):
                # a submodule is an attribute of its package only once Python has executed it for that one
                REFERENCE[n] = {k for k in vars(m) if k[0] != '_' and f'{n}.{k}' not in sys.modules}
    finally:
        sys.meta_path.remove(loader)
        for n in list(sys.modules):
            if n == 'opendis' or n.startswith('opendis.'):
                del sys.modules[n]
        sys.modules.update(old)


reference()
