"""PDUs survive being copied, saved and restored: snapshots of a picture across crashes."""
import copy
import importlib
import pickle
import sys

from .. import bridge, core, model
from ..streams import ERRORS, Writer
from ..world import MODES, R, Exercise, gen_exercise, gen_size, receive, same, serialize
from . import c27

ID = 'C35'
RUNS = dict(quick=5000, thorough=150000)
MUST_FIRE = ('loss', 'duplicate', 'delay', 'crash', 'snapshot', 'restored', 'new process', 'moved', 'deep copy',
             'shallow copy') + tuple(ERRORS)
RULE = ('A run is an exercise whose nodes keep what they receive and make, save it now and then with pickle through files '
        'that fail, copy some of it, and crash; a node that restarts has what it saved last, in this process or in one '
        'that loads the library anew, and must hold and send the same PDUs, which are independent of the others.')
STATES = 'distinct (class, way of copying or saving, process, faults)'
REAL = ['opendis.dis7', 'opendis.record', 'opendis.stream', 'opendis.PduFactory', 'opendis.RangeCoordinates']
STUB = ['network', 'files', 'the new process (its table of modules)']
ASSUMES = ['snapshots are not in pickle protocol 0, which loses the payload of NaNs', 'a snapshot is restored by the version of the library that wrote it']
SV = sorted(c.name for c in model.SV_TYPES.values())
ALONE = [n for n in model.RECORDS if n in bridge.CLASSES]


def wider(v, rng):
    """what an application computes has more digits than what it sends"""
    for f in model.SCHEMA[v['__c']].fields:
        if f[0] == 'rec':
            wider(v[f[1]], rng)
        elif f[0] == 'list' and f[2] not in model.PACK:
            for x in v[f[1]]:
                wider(x, rng)
        elif f[0] == 'prim' and f[2] == 'f32' and f[3] is None and rng.random() < .3:
            v[f[1]] = rng.uniform(-1e3, 1e3)
    return v


def gen(rng, i):
    plan = gen_exercise(rng, i, rng.choice((2, 4, 6, 10)))
    end = max(op['t'] for op in plan['ops']) + 2
    plan['made'] = [[rng.randrange(plan['nodes']), wider(model.gen(rng.choice(rng.choice((ALONE, ALONE, SV))), rng, gen_size(rng)), rng),
                     rng.choice(MODES), round(rng.uniform(0, end), 6)] for _ in range(rng.choice((0, 1, 2, 4)))]
    plan['saves'] = [dict(t=round(rng.uniform(0, end), 6), node=rng.randrange(plan['nodes']), proto=rng.randrange(1, 6),
                          fault=[rng.choice(sorted(ERRORS)), int(10 ** rng.uniform(0, 4))] if rng.random() < .3 else None)
                     for _ in range(rng.choice((1, 2, 4)))]
    plan['copies'] = [dict(t=round(rng.uniform(0, end), 6), node=rng.randrange(plan['nodes']), pick=rng.random(),
                           how=rng.choice(('deep', 'deep', 'shallow', 'pickle')), proto=rng.randrange(1, 6), edit=rng.getrandbits(32))
                      for _ in range(rng.choice((0, 1, 3)))]
    for _ in range(rng.choice((0, 1, 2))):
        a = rng.uniform(0, end)
        plan['crashes'].append([rng.randrange(plan['nodes']), round(a, 6), round(a + rng.uniform(.05, 5), 6)])
    plan['fresh'] = [rng.random() < .35 for _ in plan['crashes']] + [rng.random() < .3]
    return plan


class Elsewhere:
    """a process that loads the library anew"""

    def __enter__(self):
        loader = c27.Loader()
        self.old = {n: sys.modules.pop(n) for n in list(sys.modules) if n == 'opendis' or n.startswith('opendis.')}
        sys.meta_path.insert(0, loader)
        self.loader = loader
        return self

    def library(self):
        """points the tools at the library of this process"""
        m = type(R)()
        for k, n in (('dis7', 'dis7'), ('stream', 'stream'), ('record', 'record'), ('radio', 'record.radio'),
                     ('warfare', 'record.warfare'), ('factory', 'PduFactory'), ('geo', 'RangeCoordinates')):
            setattr(m, k, importlib.import_module('opendis.' + n))
        m.dr = R.dr
        self.r = dict(vars(R))
        vars(R).update(vars(m))
        self.maps = [(d, dict(d)) for d in (bridge.CLASSES, bridge.BASES, bridge._known_sv)]
        mods = (R.dis7, R.record, R.radio, R.warfare)
        bridge.CLASSES.update({n: next(getattr(x, n) for x in mods if hasattr(x, n)) for n in bridge.CLASSES})
        bridge.BASES.update(StandardVariableRecord=R.record.base.StandardVariableRecord,
                            VariableTransmitterParametersRecord=R.radio.VariableTransmitterParametersRecord,
                            DamageDescriptionRecord=R.warfare.DamageDescriptionRecord)
        bridge._known_sv.clear()
        bridge._known_sv.update({bridge.CLASSES[c.name]: c.name for c in model.SV_TYPES.values()})

    def __exit__(self, *_):
        if hasattr(self, 'maps'):
            vars(R).clear()
            vars(R).update(self.r)
            for d, was in self.maps:
                d.clear()
                d.update(was)
        sys.meta_path.remove(self.loader)
        for n in list(sys.modules):
            if n == 'opendis' or n.startswith('opendis.'):
                del sys.modules[n]
        sys.modules.update(self.old)


def first(obj, v):
    """a record within the object, for a second way to it"""
    f = next((f for f in model.SCHEMA[v['__c']].fields if f[0] == 'rec'), None)
    return getattr(obj, f[1]) if f else None


def first_name(v):
    return next((f[1] for f in model.SCHEMA[v['__c']].fields if f[0] == 'rec'), None)


def number(v):
    """a number at the top of v: (name, another value)"""
    for f in model.SCHEMA[v['__c']].fields:
        if f[0] == 'prim' and f[3] is None and f[2][0] == 'u':
            return f[1], v[f[1]] ^ 1
    return None


def guarded(ctx, what, fn, *args):
    """saving, restoring and copying do not fail unless a file does"""
    try:
        return fn(*args)
    except Exception as e:
        ctx.check(False, f'{type(e).__name__}', f'{what}: {type(e).__name__}: {e}'[:200])
        raise


class Node(Exercise):
    def __init__(self, plan, ctx):
        self.pictures, self.disk, self.boots = {}, {}, {}
        super().__init__(plan, ctx)
        for n, (node, v, mode, t) in enumerate(plan['made']):
            self.sim.at(t, self.make, n, str(node), v, mode)
        for n, s in enumerate(plan['saves']):
            self.sim.at(s['t'], self.save, n, s)
        for n, c in enumerate(plan['copies']):
            self.sim.at(c['t'], self.copied, n, c)

    def make(self, n, node, v, mode):
        if node in self.up:
            self.pictures[node][f'made {n}'] = [bridge.build(v, mode), v]

    def send(self, n, op, src):
        obj = bridge.build(op['v'], 'attrs' if op['mode'] == 'shared' else op['mode'])     # copies of it are edited
        self.pictures[src][f'sent {n}'] = [obj, op['v']]
        return serialize(obj)

    def arrive(self, node, src, body, intact, how, meta):
        if intact:
            v = model.delivered(self.plan['ops'][meta]['v'])
            self.pictures[node][f'received {meta}'] = [receive(v['__c'], body), v]

    def verify(self, sig, what, obj, v):
        # what an application put into a field is still there, whatever a receiver would take it for
        same(self.ctx, v, obj, sig, what)
        self.ctx.check(serialize(obj) == model.encode(v), sig + ': octets', lambda: f'{what}: {v["__c"]} sent as other octets')

    # ------------------------------------------------------------ snapshots
    def save(self, n, s):
        ctx, node = self.ctx, str(s['node'])
        if node not in self.up:
            return
        pic = self.pictures[node]
        state = dict(pdus={k: o for k, (o, _) in pic.items()}, again=[o for o, _ in reversed(pic.values())],
                     inner={k: first(o, v) for k, (o, v) in pic.items()}, converter=R.geo.GPS())
        values = {k: v for k, (_, v) in pic.items()}
        what = f'snapshot {n} of node {node}, protocol {s["proto"]}'
        if s['fault']:
            w, exc = Writer((s['fault'][1], s['fault'][0])), None
            try:
                pickle.Pickler(w, s['proto']).dump(state)
            except (Exception, KeyboardInterrupt) as e:
                exc = e
            if w.fired:
                ctx.fault(s['fault'][0])
                ctx.check(exc is not None, 'swallowed', lambda: f'{what}: {s["fault"][0]} reported as success')
        w = Writer()
        guarded(ctx, what, pickle.Pickler(w, s['proto']).dump, state)
        self.disk[node] = w.getvalue(), values, what
        ctx.fault('snapshot')
        ctx.log(f'{self.sim.now:.6f}', 'saved', node, len(values), s['proto'])
        for k, (o, v) in pic.items():
            self.verify('saved', f'{what}: {k}, after it was saved', o, v)
            ctx.state(v['__c'], 'saved', s['proto'])

    def inspect(self, state, values, what, sig):
        ctx = self.ctx
        ctx.check(list(state['pdus']) == list(values), sig + ': lost', lambda: f'{what}: {list(state["pdus"])}')
        for (k, v), o in zip(reversed(values.items()), state['again']):
            ctx.check(state['pdus'][k] is o, sig + ': identity', lambda: f'{what}: {k} became two objects')
        for k, v in values.items():
            o = state['pdus'][k]
            self.verify(sig, f'{what}: {k}', o, v)
            if first_name(v):
                ctx.check(getattr(o, first_name(v)) is state['inner'][k], sig + ': identity', lambda: (
                    f'{what}: {k} and its {first_name(v)}, which was saved beside it, are apart'))
        a = state['converter'].lla2ecef((.5, .25, 10.0))
        ctx.check([float(x) for x in a] == [float(x) for x in R.geo.GPS().lla2ecef((.5, .25, 10.0))], sig + ': converter', what)

    def boot(self, node):
        if node in self.up:
            return
        super().boot(node)
        self.pictures[node] = {}
        n = self.boots[node] = self.boots.get(node, -1) + 1
        if not n:
            return
        self.restore(node, self.plan['fresh'][n % len(self.plan['fresh'])])

    def crash(self, node):
        super().crash(node)
        self.pictures[node] = {}

    def restore(self, node, fresh):
        ctx = self.ctx
        if node not in self.disk:
            return
        data, values, what = self.disk[node]
        ctx.fault('restored')
        if fresh:
            ctx.fault('new process')
            with Elsewhere() as e:
                state = guarded(ctx, what, pickle.loads, data)
                e.library()
                self.inspect(state, values, what + ', in a new process', 'new process')
                data = pickle.dumps(state, 2)
            ctx.fault('moved')
            what += ', and back'
        state = guarded(ctx, what, pickle.loads, data)
        self.inspect(state, values, what, 'restored')
        self.pictures[node] = {k: [state['pdus'][k], v] for k, v in values.items()}
        ctx.log(f'{self.sim.now:.6f}', 'restored', node, len(values), fresh)
        for v in values.values():
            ctx.state(v['__c'], 'restored', fresh)

    # --------------------------------------------------------------- copies
    def copied(self, n, c):
        ctx, node = self.ctx, str(c['node'])
        pic = self.pictures.get(node)
        if node not in self.up or not pic:
            return
        k = list(pic)[int(c['pick'] * len(pic))]
        obj, v = pic[k]
        what = f'copy {n} ({c["how"]}) of {k}'
        if c['how'] == 'shallow':
            ctx.fault('shallow copy')
            new = guarded(ctx, what, copy.copy, obj)
        else:
            # what was in both places is the same object in the copy
            both = obj, first(obj, v), obj
            if c['how'] == 'deep':
                ctx.fault('deep copy')
                new, inner, again = guarded(ctx, what, copy.deepcopy, both)
            else:
                new, inner, again = guarded(ctx, what, pickle.loads, guarded(ctx, what, pickle.dumps, both, c['proto']))
            ctx.check(again is new, 'copy: identity', what)
            ctx.check(not first_name(v) or getattr(new, first_name(v)) is inner, 'copy: identity',
                      lambda: f'{what}: {v["__c"]} and its {first_name(v)}, which was copied beside it, are apart')
        ctx.check(type(new) is type(obj) or type(obj).__name__ == type(new).__name__, 'class', lambda: f'{what}: {new!r:.80}')
        self.verify('copy', what, new, v)
        v2, edit = v, model.gen_edit(v, core.rng_of(c['edit'])) if c['how'] != 'shallow' else number(v)
        if edit:
            if c['how'] == 'shallow':
                setattr(new, *edit)
                v2 = dict(v, **{edit[0]: edit[1]})
            else:
                path, x = edit
                bridge.poke(new, path, x)
                v2 = model.edited(v, path, x)
            self.verify('copy edited', f'{what}, edited {edit}', new, v2)
            self.verify('original', f'{what}, edited {edit}: the original', obj, v)
        pic[f'copy {n}'] = [new, v2]
        ctx.state(v['__c'], 'copy', c['how'])
        ctx.log(f'{self.sim.now:.6f}', 'copy', n, c['how'], v['__c'])

    def run(self):
        super().run()
        for node in sorted(self.up):
            for k, (o, v) in self.pictures[node].items():
                self.verify('kept', f'{k} of node {node}, in the end', o, v)
            self.restore(node, self.plan['fresh'][-1])


def run(plan, ctx):
    Node(plan, ctx).run()
