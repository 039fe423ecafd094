"""Dead reckoning is a pure query: any schedule of frames gives the same track."""
import importlib.util

import numpy as np

from .. import fleet
from ..world import R

ID = 'C13'
RUNS = dict(quick=15000, thorough=450000)
MUST_FIRE = ('loss', 'duplicate', 'delay', 'clock-jump', 'negative elapsed time', 'stale state', 'requery', 'near state',
             'restart')
RULE = ('As C12, but each query is repeated after other queries and after its results were overwritten by the '
        'application; inputs must keep their values, results must not share memory with inputs or earlier results.')
STATES = 'distinct (algorithm, vector types, sign of the elapsed time, gimbal lock)'
REAL = ['opendis.DeadReckoning', 'opendis.dis7', 'opendis.stream', 'opendis.PduFactory']
STUB = ['network', 'clocks']


def gen(rng, i):
    plan = fleet.gen(rng, i)
    for op in plan['ops']:
        if op['k'] == 'frame':          # a second entity, nearly like this one
            op['near'] = [rng.choice('poowva'), rng.randrange(3), rng.choice((1, -1)) * 10 ** rng.uniform(-13, -1)]
    return plan


_spec = importlib.util.spec_from_file_location('opendis._just_started', R.dr.__file__)
_code = _spec.loader.get_code('opendis._just_started')


def restarted():
    """the module as in a process that has made no query yet"""
    m = importlib.util.module_from_spec(_spec)
    exec(_code, m.__dict__)
    return m


def bits(x):
    return [float(c).hex() for c in x]


def run(plan, ctx):
    past = []

    def judge(n, op, args, dt, ctx):
        before = {k: (type(x), fleet.floats(x)) for k, x in args.items()}
        what, pos, ori = fleet.checked(ctx, n, op, args, dt)
        res = bits(pos), bits(ori)

        def inputs(when):
            for k in args:
                ctx.check((type(args[k]), bits(args[k])) == (before[k][0], bits(before[k][1])), 'input changed',
                          lambda: f'{what}: its input {k} is {args[k]!r} {when}')
        inputs('after the call')
        for k, x in args.items():
            if isinstance(x, np.ndarray):
                for r in (pos, ori):
                    ctx.check(not (isinstance(r, np.ndarray) and np.shares_memory(r, x)), 'aliased input',
                              lambda: f'{what}: its result shares memory with its input {k}')
        # the application integrates its own offset into what it was given
        for r in (pos, ori):
            try:
                r += 1000.0
            except (TypeError, ValueError):
                pass
        inputs('after the result was changed')
        # a node that has just started, and knows only this state
        ctx.fault('restart')
        near = {k: np.array(fleet.floats(x)) for k, x in args.items()}
        which, k, by = op['near']
        near[which][k] += by * max(1.0, abs(near[which][k]))
        ctx.fault('near state')
        for of, these, ref in ((what, args, res), (f'{what}, with {which}[{k}] changed by {by}', near, None)):
            if ref is None:
                p, o = fleet.call(op['alg'], these, dt)
                ref = bits(p), bits(o)
            p, o = fleet.call(op['alg'], these, dt, restarted())
            ctx.check((bits(p), bits(o)) == ref, 'restart',
                      lambda: f'{of}: a node that has just started gives {bits(p)}, {bits(o)} instead of {ref}')
        past.append((what, op, args, dt, res, before))
        # earlier queries, asked again
        for what2, op2, args2, dt2, res2, before2 in (past[-1], past[len(past) // 2], past[0]):
            ctx.fault('requery')
            p, o = fleet.call(op2['alg'], args2, dt2)
            ctx.check((bits(p), bits(o)) == res2, 'requery',
                      lambda: f'{what2}: asked again at op {n} gives {bits(p)}, {bits(o)} instead of {res2}')
            for r in (p, o):
                for q in (pos, ori):
                    ctx.check(not (isinstance(r, np.ndarray) and isinstance(q, np.ndarray)
                                   and np.shares_memory(r, q)), 'aliased results',
                              lambda: f'{what2}: its result shares memory with that of op {n}')
    fleet.Fleet(plan, ctx, judge).run()
    for what, op, args, dt, res, before in past:
        p, o = fleet.call(op['alg'], args, dt)
        ctx.check((bits(p), bits(o)) == res, 'requery', lambda: f'{what}: asked again at the end gives other numbers')
        for k in args:
            ctx.check(bits(args[k]) == bits(before[k][1]), 'input changed', lambda: f'{what}: {k} changed in the end')
