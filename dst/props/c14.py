"""Dead reckoning: the orientation every receiver extrapolates."""
from .. import fleet

ID = 'C14'
RUNS = dict(quick=25000, thorough=750000)
MUST_FIRE = ('loss', 'duplicate', 'delay', 'clock-jump', 'negative elapsed time', 'stale state', 'gimbal lock')
RULE = ('As C12, for the orientation: unchanged by the fixed algorithms, turned at the Euler rates that the body '
        'angular velocity means at the reported attitude by the rotating ones, heading held at gimbal lock.')
STATES = 'distinct (algorithm, vector types, sign of the elapsed time, gimbal lock)'
REAL = ['opendis.DeadReckoning', 'opendis.dis7', 'opendis.stream', 'opendis.PduFactory']
STUB = ['network', 'clocks']
ASSUMES = ['rates are constant over the interval (documented first-order step)',
           'attitudes with 1e-7 < |cos(pitch)| < 1e-5, around the documented threshold, are not judged']


def gen(rng, i):
    p = fleet.gen(rng, i)
    for op in p['ops']:
        if op['k'] == 'frame' and rng.random() < .6:
            op['alg'] = rng.choice(sorted(fleet.ROTATING))
    return p


def judge(n, op, args, dt, ctx):
    what, _, ori = fleet.checked(ctx, n, op, args, dt)
    v = {k: fleet.floats(args[k]) for k in args}
    want, tol = fleet.orientation(op['alg'], v['o'], v['w'], float(dt))
    fleet.near(ctx, ori, want, tol, 'orientation', what)


def run(plan, ctx):
    fleet.Fleet(plan, ctx, judge).run()
