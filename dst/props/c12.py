"""Dead reckoning: the position every receiver extrapolates."""
from .. import fleet

ID = 'C12'
RUNS = dict(quick=25000, thorough=750000)
MUST_FIRE = ('loss', 'duplicate', 'delay', 'clock-jump', 'negative elapsed time', 'stale state')
RULE = ('A run is an owner publishing entity states through a faulty network and a receiver extrapolating them on a '
        'skewed, drifting, jumping clock with all nine algorithms and several vector types; the oracle is an '
        'independent evaluation of the equations of motion.')
STATES = 'distinct (algorithm, vector types, sign of the elapsed time, gimbal lock)'
REAL = ['opendis.DeadReckoning', 'opendis.dis7', 'opendis.stream', 'opendis.PduFactory']
STUB = ['network', 'clocks']
ASSUMES = ['rotation of the body during the interval does not bend its path (documented first-order step)']
gen = fleet.gen


def judge(n, op, args, dt, ctx):
    what, pos, _ = fleet.checked(ctx, n, op, args, dt)
    v = {k: fleet.floats(args[k]) for k in args}
    want, size = fleet.position(op['alg'], v['p'], v['v'], v['a'], float(dt), v['o'])
    fleet.near(ctx, pos, want, [1e-11 * s + 1e-12 for s in size], 'position', what)


def run(plan, ctx):
    fleet.Fleet(plan, ctx, judge).run()
