"""What is mounted on an entity is where the attitude of the entity puts it."""
import copy
import math

import numpy as np

from .. import fleet, model
from ..world import R

ID = 'C34'
RUNS = dict(quick=14000, thorough=420000)
MUST_FIRE = ('loss', 'duplicate', 'delay', 'clock-jump', 'negative elapsed time', 'stale state', 'gimbal lock',
             'overwritten', 'rate')
RULE = ('As C12, with parts mounted on the entities: receivers turn lever arms into the world and targets into the body '
        'with the library\'s matrices, and get the velocities of the parts from its angular velocity matrix; the oracle '
        'is three plane rotations and the cross product, and the movement of the parts under dead reckoning.')
STATES = 'distinct (algorithm, kinds of numbers, sign of the elapsed time, gimbal lock)'
REAL = ['opendis.DeadReckoning', 'opendis.dis7', 'opendis.stream', 'opendis.PduFactory']
STUB = ['network', 'clocks']
ASSUMES = ['as C12 and C14']


def gen(rng, i):
    plan = fleet.gen(rng, i)
    for op in plan['ops']:
        if op['k'] == 'frame':
            op['arm'] = model.some(rng, -1e6, 1e6, fleet.gen_vec(rng, rng.choice((1, 30, 1000))))
            op['kind'] = rng.choice(('float', 'float', 'np64', 'array', 'f32', 'int'))
            op['moved'] = rng.random() < .6
            op['fast'] = rng.choice((1, 1, 1, -1e3, 1e6, 1e12))
    return plan


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def number(x, kind):
    return np.float64(x) if kind == 'np64' else np.float32(x) if kind == 'f32' else \
        int(x) if kind == 'int' else float(x)


def times(m, x):
    return [sum(float(m[r][k]) * x[k] for k in range(3)) for r in range(3)]


def turned_back(m, x):
    return [sum(float(m[r][k]) * x[r] for r in range(3)) for k in range(3)]


def size(x):
    return math.sqrt(sum(c * c for c in x))


def run(plan, ctx):
    past = []

    def judge(n, op, args, dt, ctx):
        what, pos, ori = fleet.checked(ctx, n, op, args, dt)
        o = fleet.floats(ori if op['moved'] else args['o'])
        if not all(abs(c) < 1e9 for c in o):
            return
        angles = list(np.array(o)) if op['kind'] == 'array' else [number(c, op['kind']) for c in o]
        o = fleet.floats(angles)
        arm, w = op['arm'], fleet.floats(args['w'])
        what = f'op {n}: attitude {o}, arm {arm}'
        m = R.dr.get_rotation_matrix(*angles)
        tol = (1e-6 if op['kind'] == 'f32' else 4e-15) * (1 + size(arm)) * 4
        ctx.check(np.shape(m) == (3, 3), 'shape', lambda: f'{what}: {m!r}')
        want = fleet.rotate(*o, arm)
        fleet.near(ctx, times(m, arm), want, [tol] * 3, 'arm', what)
        # a target in the world, seen from the entity
        fleet.near(ctx, turned_back(m, want), arm, [tol * 2] * 3, 'seen from the body', what)
        fast = op['fast'] if op['kind'] != 'int' else 1
        spinning = [c * fast for c in w] if fast != 1 else args['w']
        s = R.dr.get_angular_velocity_matrix(spinning)
        ctx.check(np.shape(s) == (3, 3), 'shape', lambda: f'{what}: {s!r}')
        spin = cross(fleet.floats(spinning), arm)
        fleet.near(ctx, times(s, arm), spin, [1e-14 * (1 + size(w) * abs(fast) * size(arm))] * 3, 'spin',
                   f'{what}, turning at {spinning}')
        rate = size(w)
        c = abs(math.cos(o[1]))
        if c > .05 and rate and op['kind'] != 'f32' and op['kind'] != 'int':
            # the same part, followed for a moment by dead reckoning
            ctx.fault('rate')
            rate *= 3 / c
            h = 1e-4 / max(1.0, rate)
            alg = op['alg'] if op['alg'] in fleet.ROTATING else 'rpw'
            at = []
            for t in (h, -h):
                _, q = fleet.call(alg, dict(p=[0.0] * 3, v=[0.0] * 3, a=[0.0] * 3, o=o, w=args['w']), t)
                at.append(times(R.dr.get_rotation_matrix(*fleet.floats(q)), arm))
            got = [(x - y) / (2 * h) for x, y in zip(*at)]
            tol = 1e-6 * rate * size(arm) + 1e-9 + 1e-14 * size(arm) * (1 + max(map(abs, o))) / h
            fleet.near(ctx, got, times(m, [x / fast for x in times(s, arm)]), [tol] * 3, 'velocity of the part', f'{what}, turning at {w}')
        bits = [[float(x).hex() for x in r] for r in m], [[float(x).hex() for x in r] for r in s]
        past.append((what, angles, copy.copy(spinning), bits))
        for r in (m, s):                # the application turns them into something else
            try:
                r += 7.5
                ctx.fault('overwritten')
            except (TypeError, ValueError):
                pass
        for of, a, x, ref in (past[0], past[len(past) // 2], past[-1]):
            again = R.dr.get_rotation_matrix(*a), R.dr.get_angular_velocity_matrix(x)
            again = tuple([[float(x).hex() for x in r] for r in y] for y in again)
            ctx.check(again == ref, 'again', lambda: f'{of}: asked again at op {n} gives other matrices')
    fleet.Fleet(plan, ctx, judge).run()
