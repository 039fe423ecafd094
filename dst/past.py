"""A past: what a node did before the run began, by the thousand and unobserved.

The run that follows is judged as any other, so that whatever the past left
behind in the code under test - counters, caches, tables - shows as a violation
of the property in hand."""
import math

from . import bridge, core, fleet, model
from .world import R, create, parse_into, pick_pdu, serialize

CHANCE = 250                            # one run in so many has one


def gen(pid, seed, i):
    rng = core.rng_of(pid, 'past', seed, i)
    if rng.randrange(CHANCE):
        return None
    names = [pick_pdu(rng, i, k, model.DISPATCHED) for k in range(rng.choice((1, 3, 6)))]
    if rng.random() < .4:               # what there is most of
        names[0] = 'EntityStatePdu'
    return dict(n=rng.choice((300, 1500, 6000, 12000, 12000)), v=[model.gen(n, rng, rng.choice((0, 0, 1))) for n in names],
                do=rng.choice(('pdus', 'pdus', 'places', 'motion', 'all')), vary=rng.choice((0, 1, 7)), s=fleet.gen_state(rng),
                algs=rng.sample(sorted(fleet.ALGS), 3))


def pdus(k, past, good):
    n = k % len(good)
    b = bytearray(good[n])
    x = k * past['vary']
    b[4:8] = (k * 65537 & 0xffffffff).to_bytes(4, 'big')
    b[12:16] = (x & 0xffffffff).to_bytes(4, 'big')
    if k % 11 == 5:
        del b[12 + k % (len(b) - 11):]
    elif k % 29 == 7:
        b[2] = 200
    try:
        if k % 5 == 3:
            obj = parse_into(bridge.blank(past['v'][n]['__c']), bytes(b))
        else:
            obj = create(bytes(b))
        if k % 3 == 0:
            serialize(obj)
    except Exception:                   # noqa: BLE001  damaged, and nobody looks
        pass


def places(k, past):
    x = (k * past['vary'] * .37) % 170 - 85
    g = R.geo.GPS() if k % 100 == 0 or 'gps' not in past else past['gps']
    past['gps'] = g
    p = g.llarpy2ecef(math.radians(x), math.radians(2 * x), 100.0 + k, .1, .2, .3)
    g.ecef2llarpy(*p)
    g.ned2pae(g.ecef2ned(p[:3], (6378137.0, 0.0, 0.0)))
    g.lla2utm((x * .9, x * 2, 10.0))


def motion(k, past):
    s = dict(past['s'])
    s['o'] = [s['o'][0] + k * past['vary'] * .001, s['o'][1], s['o'][2]]
    fleet.call(past['algs'][k % 3], s, k * .01)


def live(past):
    past = dict(past)
    good = [model.encode(v) for v in past['v']]
    do = past['do']
    for k in range(past['n']):
        try:
            if do in ('pdus', 'all'):
                pdus(k, past, good)
            if do == 'places' or do == 'all' and k % 8 == 0:
                places(k, past)
            if do == 'motion' or do == 'all' and k % 8 == 4:
                motion(k, past)
        except Exception:               # noqa: BLE001  as above
            pass


def shorter(past):
    """simpler pasts"""
    yield None
    for n in (100, 300, 1000, 3000):
        if n < past['n']:
            yield dict(past, n=n)
    if len(past['v']) > 1:
        for v in past['v']:
            yield dict(past, v=[v])
    if past['vary']:
        yield dict(past, vary=0)
