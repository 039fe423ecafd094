"""Seeds, the run context, simulated time, the simulated network.

A run is a pure function of its plan and the code under test.  A plan is made
from one seed, before the run, and names every decision: what each node does
and when, what the network does to each datagram, where each fault lands, which
thread runs next.  Nothing below draws random numbers or reads a real clock
while a run proceeds.
"""
import collections
import hashlib
import heapq
import random


def derive(*parts):
    """a 64-bit seed from the parts, the same everywhere"""
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], 'big')


def rng_of(*parts):
    return random.Random(derive(*parts))


class Violation(Exception):
    def __init__(self, sig, msg):
        super().__init__(f'{sig}: {msg}')
        self.sig, self.msg = sig, msg


class Budget(BaseException):
    """the step budget of a run is used up"""


LISTED = {}             # signature -> text of the known findings of the property


class Ctx:
    """What one run did: its event log, the faults that fired, what was reached."""

    def __init__(self, keep_log=False):
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.checks = 0
        self.simtime = 0.0
        self.log_lines = [] if keep_log else None
        self._h = hashlib.blake2b(digest_size=8)
        self.states = set()
        self.violation = None

    def log(self, *xs):
        s = ' '.join(x if isinstance(x, str) else repr(x) for x in xs)
        self._h.update(s.encode('utf-8', 'replace'))
        self._h.update(b'\n')
        if self.log_lines is not None:
            self.log_lines.append(s)

    def digest(self):
        return self._h.hexdigest()

    def state(self, *xs):
        self.states.add(derive(*xs) & 0xffffffff)

    def check(self, ok, sig, msg):
        self.checks += 1
        if not ok:
            raise Violation(sig, msg() if callable(msg) else msg)

    def known(self, sig, msg):
        """a listed finding is counted and the run goes on; an unlisted one ends it"""
        if sig not in LISTED:
            raise Violation(sig, msg)
        self.probes['known: ' + sig] += 1

    def fault(self, kind, n=1):
        self.faults[kind] += n


class Sim:
    """Discrete events in (time, sequence) order; time jumps to the next one."""

    def __init__(self, ctx, horizon=1e12):
        self.ctx, self.horizon = ctx, horizon
        self.now, self._seq, self._q = 0.0, 0, []

    def at(self, t, fn, *args):
        self._seq += 1
        heapq.heappush(self._q, (max(t, self.now), self._seq, fn, args))

    def after(self, d, fn, *args):
        self.at(self.now + d, fn, *args)

    def run(self, max_events=1_000_000):
        n = 0
        while self._q and n < max_events:
            t, _, fn, args = heapq.heappop(self._q)
            if t > self.horizon:
                break
            self.now = t
            fn(*args)
            n += 1
        self.ctx.simtime = max(self.ctx.simtime, self.now)
        return n


class Clock:
    """A node's own clock: skewed, drifting, sometimes jumping."""

    def __init__(self, sim, offset=0.0, drift=0.0):
        self.sim, self.offset, self.drift = sim, offset, drift

    def now(self):
        return self.sim.now * (1 + self.drift) + self.offset

    def jump(self, d):
        self.offset += d


# --------------------------------------------------------------- the network
# The fate of one datagram towards one node is a list of deliveries, each
# [delay, what, *args]; no deliveries means it is lost.
#   ok               delivered as sent
#   cut n            only the first n octets
#   flip pos bit     one bit inverted
#   set pos byte     one octet replaced
#   junk hex         something else entirely arrives in its place
#   pad hex          delivered with octets after its end
def gen_fate(rng, cfg):
    if rng.random() < cfg.get('loss', 0):
        return []
    d = [round(cfg.get('latency', .01) + rng.random() * cfg.get('jitter', .05), 6), 'ok']
    if rng.random() < cfg.get('reorder', 0):
        d[0] = round(d[0] + rng.random() * 3, 6)
    r = rng.random()
    if r < cfg.get('corrupt', 0):
        k = rng.randrange(4)
        if k == 0:
            d[1:] = ['cut', rng.random()]
        elif k == 1:
            d[1:] = ['flip', rng.random(), rng.randrange(8)]
        elif k == 2:
            d[1:] = ['set', rng.random(), rng.choice((0, 1, 127, 128, 255, rng.randrange(256)))]
        else:
            n = rng.choice((0, 1, 2, 3, 4, 11, 12, 13, 40, 144, rng.randrange(300)))
            d[1:] = ['junk', rng.randbytes(n).hex()]
    elif r < cfg.get('corrupt', 0) + cfg.get('padded', 0):
        d[1:] = ['pad', rng.randbytes(rng.choice((1, 2, 4, 8, 100))).hex()]
    out = [d]
    while rng.random() < cfg.get('dup', 0) and len(out) < 4:
        out.append([round(d[0] + rng.random() * 2, 6)] + d[1:])
    return out


NET_CALM = {}
NET_LOSSY = dict(loss=.15, dup=.15, reorder=.2)
NET_HOSTILE = dict(loss=.08, dup=.1, reorder=.2, corrupt=.3, padded=.05)


def gen_net(rng):
    """per-run swarm of fault kinds, so that most runs still make progress"""
    cfg = {}
    if rng.random() < .7:
        cfg['loss'] = rng.choice((.05, .15, .4))
    if rng.random() < .6:
        cfg['dup'] = rng.choice((.1, .3))
    if rng.random() < .6:
        cfg['reorder'] = rng.choice((.1, .4))
    if rng.random() < .5:
        cfg['corrupt'] = rng.choice((.1, .3))
    if rng.random() < .3:
        cfg['padded'] = .1
    return cfg


def damage(data, what, args):
    if what == 'ok':
        return data
    if what == 'cut':
        n = args[0]
        return data[:int(n * len(data)) if isinstance(n, float) else n]
    if what == 'flip':
        if not data:
            return data
        b = bytearray(data)
        b[min(int(args[0] * len(b)), len(b) - 1)] ^= 1 << args[1]
        return bytes(b)
    if what == 'set':
        if not data:
            return data
        b = bytearray(data)
        b[min(int(args[0] * len(b)), len(b) - 1)] = args[1]
        return bytes(b)
    if what == 'junk':
        return bytes.fromhex(args[0])
    if what == 'pad':
        return data + bytes.fromhex(args[0])
    raise AssertionError(what)


class Net:
    """Carries datagrams between nodes as their fates say."""

    def __init__(self, sim, ctx):
        self.sim, self.ctx, self.nodes = sim, ctx, {}
        self.cuts = []          # partitions: (from, to, set of nodes on one side)

    def join(self, name, handler):
        self.nodes[name] = handler

    def leave(self, name):
        self.nodes.pop(name, None)

    def send(self, src, data, fates, meta):
        ctx = self.ctx
        last = {}
        for dst, fate in fates.items():
            if not fate:
                ctx.fault('loss')
                ctx.log(f'{self.sim.now:.6f}', 'lost', src, dst, meta)
            if len(fate) > 1:
                ctx.fault('duplicate', len(fate) - 1)
            for d in fate:
                arrive = self.sim.now + d[0]
                if any(a <= self.sim.now < b and (src in side) != (dst in side)
                       for a, b, side in self.cuts):
                    ctx.fault('partition')
                    continue
                body = damage(data, d[1], d[2:])
                intact = body == data
                if not intact:
                    ctx.fault({'cut': 'truncate', 'flip': 'bitflip', 'set': 'octet', 'junk': 'garbage',
                               'pad': 'trailing'}[d[1]])
                self.sim.at(arrive, self._arrive, dst, src, body, intact, d[1], meta)
                if d[0] > 1:
                    ctx.fault('delay')

    def _arrive(self, dst, src, body, intact, what, meta):
        h = self.nodes.get(dst)
        if h is None:
            self.ctx.fault('lost-to-crash')
            self.ctx.log(f'{self.sim.now:.6f}', 'down', dst, meta)
            return
        h(src, body, intact, what, meta)
