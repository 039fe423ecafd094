"""The shipped sender and receiver, as they are, on a simulated socket and clock."""
import io
import math
import os
import re
import socket as real_socket
import sys
import threading
import time as real_time
import types

from .. import bridge, core, model
from ..world import gen_size, pick_pdu
from .c15 import apart, euler, forward, matmul, ned

ID = 'C16'
PAST = False
RUNS = dict(quick=4000, thorough=100000)
BATCH = 25
MUST_FIRE = ('loss', 'duplicate', 'delay', 'truncate', 'garbage', 'bitflip', 'unknown', 'foreign', 'crash',
             'overflow', 'nowhere', 'big')
RULE = ('A run boots the example sender and receiver of the repository from their source on a simulated UDP socket '
        'and clock: datagrams are lost, repeated, late and damaged, other nodes send PDUs of other types, of unknown '
        'types, garbage and entities anywhere, the receiver\'s socket buffer overflows, both programs crash and are '
        'started again; then faults stop. The oracle is the reference decoder and forward map applied to what the '
        'sender sends and to what the receiver prints.')
STATES = 'distinct (datagram kind, class, receiver backlog)'
REAL = ['examples/dis_sender.py', 'examples/dis_receiver.py', 'opendis']
STUB = ['socket module', 'time module', 'network', 'process crash']
KNOWN = dict(
    none='receiver ended by a datagram that holds no PDU', unknown='receiver ended by a PDU of an unknown type',
    nowhere='receiver ended by an entity without a place on earth', big='receiver ended by a PDU of more than 1024 octets',
    labels='receiver prints roll as Yaw and yaw as Roll')
ASSUMES = ['the receiver\'s host drops datagrams that its socket buffer has no room for',
           'a crash of a program is the end of its thread at the call into socket or time where it waits',
           'a receiver that a known finding ends is started again by its operator a second later',
           'an entity whose location has no latitude (center of the earth, not finite) may be reported either way']
SHRINK = ('ops', 'crashes')


class Halt(BaseException):
    """the process is killed"""


class Program:
    """One example, running on a thread of its own that proceeds only while the
    simulator waits for it."""

    def __init__(self, world, name, path):
        self.world, self.name = world, name
        self.out, self.error, self.wants = io.StringIO(), None, None
        self.queue, self.port, self.killed, self.done, self.violation = [], None, False, False, None
        self.last, self.told = None, 0
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        with open(path) as f:
            self.code = compile(f.read(), path, 'exec')
        self.thread = threading.Thread(target=self.main, daemon=True)
        self.thread.start()

    def main(self):
        self.go.acquire()
        try:
            if not self.killed:
                exec(self.code, {'__name__': '__main__', '__file__': self.code.co_filename, '__builtins__': __builtins__})
        except Halt:
            pass
        except BaseException as e:      # noqa: BLE001
            self.error = e
        self.done = True
        self.back.release()

    def step(self):
        """let it run until it waits again"""
        modules = {k: sys.modules.get(k) for k in ('socket', 'time')}
        out = sys.stdout
        sys.modules.update(socket=self.socket_module(), time=self.time_module())
        sys.stdout = self.out
        try:
            self.go.release()
            self.back.acquire()
        finally:
            sys.stdout = out
            sys.modules.update(modules)
        if isinstance(self.error, core.Budget):
            raise self.error

    def wait(self, wants):
        """in the program's thread"""
        self.wants = wants
        self.back.release()
        self.go.acquire()
        if self.killed:
            raise Halt()

    def judged(self, fn, *args):
        """a judgement made in the program's thread is raised in the simulator's"""
        try:
            fn(*args)
        except core.Violation as e:
            self.violation = self.violation or e

    def kill(self):
        if not self.done:
            self.killed = True
            self.step()
        self.thread.join(20)

    # ------------------------------------------------- what the program imports
    def time_module(self):
        p, w = self, self.world
        m = types.ModuleType('time')
        m.sleep = lambda d: p.wait(('sleep', d))
        m.time = lambda: 1.75e9 + w.sim.now
        m.monotonic = m.perf_counter = lambda: 1000 + w.sim.now
        m.time_ns = lambda: int(m.time() * 1e9)
        m.monotonic_ns = m.perf_counter_ns = lambda: int(m.monotonic() * 1e9)
        m.__getattr__ = lambda n: getattr(real_time, n)
        return m

    def socket_module(self):
        p, w = self, self.world

        class Socket:
            def __init__(self, family=-1, kind=-1, proto=-1, fileno=None):
                self.timeout, self.peer = None, None

            def setsockopt(self, *a):
                pass

            def bind(self, address):
                p.port = address[1]

            def connect(self, address):
                self.peer = address

            def settimeout(self, t):
                self.timeout = t

            def close(self):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()

            def sendto(self, data, *a):
                p.judged(w.sent, p, bytes(data), a[-1])
                return len(data)

            def send(self, data):
                return self.sendto(data, self.peer)

            sendall = send

            def recvfrom(self, n, flags=0):
                if not p.queue:
                    p.wait(('recv', self.timeout))
                    if not p.queue:
                        raise real_socket.timeout('timed out')
                d = p.queue.pop(0)
                p.judged(w.taken, p, d)
                return d[1][:n], ('127.0.0.1', 40000)

            def recv(self, n, flags=0):
                return self.recvfrom(n)[0]

            def recvfrom_into(self, b, n=0, flags=0):
                d, a = self.recvfrom(n or len(b))
                b[:len(d)] = d
                return len(d), a

            def recv_into(self, b, n=0, flags=0):
                return self.recvfrom_into(b, n)[0]

        m = types.ModuleType('socket')
        m.socket = Socket
        m.__getattr__ = lambda n: getattr(real_socket, n)
        return m


def gen(rng, i):
    net = core.gen_net(rng)
    faults_end = rng.choice((4, 8, 15))
    ops = []
    for k in range(rng.choice((0, 2, 5, 12))):
        t = round(rng.uniform(0, faults_end), 6)
        r = rng.random()
        cfg = dict(net, padded=0)
        if r < .45:
            deg = rng.choice((.9, 1.55))
            at = [rng.uniform(-deg, deg), rng.uniform(-math.pi, math.pi), rng.choice((0.0, 1.0, rng.uniform(-300, 12000), rng.uniform(0, 9e5)))]
            lies = [rng.uniform(-math.pi, math.pi), rng.uniform(-1.5, 1.5), rng.uniform(-math.pi, math.pi)]
            v = model.gen('EntityStatePdu', rng, rng.choice((0, 1)))
            op = dict(k='foreign', v=v, at=at, lies=lies)
        elif r < .55:
            v = model.gen('EntityStatePdu', rng, 0)
            bad = [rng.choice((0.0, -0.0, math.nan, math.inf, -math.inf, 1e300, 1e-300, rng.uniform(-10, 10))) for _ in range(3)]
            v['entityLocation'].update(x=bad[0], y=bad[1], z=bad[2])
            op = dict(k='nowhere', data=model.encode(v))
        elif r < .75:
            v = model.gen(pick_pdu(rng, i, k, [c for c in model.DISPATCHED if c != 'EntityStatePdu']), rng,
                          gen_size(rng))
            op = dict(k='other', data=model.encode(v))
        elif r < .85:
            op = dict(k='unknown', data=bytes([7, 1, rng.choice((0, 200, 255)), 1]) + rng.randbytes(rng.choice((0, 8, 200))))
        elif r < .9:
            v = model.gen('EntityStatePdu', rng, 0)
            v['variableParameters'] = [model.gen('VariableParameter', rng, 0) for _ in range(rng.choice((60, 100, 255)))]
            at = [rng.uniform(-1.5, 1.5), rng.uniform(-math.pi, math.pi), 100.0]
            op = dict(k='foreign', v=v, at=at, lies=[0.5, 0.25, -1.0], big=True)
        else:
            op = dict(k='burst', n=rng.choice((6, 30)), v=model.gen('EntityStatePdu', rng, 0),
                      at=[.5, 1.5, 10.0], lies=[.1, .2, .3])
        op.update(t=t, fate=core.gen_fate(rng, cfg))
        ops.append(op)
    crashes = []
    for who in ('sender', 'receiver'):
        if rng.random() < .3:
            a = round(rng.uniform(0, faults_end), 6)
            crashes.append([who, a, round(a + rng.uniform(.1, 4), 6)])
    return dict(ops=ops, crashes=crashes, fates=[core.gen_fate(rng, net) for _ in range(faults_end + 6)],
                room=rng.choice((4, 8, 20)), end=faults_end + 6)


def place(op):
    """the PDU of an entity at a place, by the reference map"""
    v = model.from_json(model.to_json(op['v']))
    x, y, z = forward(*op['at'])
    m = matmul(ned(op['at'][0], op['at'][1]), euler(op['lies'][2], op['lies'][1], op['lies'][0]))
    theta = math.asin(max(-1.0, min(1.0, -m[2][0])))
    v['entityLocation'].update(x=x, y=y, z=z)
    o = v['entityOrientation']
    o.update(psi=model.f32(math.atan2(m[1][0], m[0][0])), theta=model.f32(theta),
             phi=model.f32(math.atan2(m[2][1], m[2][2])))
    return model.encode(v)


def field(text, label):
    m = re.search(r'\b' + label + r'\s*:\s*([-+0-9.einfa]+)', text, re.I)
    return float(m.group(1)) if m else None


class World:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.sim = core.Sim(ctx, horizon=plan['end'] + 26.0)
        self.net = core.Net(self.sim, ctx)
        self.programs, self.beats, self.all = {}, [], []
        self.current = None             # the datagram the receiver is at, and what it printed before
        self.accepted = self.reported = 0
        self.calm = 0
        self.swapped = None             # the known confusion of labels, once seen

    # -------------------------------------------------------------- processes
    def boot(self, name):
        if name in self.programs:
            return
        p = Program(self, name, os.path.join(bridge.REPO, 'examples', f'dis_{name}.py'))
        self.programs[name] = p
        self.all.append(p)
        self.ctx.log(f'{self.sim.now:.6f}', 'boot', name)
        if name == 'sender':
            self.beats = []
        self.advance(p)

    def crash(self, name):
        p = self.programs.pop(name, None)
        if p is None:
            return
        self.ctx.fault('crash')
        self.ctx.log(f'{self.sim.now:.6f}', 'crash', name)
        if name == 'receiver':
            self.judge(p)
        p.kill()

    def advance(self, p):
        if self.programs.get(p.name) is not p:
            return
        p.step()
        if p.violation:
            raise p.violation
        if p.name == 'receiver':
            if p.wants and p.wants[0] == 'sleep' or p.done:
                self.judge(p)
        if p.done and p.name == 'receiver' and self.known_end(p):
            return
        if p.done:
            e = p.error
            self.ctx.check(False, p.name + ' ended', f't={self.sim.now:.3f}: the example {p.name} ended with {e!r}')
        kind, d = p.wants
        if kind == 'sleep':
            self.ctx.check(isinstance(d, (int, float)) and d > 0, 'no wait', f'{p.name} sleeps {d!r}')
            self.sim.after(d, self.advance, p)
        elif d is not None:
            self.sim.after(d, self.wake, p, p.wants)
        else:
            p.blocked = True

    def known_end(self, p):
        """did it end by a datagram of a listed finding?  Then it is restarted"""
        if p.last is None:
            return False
        (meta, body, intact), taken = p.last
        try:
            v = model.decode_pdu(body)
            if v is None:
                why = 'unknown'
            elif len(body) > 1024:
                why = 'big'
            else:
                why = None
                if v[0]['__c'] == 'EntityStatePdu':
                    at = [v[0]['entityLocation'][c] for c in 'xyz']
                    r = math.hypot(*at)
                    if not 50e3 < r < 1e9:
                        why = 'nowhere'
        except model.Reject:
            why = 'none'
        if why is None or self.sim.now - taken > .1:
            return False
        text = p.out.getvalue()[p.told:]
        self.ctx.known(KNOWN[why], f't={self.sim.now:.3f}: {meta} {body[:100].hex()} ({len(body)} octets): {p.error!r} {text!r}')
        self.programs.pop('receiver')
        self.current = None
        self.sim.after(1, self.boot, 'receiver')
        return True

    def wake(self, p, wants):
        if p.wants is wants:
            self.advance(p)

    # -------------------------------------------------------------- the sender
    def sent(self, p, data, address):
        ctx, t = self.ctx, self.sim.now
        ctx.log(f'{t:.6f}', p.name, 'sends', data[:40].hex(), len(data))
        ctx.check(p.name == 'sender' and address == ('127.0.0.1', 3001), 'sender address', f'{p.name} sends to {address}')
        try:
            v = model.decode_pdu(data)
        except model.Reject as e:
            v = None
        ctx.check(v is not None and v[0]['__c'] == 'EntityStatePdu' and v[1] == len(data), 'sender datagram',
                  lambda: f't={t:.3f}: the sender sends {data.hex()}, no entity state')
        v = v[0]
        e = v['entityID']
        a = e['simulationAddress']
        ident = (e['entityNumber'], a['site'], a['application'])
        ctx.check(ident == (42, 17, 23), 'sender identity', f't={t:.3f}: {ident}')
        mark = bytes(v['marking']['characters'])
        ctx.check(mark.rstrip(b'\0') == b'Igor3d', 'sender marking', f't={t:.3f}: {mark}')
        ctx.check(model.encode(v) == data, 'sender datagram', f't={t:.3f}: {data.hex()}')
        p3 = [v['entityLocation'][c] for c in 'xyz']
        lat, lon = math.radians(36.6), math.radians(-121.9)
        d = math.dist(p3, forward(lat, lon, 1))
        ctx.check(d < 1e-2, 'sender place', f't={t:.3f}: {p3} is {d} m from Monterey')
        o = v['entityOrientation']
        off = apart(ned(lat, lon), euler(o['psi'], o['theta'], o['phi']))
        ctx.check(off < 1e-5, 'sender attitude', f't={t:.3f}: {o} is off by {off} from north and level')
        if self.beats:
            ctx.check(abs(t - self.beats[-1] - 1) < .01, 'sender pace', f'{t - self.beats[-1]} s between its states')
        self.beats.append(t)
        k = len(self.beats) - 1
        fate = self.plan['fates'][int(t)] if int(t) < len(self.plan['fates']) else [[.01, 'ok']]
        self.net.send('sender', data, {'receiver': fate}, ['sender', k])

    # ------------------------------------------------------------ the receiver
    def arrive(self, src, body, intact, what, meta):
        p = self.programs.get('receiver')
        if p is None or p.port != 3001:
            self.ctx.fault('lost-to-crash')
            return
        if len(p.queue) >= self.plan['room']:
            self.ctx.fault('overflow')
            return
        p.queue.append((meta, body, intact))
        if p.wants and p.wants[0] == 'recv':
            p.blocked = False
            self.advance(p)

    def taken(self, p, datagram):
        self.judge(p)
        p.wants = None
        p.last, p.told = (datagram, self.sim.now), p.out.tell()
        self.current = (p, datagram, p.out.tell())

    def judge(self, p):
        """what the receiver printed about one datagram"""
        cur, self.current = self.current, None
        if cur is None or cur[0] is not p:
            return
        _, (meta, body, intact), at = cur
        ctx, text = self.ctx, p.out.getvalue()[at:]
        text = text.split('Reading from socket')[0]
        ctx.log(f'{self.sim.now:.6f}', 'receiver', meta, body[:40].hex(), text)
        if p.killed or p.done:
            return
        what = f't={self.sim.now:.3f}: datagram {meta} ({body[:160].hex()}, {len(body)} octets) reported as {text!r}'
        try:
            v = model.decode_pdu(body)
        except model.Reject:
            v = False
        ctx.state(meta[0], v[0]['__c'] if v else v, len(p.queue))
        ident = field(text, 'Id')
        if not v or v[0]['__c'] != 'EntityStatePdu':
            ctx.check(ident is None, 'phantom entity', lambda: f'{what}, which is no entity state')
            if v:
                ctx.check(v[0]['__c'] in text, 'other PDU', lambda: f'{what}, which is a {v[0]["__c"]}')
            return
        v = v[0]
        number = v['entityID']['entityNumber']
        if ident is not None:
            ctx.check(ident == number, 'identity', lambda: f'{what}, entity {number}')
        if not intact or meta[0] == 'nowhere':
            return
        ctx.check(ident is not None, 'not reported', lambda: what)
        op = self.plan['ops'][meta[1]] if meta[0] != 'sender' else dict(
            at=[math.radians(36.6), math.radians(-121.9), 1.0], lies=[0.0, 0.0, 0.0])
        want = dict(Latitude=math.degrees(op['at'][0]), Longitude=math.degrees(op['at'][1]), Altitude=op['at'][2],
                    Roll=math.degrees(op['lies'][0]), Pitch=math.degrees(op['lies'][1]),
                    Yaw=math.degrees(op['lies'][2]))
        g = {k: field(text, k) for k in want}
        if self.swapped is None and None not in (g['Roll'], g['Yaw']):
            off = [abs((g[a] - want[b] + 180) % 360 - 180) for a, b in (('Roll', 'Roll'), ('Yaw', 'Yaw'), ('Roll', 'Yaw'),
                                                                        ('Yaw', 'Roll'))]
            tol = .0052 + 2e-4 / math.cos(op['lies'][1])
            if max(off[2:]) <= tol < max(off[:2]):
                ctx.known(KNOWN['labels'], what)
                self.swapped = True
            elif max(off[:2]) <= tol < max(off[2:]):
                self.swapped = False
        if self.swapped:
            want.update(Roll=want['Yaw'], Yaw=want['Roll'])
        for k, w in want.items():
            g = field(text, k)
            ctx.check(g is not None, k, lambda: f'{what}: no {k}')
            off = abs(g - w)
            if k != 'Altitude':
                off = min(off % 360, -off % 360)
            # two printed decimals (none for metres); angles went through 32-bit floats
            tol = .52 if k == 'Altitude' else .0052 if k in ('Latitude', 'Longitude') else .0052 + 2e-4 / math.cos(op['lies'][1])
            ctx.check(off <= tol, k, lambda: f'{what}: {k} {g}, it is {w}')
        self.reported += 1
        if meta[0] == 'sender' and self.sim.now > self.plan['end'] + 14:
            self.calm += 1

    def foreign(self, n, op):
        k = op['k']
        if k in ('foreign', 'burst'):
            data = place(op)
            if op.get('big'):
                self.ctx.fault('big')
        else:
            data = op['data']
        self.ctx.fault(k)
        if len(data) > 65507:           # more than a UDP datagram holds
            return
        for _ in range(op.get('n', 1)):
            self.net.send('other', data, {'receiver': op['fate']}, [k, n])

    def run(self):
        ctx, plan = self.ctx, self.plan
        self.net.join('receiver', self.arrive)
        self.sim.at(0, self.boot, 'receiver')
        self.sim.at(.05, self.boot, 'sender')
        for n, op in enumerate(plan['ops']):
            self.sim.at(op['t'], self.foreign, n, op)
        for who, a, b in plan['crashes']:
            self.sim.at(a, self.crash, who)
            self.sim.at(b, self.boot, who)
        try:
            self.sim.run()
            for name in ('sender', 'receiver'):
                ctx.check(name in self.programs and not self.programs[name].done, name + ' ended', f'{name} is gone')
            # faults ended at plan['end']; the backlog is drained 10 s later (20 datagrams, two a second)
            ctx.check(self.calm >= 10, 'no progress', f'{self.calm} reports of the sender in the last 12 s')
            ctx.probes['reports'] += self.reported
        finally:
            for p in self.all:
                p.kill()


def run(plan, ctx):
    World(plan, ctx).run()
