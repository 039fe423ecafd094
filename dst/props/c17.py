"""Captured PDUs read back from disk: the PDU, or an error, never something else;
and no file left open."""
import builtins
import errno
import io
import os
import shutil
import tempfile

from .. import bridge, core, model
from ..world import SENT, R, gen_size, pick_pdu, same

ID = 'C17'
PAST = False
RUNS = dict(quick=15000, thorough=450000)
MUST_FIRE = ('open-error', 'read-error', 'early-end', 'torn', 'lost', 'bitrot', 'trailing', 'crash', 'enospc')
RULE = ('A run records PDUs to files of a scratch directory through a disk that fills up, crashes with part of the '
        'file written, loses files or rots, and replays them by path through a disk whose open or n-th read fails; '
        'the oracle is the reference decoder applied to what the disk really holds, and the process\'s own list of '
        'open files.')
STATES = 'distinct (PDU class, disk fault, place)'
REAL = ['opendis.PduFactory.createPduFromFilePath', 'opendis.dis7', 'opendis.stream', 'files of a scratch directory']
STUB = ['failing disk (raw file layer under the real buffering)']

OPEN = {'EACCES': errno.EACCES, 'EMFILE': errno.EMFILE, 'EIO': errno.EIO, 'EINTR': errno.EINTR, 'ENOENT': errno.ENOENT}


def gen(rng, i):
    ops = []
    for k in range(rng.choice((1, 2, 4, 6))):
        v = model.gen(pick_pdu(rng, i, k, model.DISPATCHED), rng, gen_size(rng))
        n = len(model.encode(v))
        write = rng.choice((None, None, None, ['torn', rng.randrange(n)], ['torn', rng.choice((0, 0, 1, 2, 3, 12))], ['torn', max(0, n - 1 - rng.randrange(4))],
                            ['enospc', rng.randrange(n)], ['lost'], ['bitrot', rng.randrange(n), rng.randrange(8)],
                            ['trailing', rng.choice((1, 8, 200))], ['unknown', rng.choice((0, 8, 28, 200, 255))]))
        reads = []
        for _ in range(rng.choice((1, 2, 3))):
            reads.append(dict(path=rng.choice(('str', 'path', 'bytes')), fault=rng.choice(
                (None, None, ['open', rng.choice(sorted(OPEN))], ['read', rng.choice((0, 0, 0, 1)), 'EIO'],
                 ['read', 0, 'EINTR'], ['end', rng.randrange(n)], ['end', rng.randrange(n)]))))
        ops.append(dict(v=v, mode=rng.choice(SENT), write=write, reads=reads))
    return dict(ops=ops)


SHRINK_IN_OP = ('reads',)


class Raw(io.FileIO):
    """a file on the failing disk"""
    fault = None
    calls = 0
    fired = False

    def _hit(self):
        k, self.calls = self.calls, self.calls + 1
        f = self.fault
        if f and f[0] == 'read' and k == f[1]:
            Raw.fired = True
            if f[2] == 'EINTR':
                raise KeyboardInterrupt('simulated')
            raise OSError(errno.EIO, 'simulated I/O error')

    def _left(self):
        f = self.fault
        if f and f[0] == 'end':
            left = max(0, f[1] - self.tell())
            if left == 0:
                Raw.fired = True
            return left
        return None

    def readinto(self, b):
        self._hit()
        left = self._left()
        if left is None:
            return super().readinto(b)
        return super().readinto(memoryview(b)[:left])

    def readall(self):
        self._hit()
        left = self._left()
        if left is None:
            return super().readall()
        Raw.fired = True
        return super().read(left)

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        self._hit()
        left = self._left()
        return super().read(n if left is None else min(n, left))


class Disk:
    """open() while it fails"""

    def __init__(self, root, fault):
        self.root, self.fault, self.fired = root, fault, False

    def open(self, file, mode='r', *a, **k):
        try:
            mine = os.path.realpath(os.fsdecode(os.fspath(file))).startswith(self.root)
        except TypeError:
            mine = False
        if not mine or 'b' not in mode or any(c in mode for c in 'wxa+') or self.fault is None:
            return self.real(file, mode, *a, **k)
        if self.fault[0] == 'open':
            self.fired = True
            e = OPEN[self.fault[1]]
            raise OSError(e, os.strerror(e), file)
        raw = Raw(file, 'r')
        raw.fault = self.fault
        return raw if k.get('buffering') == 0 or a[:1] == (0,) else io.BufferedReader(raw)

    def __enter__(self):
        self.real = io.open
        Raw.fired = False
        io.open = builtins.open = self.open
        return self

    def __exit__(self, *_):
        io.open = builtins.open = self.real
        self.fired = self.fired or Raw.fired


def open_files():
    out = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            out.append(os.readlink('/proc/self/fd/' + fd))
        except OSError:
            pass
    return out


def put(path, data, fault, ctx):
    """the recorder writes data; what the disk holds afterwards"""
    try:
        with open(path, 'wb') as f:
            f.write(data)
    finally:
        pass
    if not fault:
        return
    k = fault[0]
    if k in ('torn', 'enospc'):
        os.truncate(path, fault[1])
        ctx.fault('torn' if k == 'torn' else 'enospc')
        ctx.fault('crash', k == 'torn')
    elif k == 'lost':
        os.unlink(path)
        ctx.fault('lost')
    elif k == 'bitrot':
        with open(path, 'r+b') as f:
            f.seek(fault[1])
            b = f.read(1)
            f.seek(fault[1])
            f.write(bytes([b[0] ^ 1 << fault[2]]))
        ctx.fault('bitrot')
    elif k == 'trailing':
        with open(path, 'ab') as f:
            f.write(b'\x5a' * fault[1])
        ctx.fault('trailing')
    elif k == 'unknown':
        with open(path, 'r+b') as f:
            f.seek(2)
            f.write(bytes([fault[1]]))
        ctx.fault('unknown-type')


def run(plan, ctx):
    root = os.path.realpath(tempfile.mkdtemp(prefix='dst-c17-'))
    try:
        work(plan, ctx, root)
    finally:
        shutil.rmtree(root)


def work(plan, ctx, root):
    import pathlib
    for n, op in enumerate(plan['ops']):
        path = os.path.join(root, f'{n}.raw')
        v = op['v']
        # recorded the way the documentation does: serialize into an open file
        with open(path, 'wb') as f:
            bridge.build(v, op['mode']).serialize(R.stream.DataOutputStream(f))
        with open(path, 'rb') as f:
            held = f.read()
        ctx.check(held == model.encode(v), 'recorded', f'op {n}: {v["__c"]} recorded as {held.hex()[:200]}')
        put(path, held, op['write'], ctx)
        try:
            with open(path, 'rb') as f:
                held = f.read()
        except OSError:
            held = None
        for m, rd in enumerate(op['reads']):
            fault = rd['fault']
            p = {'str': path, 'path': pathlib.Path(path), 'bytes': os.fsencode(path)}[rd['path']]
            what = f'op {n} read {m}: {v["__c"]}, disk {op["write"]}, then {fault}'
            obj = exc = None
            with Disk(root, fault) as d:
                try:
                    obj = R.factory.createPduFromFilePath(p)
                except (Exception, KeyboardInterrupt) as e:
                    exc = e
            left = [x for x in open_files() if x.startswith(root)]
            ctx.check(not left, 'left open', lambda: f'{what}: {left} still open after {exc!r}')
            ctx.log('read', n, m, v['__c'], str(op['write']), str(fault), d.fired, type(exc).__name__)
            data = held
            if d.fired:
                ctx.fault({'open': 'open-error', 'read': 'read-error', 'end': 'early-end'}[fault[0]])
                ctx.state(v['__c'], str(op['write'] and op['write'][0]), *fault)
                if fault[0] != 'end':
                    ctx.check(exc is not None, 'failure hidden', lambda: f'{what}: gave {obj!r}')
                    want = KeyboardInterrupt if fault[-1] == 'EINTR' and fault[0] == 'read' else OSError
                    ok = isinstance(exc, want) or isinstance(exc.__cause__ or exc.__context__, want)
                    ctx.check(ok, 'failure disguised', lambda: f'{what}: came out as {exc!r}')
                    exc = None
                    continue
                data = held[:fault[1]] if held is not None else None
            if data is None:
                ctx.check(isinstance(exc, FileNotFoundError) or isinstance(exc, OSError), 'missing file',
                          lambda: f'{what}: {exc!r}, {obj!r}')
                continue
            try:
                want = model.decode_pdu(data)
            except model.Reject:
                ctx.check(obj is None, 'damaged file', lambda: f'{what}: read as a {type(obj).__name__}')
                ctx.check(exc is not None, 'damaged file', lambda: f'{what}: reported as an unknown type')
                continue
            ctx.check(exc is None, 'file refused', lambda: f'{what}: {exc!r}')
            if want is None:
                ctx.check(obj is None, 'unknown file', lambda: f'{what}: read as a {type(obj).__name__}')
            else:
                same(ctx, want[0], obj, 'replayed', what)
        if held is not None:
            with open(path, 'rb') as f:
                ctx.check(f.read() == held, 'file changed', f'op {n}: reading changed the file')
        ctx.check(sorted(os.listdir(root)) == sorted(x for x in os.listdir(root) if x.split('.')[0].isdigit()),
                  'litter', f'op {n}: {os.listdir(root)}')
