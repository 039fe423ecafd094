"""A quiet guest: the process that uses the library finds itself as it was."""
import atexit
import builtins
import contextlib
import ctypes
import decimal
import faulthandler
import gc
import io
import locale
import logging
import math
import os
import random
import resource
import signal
import socket
import struct
import sys
import tempfile
import threading
import time
import tracemalloc
import warnings

import numpy as np

from .. import bridge, core, fleet, model, work
from ..streams import ERRORS
from ..world import MODES, R
from . import c05

ID = 'C28'
RUNS = dict(quick=9000, thorough=480000)
MUST_FIRE = tuple(ERRORS) + ('truncate', 'garbage', 'missing-file', 'odd', 'shared-send', 'numpy-errors', 'gc-off', 'recursion',
                             'random', 'decimal', 'directory', 'umask', 'filters', 'no-stdout', 'locale', 'default-timeout',
                             'handler')
RULE = ('A run puts the settings of its process to values of the host\'s own, then encodes, decodes, reads files, '
        'converts coordinates and dead-reckons, with streams and files that fail; every result must be what it is under '
        'the usual settings, and after every operation, failed or not, the host must be as it was: settings of the '
        'interpreter, numpy, random numbers, signals, directories, files, threads, and nothing printed.')
STATES = 'distinct (operation, class, how it ended, settings)'
REAL = ['opendis.dis7', 'opendis.record', 'opendis.stream', 'opendis.PduFactory', 'opendis.RangeCoordinates',
        'opendis.DeadReckoning']
STUB = ['streams', 'terminal']
ASSUMES = ['what an operation sets for its own duration and puts back counts as untouched',
           'numpy may warn of numbers that are not finite as the host has set it']

SETTINGS = ('numpy-errors', 'gc-off', 'gc-threshold', 'recursion', 'switch', 'random', 'decimal', 'print-options',
            'directory', 'umask', 'filters', 'no-stdout', 'locale', 'default-timeout', 'handler', 'logging', 'environment',
            'digits', 'hooks')


# functions and the numbers they take (three for a vector)
ODD = (('ecef2lla', 3), ('ecef2llarpy', 6), ('ecef2ned', 6), ('ecef2pae', 6), ('ecef2utm', 3), ('lla2ecef', 3), ('lla2utm', 3),
       ('llarpy2ecef', 6), ('ned2ecef', 6), ('ned2pae', 3), ('utmLetterDesignator', 1), ('lla2gcc', 3), ('rotate_3x3', 4),
       ('static', 7), ('fpw', 7), ('rpw', 8), ('rvw', 8), ('fvw', 7), ('fpb', 8), ('rpb', 8), ('rvb', 9), ('fvb', 9))
VECTORS = dict(ecef2lla=(3,), ecef2ned=(3, 3), ecef2pae=(3, 3), ecef2utm=(3,), lla2ecef=(3,), lla2utm=(3,), ned2ecef=(3, 3),
               ned2pae=(3,), lla2gcc=(3,), rotate_3x3=(1, 3))


def odd(f, a):
    """coordinates and motions that are none"""
    if f in fleet.ALGS:
        a = [(a * 15)[3 * n:3 * n + 3] for n in range(5)]
        return fleet.call(f, dict(zip('pvaow', a)), a[4][0])
    out = []
    for n in VECTORS.get(f, (1,) * len(a)):
        out.append(a[0] if n == 1 else list(a[:n]))
        a = a[n:]
    return getattr(work.GPS, f)(*out)


def gen(rng, i):
    names = work.gen_names(rng, i)
    poses = work.gen_poses(rng)
    ops = []
    for _ in range(rng.choice((2, 4, 8))):
        r = rng.random()
        if r < .55:
            ops.append(dict(work.gen_op(rng, names, poses), n=rng.choice((1, 1, 2))))
            continue
        v = model.gen(rng.choice(names), rng, rng.choice((0, 1, 1, 2, 3)))
        size = len(model.encode(v))
        if r < .85:
            act = rng.choice(('write', 'read', 'create'))
            at = rng.randrange(size) if act == 'write' else rng.choice((rng.randrange(8), rng.randrange(40)))
            ops.append(dict(k='fail', v=v, mode=rng.choice(MODES), fault=[act, rng.choice(sorted(ERRORS)), at]))
        elif r < .93:
            bad = model.encode(v)
            bad = bad[:rng.randrange(size)] if rng.random() < .6 else bad[:12] + rng.randbytes(rng.randrange(60))
            ops.append(dict(k='bad', data=bad, how=rng.choice(('datagram', 'file', 'parse')), c=v['__c']))
        elif r < .97:
            f, n = rng.choice(ODD)
            ops.append(dict(k='odd', f=f, a=[rng.choice((1e6, -6.4e6, 0.0, 0.0, 1.5, float('nan'), float('inf'), -1e308, 5, 'a', None))
                                             for _ in range(n)]))
        else:
            ops.append(dict(k='missing'))
    shared = [dict(v=model.gen(rng.choice(names), rng, rng.choice((0, 1))), mode=rng.choice(MODES)) for _ in range(2)]
    return dict(ops=ops, shared=shared, host=sorted(rng.sample(SETTINGS, rng.choice((0, 3, 6, 12)))), x=rng.randrange(1000))


def anyone(*_):
    pass


def settle(names, x, tmp, undo):
    """the host sets up its process; undo collects the ways back"""
    def put(setter, old, new):
        undo.append(lambda: setter(old))
        setter(new)
    for s in names:
        if s == 'numpy-errors':
            how = ('raise', 'ignore', 'ignore', 'warn')
            undo.append(lambda old=np.geterr(): np.seterr(**old))
            np.seterr(divide=how[x % 4], over=how[x // 4 % 4], invalid=how[x // 16 % 4])
        elif s == 'gc-off':
            undo.append(gc.enable)
            gc.disable()
        elif s == 'gc-threshold':
            put(lambda t: gc.set_threshold(*t), gc.get_threshold(), (701 + x, 11, 12))
        elif s == 'recursion':
            put(sys.setrecursionlimit, sys.getrecursionlimit(), 700 + x * 4)
        elif s == 'switch':
            put(sys.setswitchinterval, sys.getswitchinterval(), .001 * (x + 1))
        elif s == 'random':
            undo.append(lambda a=random.getstate(), b=np.random.get_state(): (random.setstate(a), np.random.set_state(b)))
            random.seed(x)
            np.random.seed(x)
        elif s == 'decimal':
            put(decimal.setcontext, decimal.getcontext(), decimal.Context(prec=3 + x % 9))
        elif s == 'print-options':
            put(lambda o: np.set_printoptions(**o), np.get_printoptions(), dict(precision=1 + x % 7, suppress=True))
        elif s == 'directory':
            put(os.chdir, os.getcwd(), tmp)
        elif s == 'umask':
            put(os.umask, os.umask(0), x % 64)
        elif s == 'filters':
            warnings.simplefilter(('error', 'ignore', 'always')[x % 3], RuntimeWarning)
        elif s == 'no-stdout':
            sys.stdout = sys.stderr = None          # there is none, as in a windowed program or a daemon
        elif s == 'locale':
            undo.append(lambda old=locale.setlocale(locale.LC_ALL): locale.setlocale(locale.LC_ALL, old))
            with contextlib.suppress(locale.Error):
                locale.setlocale(locale.LC_ALL, ('C', 'C.UTF-8', 'POSIX')[x % 3])
        elif s == 'default-timeout':
            put(socket.setdefaulttimeout, socket.getdefaulttimeout(), 1.5 + x)
        elif s == 'handler':
            put(lambda h: signal.signal(signal.SIGUSR1, h), signal.getsignal(signal.SIGUSR1), anyone)
        elif s == 'logging':
            put(logging.getLogger().setLevel, logging.getLogger().level, 5 + x % 50)
        elif s == 'environment':
            os.environ['DST_HOST'] = str(x)
            undo.append(lambda: os.environ.pop('DST_HOST', None))
        elif s == 'digits':
            put(sys.set_int_max_str_digits, sys.get_int_max_str_digits(), 2000 + x)
        else:
            put(lambda h: setattr(sys, 'excepthook', h), sys.excepthook, anyone)


def table(m):
    return {k: id(x) for k, x in vars(m).items() if callable(x)}


LIMITS = [getattr(resource, n) for n in sorted(dir(resource)) if n.startswith('RLIMIT_')]


def host():
    """what there is to be disturbed"""
    mask = os.umask(0)
    os.umask(mask)
    s = np.random.get_state()
    log = logging.getLogger()
    return {
        'numpy error handling': np.geterr(), 'numpy error callback': np.geterrcall(), 'numpy buffer size': np.getbufsize(),
        'numpy print options': repr(sorted(np.get_printoptions().items(), key=str)),
        'numpy random state': (s[0], hash(s[1].tobytes()), s[2:]), 'random state': hash(random.getstate()),
        'recursion limit': sys.getrecursionlimit(), 'switch interval': sys.getswitchinterval(),
        'trace': sys.gettrace(), 'profile': sys.getprofile(), 'excepthook': sys.excepthook,
        'unraisablehook': sys.unraisablehook, 'displayhook': sys.displayhook, 'threading hook': threading.excepthook,
        'stdout': id(sys.stdout), 'stderr': id(sys.stderr), 'stdin': id(sys.stdin), 'sys.path': list(sys.path),
        'meta path': list(map(id, sys.meta_path)), 'path hooks': list(map(id, sys.path_hooks)),
        'digits': sys.get_int_max_str_digits(), 'dont_write_bytecode': sys.dont_write_bytecode, 'argv': list(sys.argv),
        'garbage collection': (gc.isenabled(), gc.get_threshold(), len(gc.callbacks), gc.get_debug()),
        'locale': locale.setlocale(locale.LC_ALL), 'decimal': repr(decimal.getcontext()), 'directory': os.getcwd(),
        'umask': mask, 'environment': dict(os.environ),
        'signals': {n: signal.getsignal(n) for n in signal.valid_signals()},
        'signal mask': signal.pthread_sigmask(signal.SIG_BLOCK, ()),
        'timers': (signal.getitimer(signal.ITIMER_VIRTUAL), signal.getitimer(signal.ITIMER_PROF)),
        'threads': sorted(t.name for t in threading.enumerate()), 'warning filters': list(map(repr, warnings.filters)),
        'logging': (log.level, list(map(id, log.handlers)), logging.root.manager.disable, logging.raiseExceptions),
        'default timeout': socket.getdefaulttimeout(), 'stack size': threading.stack_size(),
        'exit handlers': atexit._ncallbacks(), 'fault handler': faulthandler.is_enabled(),
        'tracing memory': tracemalloc.is_tracing(),
        'resource limits': [resource.getrlimit(r) for r in LIMITS], 'priority': os.getpriority(os.PRIO_PROCESS, 0),
        'cpus': os.sched_getaffinity(0), 'profilers of threads': (threading.gettrace(), threading.getprofile()),
        'generators': sys.get_asyncgen_hooks(),
        'time zone': time.tzname, 'open files': len(os.listdir('/proc/self/fd')),
    }


def modules():
    return {m.__name__: table(m) for m in (builtins, math, struct, io, os, sys, socket, time, random, ctypes, np, np.linalg,
                                            threading, warnings, decimal, locale)}


def run(plan, ctx):
    shared = [(bridge.build(o['v'], o['mode']), model.encode(o['v']), o['v']) for o in plan['shared']]
    alone = [work.expected(op) if op['k'] in ('geo', 'dr') else None for op in plan['ops']]
    undo = []
    out, err = sys.stdout, sys.stderr
    lines = io.StringIO()
    with tempfile.TemporaryDirectory(prefix='dst-c28-') as tmp, warnings.catch_warnings(), contextlib.ExitStack() as stack:
        stack.callback(lambda: [f() for f in reversed(undo)])
        try:
            sys.stdout = sys.stderr = lines
            settle(plan['host'], plan['x'], tmp, undo)
            for s in plan['host']:
                ctx.fault(s)
            made, before = modules(), host()
            for n, op in enumerate(plan['ops']):
                what, how = operate(plan, ctx, n, op, alone[n], shared, tmp)
                after = host()
                for k in before:
                    ctx.check(before[k] == after[k], 'host changed', lambda: (
                        f'op {n}: {what}, {how}: {k}: {before[k]!r:.300} became {after[k]!r:.300}'))
                said = [x for x in lines.getvalue().splitlines()
                        if op['k'] != 'odd' or 'Warning' not in x and x[:2] != '  ']
                ctx.check(not said, 'printed', lambda: f'op {n}: {what}, {how}: {said!r:.300}')
                lines.seek(lines.truncate(0))
                ctx.state(op['k'], op.get('v', {}).get('__c'), how, *plan['host'])
                ctx.log(n, op['k'], how)
            for m, names in modules().items():
                ctx.check(names == made[m], 'module changed', lambda: (
                    f'{m}: {sorted(k for k in set(names) | set(made[m]) if names.get(k) != made[m].get(k))}'))
        finally:
            sys.stdout, sys.stderr = out, err


def operate(plan, ctx, n, op, alone, shared, tmp):
    """-> what was done, how it ended"""
    k, path = op['k'], os.path.join(tmp, str(n))
    if k == 'fail':
        act, kind, at = op['fault']
        fired, _, _, exc, res, _, _ = c05.attempt(act, kind, at, op['v'], bridge.build(op['v'], op['mode']),
                                                  model.encode(op['v']))
        if fired:
            ctx.fault(kind)
        ctx.check(fired or exc is None, 'failed alone', lambda: f'op {n}: {exc!r}')
        return f'{act} of {op["v"]["__c"]} with {kind} at {at}', type(exc).__name__
    if k == 'odd':
        exc = None
        try:
            odd(op['f'], op['a'])
        except Exception as e:          # noqa: BLE001
            exc = e
        ctx.fault('odd')
        return f'{op["f"]} of {op["a"]}', type(exc).__name__
    if k in ('bad', 'missing'):
        exc = None
        try:
            if k == 'missing':
                ctx.fault('missing-file')
                R.factory.createPduFromFilePath(path)
            elif op['how'] == 'file':
                with open(path, 'wb') as f:
                    f.write(op['data'])
                R.factory.createPduFromFilePath(path)
            elif op['how'] == 'parse':
                bridge.blank(op['c']).parse(R.stream.DataInputStream(io.BytesIO(op['data'])))
            else:
                R.factory.createPdu(op['data'])
        except Exception as e:          # noqa: BLE001
            exc = e
        if k == 'bad':
            ctx.fault('truncate' if len(op['data']) < 12 else 'garbage')
        return f'{k} {op.get("how", "file")}', type(exc).__name__
    what = f'{k} {op.get("v", {}).get("__c", "")}'
    for m in range(op['n']):
        work.do(ctx, op, f'op {n} ({what}, settings {plan["host"]})', lambda: None, shared, alone, path + f'-{m}')
    return what, 'done'
