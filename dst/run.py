"""run.py check ID | replay FILE | plan ID INDEX | selftest [ID...]

check    many simulated runs of one property (VERIF_SEED, VERIF_TIER); writes
         evidence/ID.json; exit 0, or 1 with a VIOLATION line, or 2 when the
         harness itself went wrong
replay   runs a replay file in a fresh process; exit 1 when it fails as recorded
plan     prints the plan of one run of a check
selftest determinism: the same seeds, other processes, batch sizes, hash seeds
"""
import collections
import gc
import importlib
import json
import os
import pickle
import resource
import select
import signal
import subprocess
import sys
import time
import traceback

if os.environ.get('PYTHONHASHSEED') is None:
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-B'] + ['-OO'] * bool(sys.flags.optimize) + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
sys.setrecursionlimit(5000)

from dst import core, limits, model                             # noqa: E402

WORKERS = min(8, os.cpu_count() or 1)
STALL = 20.0            # a run that takes longer is looked at again, by steps
STEPS = 6_000_000       # lines of code under test one run may execute
LOOPS = 2_000_000       # times its loops may go round in one run
MOST = [0]
BARE = 12               # one run in so many is made in a process without assertions and docstrings (python -OO)
MEM = 6 << 30


def harness():
    """what the properties need from the code under test; imported late so that
    an import error of the tree is reported as such"""
    from dst import bridge
    return bridge


def load_prop(pid):
    harness()
    core.LISTED.update({s: w for p, s, w in findings() if p == pid.upper()})
    return importlib.import_module('dst.props.' + pid.lower())


# --------------------------------------------------------------- single runs
def repo_dirs():
    from dst import bridge
    return os.path.realpath(bridge.REPO) + os.sep


def blame(e):
    """does an exception that nobody expected come out of the code under test
    (or out of the bridge touching one of its objects)?"""
    base, tb, hit = repo_dirs(), e.__traceback__, None
    while tb:
        fn = tb.tb_frame.f_code.co_filename
        if os.path.realpath(fn).startswith(base):
            hit = f'{os.path.basename(fn)}:{tb.tb_frame.f_code.co_name}'
        elif fn.endswith('dst/bridge.py'):
            hit = hit or 'attribute access'
        tb = tb.tb_next
    return hit


def run_plan(mod, plan, ctx):
    """-> None or [sig, message]; harness exceptions propagate"""
    loops = limits.Loops(LOOPS)
    try:
        if plan.get('past'):
            from dst import past
            old = sys.gettrace()
            sys.settrace(None)
            past.live(plan['past'])
            sys.settrace(old)
            ctx.fault('past')
        try:
            with loops:
                mod.run(plan, ctx)
        finally:
            sys.settrace(None)
            MOST[0] = max(MOST[0], loops.n)
    except core.Violation as e:
        ctx.violation = [e.sig, e.msg]
    except core.Budget as e:
        if loops.n <= LOOPS:
            raise
        ctx.violation = ['no-progress', str(e)]
    except (Exception, KeyboardInterrupt) as e:
        where = blame(e)
        if where is None:
            raise
        ctx.violation = ['unexpected ' + type(e).__name__,
                         f'{type(e).__name__}: {str(e)[:300]} (in {where})']
    if ctx.violation:
        ctx.log('VIOLATION', ctx.violation[0])
    return ctx.violation


class Timer:
    """Budget after STALL seconds of one run (never decides a verdict)"""

    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        def on(*_):
            raise core.Budget()
        signal.signal(signal.SIGALRM, on)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_REAL, 0)


def count_steps(limit):
    """Budget after limit lines of the code under test, whatever the machine"""
    base = repo_dirs()
    left = [limit]

    def local(frame, event, arg):
        left[0] -= 1
        if left[0] < 0:
            raise core.Budget()
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(base) else None
    return glob


def in_child(fn, *args, timeout=120):
    """fn(*args) in a forked process; -> ('ok', result) | ('dead', reason)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 1
        try:
            os.setpgid(0, 0)
            resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
            out = pickle.dumps(fn(*args))
            mv = memoryview(out)
            while mv:
                mv = mv[os.write(w, mv[:1 << 16]):]
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stderr.flush()
            os._exit(code)
    os.close(w)
    buf, end = bytearray(), time.monotonic() + timeout
    while True:
        left = end - time.monotonic()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return 'dead', 'timeout'
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf += b
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    if st or not buf:
        return 'dead', f'status {st}'
    return 'ok', pickle.loads(bytes(buf))


def stepped(mod, plans):
    """the plans, the last one under the step budget"""
    for p in plans[:-1]:
        try:
            run_plan(mod, p, core.Ctx())
        except core.Budget:
            pass
    ctx = core.Ctx()
    glob = count_steps(getattr(mod, 'STEPS', STEPS))
    sys.settrace(glob)
    try:
        return run_plan(mod, plans[-1], ctx), ctx.digest()
    except core.Budget:
        return ['no-progress', f'still running after {getattr(mod, "STEPS", STEPS)} lines of the code under test'], ''
    finally:
        sys.settrace(None)


def sequence(mod, plans):
    """run the plans one after another; -> (violation of the last, its digest,
    its log)"""
    v = None
    for n, p in enumerate(plans):
        last = n == len(plans) - 1
        ctx = core.Ctx(keep_log=last)
        try:
            with Timer(STALL):
                v = run_plan(mod, p, ctx)
        except core.Budget:
            if last:
                v, d = stepped_child(mod, plans)
                return v, d, []
            continue
    return v, ctx.digest(), ctx.log_lines


def stepped_child(mod, plans):
    st, r = in_child(stepped, mod, plans, timeout=400)
    if st == 'dead':
        return ['no-progress', f'did not finish ({r})'], ''
    return r


def isolated(mod, plans):
    """sequence in a fresh process; violation or None; None too on any harness
    error (a shrunk plan may be nonsense)"""
    def go():
        devnull()
        try:
            return sequence(mod, plans)
        except Exception as e:          # noqa: BLE001
            return None, repr(e), []
    st, r = in_child(go, timeout=500)
    return r if st == 'ok' else (None, r, [])


def devnull():
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)


# ------------------------------------------------------------------- batches
def plan_of(mod, seed, i):
    plan = mod.gen(core.rng_of(mod.ID, seed, i), i)
    if getattr(mod, 'PAST', True):
        from dst import past
        p = past.gen(mod.ID, seed, i)
        if p:
            plan['past'] = p
    return plan


def batch(mod, seed, lo, hi, keep):
    gc.collect()
    gc.freeze()
    out = dict(runs=0, faults=collections.Counter(), probes=collections.Counter(), checks=0, simtime=0.0,
               states=set(), digests=[], nontrivial=set(), viol=None, err=None, samples=[])
    for i in range(lo, hi):
        ctx = core.Ctx(keep_log=i < keep)
        try:
            plan = plan_of(mod, seed, i)
            with Timer(STALL):
                v = run_plan(mod, plan, ctx)
        except core.Budget:
            v, _ = stepped_child(mod, [plan_of(mod, seed, k) for k in range(lo, i + 1)])
            if v is None:
                v = stepped_child(mod, [plan_of(mod, seed, i)])[0]
            out['probes']['slow-run'] += 1
        except Exception:               # noqa: BLE001
            out['err'] = f'run {i}:\n' + traceback.format_exc()
            break
        out['runs'] += 1
        out['faults'] += ctx.faults
        out['probes'] += ctx.probes
        out['checks'] += ctx.checks
        out['simtime'] += ctx.simtime
        out['states'] |= ctx.states
        out['loops'] = MOST[0]
        d = ctx.digest()
        out['digests'].append((i, d))
        if ctx.faults or ctx.probes.get('nontrivial'):
            out['nontrivial'].add(d)
        if ctx.log_lines is not None:
            out['samples'].append(dict(run=i, events=[s[:200] for s in ctx.log_lines[:12]],
                                       faults=dict(ctx.faults), digest=d))
        if v:
            out['viol'] = (i, v)
            break
    return out


def explore(mod, seed, total, size, wall, workers=WORKERS, keep=2):
    """-> totals; stops at the batch of the first violation (lowest index)"""
    t0 = time.monotonic()
    tot = dict(runs=0, faults=collections.Counter(), probes=collections.Counter(), checks=0, simtime=0.0,
               states=set(), digests={}, nontrivial=set(), viol=None, err=None, samples=[], capped=False,
               batches=0)
    todo = [(lo, min(lo + size, total)) for lo in range(0, total, size)]
    live, nxt = {}, 0
    while live or nxt < len(todo):
        while len(live) < workers and nxt < len(todo) and tot['viol'] is None and tot['err'] is None:
            if time.monotonic() - t0 > wall:
                tot['capped'] = True
                nxt = len(todo)
                break
            lo, hi = todo[nxt]
            nxt += 1
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 1
                try:
                    for k in live:
                        os.close(k)
                    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
                    mv = memoryview(pickle.dumps(batch(mod, seed, lo, hi, keep)))
                    while mv:
                        mv = mv[os.write(w, mv[:1 << 16]):]
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stderr.flush()
                    os._exit(code)
            os.close(w)
            live[r] = (pid, lo, hi, bytearray(), time.monotonic())
        if tot['viol'] is not None or tot['err'] is not None:
            nxt = len(todo)
        if not live:
            break
        ready = select.select(list(live), [], [], 5)[0]
        for r in list(live):
            pid, lo, hi, buf, began = live[r]
            if r in ready:
                b = os.read(r, 1 << 20)
                if b:
                    buf += b
                    continue
            elif time.monotonic() - began < 600:
                continue
            else:
                os.kill(pid, signal.SIGKILL)
            st = os.waitpid(pid, 0)[1]
            os.close(r)
            del live[r]
            if st or not buf:
                tot['err'] = tot['err'] or f'batch {lo}..{hi}: worker ended with status {st}'
                continue
            out = pickle.loads(bytes(buf))
            tot['batches'] += 1
            for k in ('runs', 'checks', 'simtime'):
                tot[k] += out[k]
            tot['loops'] = max(tot.get('loops', 0), out.get('loops', 0))
            for k in ('faults', 'probes'):
                tot[k] += out[k]
            tot['states'] |= out['states']
            tot['nontrivial'] |= out['nontrivial']
            tot['digests'].update(out['digests'])
            tot['samples'] += out['samples']
            if out['err']:
                tot['err'] = out['err']
            if out['viol'] and (tot['viol'] is None or out['viol'][0] < tot['viol'][0]):
                tot['viol'] = out['viol'] + (lo,)
    tot['explore_s'] = time.monotonic() - t0
    return tot


# ----------------------------------------------------------------- shrinking
def same(a, b):
    return a is not None and a[0] == b[0]


def shrink_list(xs, ok, min_len=0):
    """ddmin over a list; ok(candidate) -> still fails"""
    n = max(1, len(xs) // 2)
    while n >= 1 and len(xs) > min_len:
        k, changed = 0, False
        while k < len(xs):
            c = xs[:k] + xs[k + n:]
            if len(c) >= min_len and ok(c):
                xs, changed = c, True
            else:
                k += n
        if n == 1 and not changed:
            break
        n = n if changed and n == 1 else n // 2
    return xs


def simpler(v):
    """(apply) functions that each make one part of a plan simpler"""
    out = []

    def visit(x, put):
        if isinstance(x, dict):
            if '__c' in x and x['__c'] in model.SCHEMA:
                for k, y in model.simplify(x):
                    out.append((put, k, y, x))
                for k, y in x.items():
                    if isinstance(y, dict):
                        visit(y, lambda z, x=x, k=k: x.__setitem__(k, z))
                    elif isinstance(y, list):
                        for n, z in enumerate(y):
                            if isinstance(z, dict):
                                visit(z, lambda q, y=y, n=n: y.__setitem__(n, q))
                return
            for k, y in list(x.items()):
                visit(y, lambda z, x=x, k=k: x.__setitem__(k, z))
        elif isinstance(x, list):
            for n, y in enumerate(x):
                visit(y, lambda z, x=x, n=n: x.__setitem__(n, z))
    visit(v, None)
    return out


def shrink(mod, plans, viol, limit=75):
    end = time.monotonic() + limit
    tried = [0]

    def fails(ps):
        if time.monotonic() > end:
            return False
        tried[0] += 1
        return same(isolated(mod, ps)[0], viol)

    plans = [model.from_json(model.to_json(p)) for p in plans]
    if len(plans) > 1:
        head = shrink_list(plans[:-1], lambda h: fails(h + plans[-1:]))
        plans = head + plans[-1:]
    if plans[-1].get('past'):
        from dst import past
        for c in past.shorter(plans[-1]['past']):
            if fails(plans[:-1] + [dict(plans[-1], past=c)]):
                plans[-1]['past'] = c
                break
    for key in getattr(mod, 'SHRINK', ('ops',)):
        p = plans[-1]
        if isinstance(p.get(key), list):
            p[key] = shrink_list(p[key], lambda c, p=p, key=key: fails(plans[:-1] + [dict(p, **{key: c})]),
                                 getattr(mod, 'MIN', {}).get(key, 0))
    for key in getattr(mod, 'SHRINK_IN_OP', ()):
        for op in plans[-1]['ops']:
            if isinstance(op.get(key), list):
                old = op[key]

                def ok(c, op=op, key=key):
                    keep, op[key] = op[key], c
                    if fails(plans):
                        return True
                    op[key] = keep
                    return False
                op[key] = shrink_list(old, ok)
    if hasattr(mod, 'simpler_plans'):
        again = True
        while again and time.monotonic() < end:
            again = False
            for c in mod.simpler_plans(plans[-1]):
                if fails(plans[:-1] + [c]):
                    plans[-1], again = c, True
                    break
    again = True
    while again and time.monotonic() < end:
        again = False
        for put, k, y, x in simpler(plans[-1]):
            if k not in x or x[k] is y or x[k] == y:
                continue
            old = x[k]
            x[k] = y
            if fails(plans):
                again = True
            else:
                x[k] = old
            if time.monotonic() > end:
                break
    return plans, tried[0]


# -------------------------------------------------------------- known findings
def findings():
    """known_findings.txt -> [(property, signature, text)]"""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    for line in open(path):
        if line.startswith('known: '):
            head, what = line[7:].rstrip('\n').split(' :: ', 1)
            prop, sig = head.split(' ', 1)
            out.append((prop.split('=', 1)[1], sig.split('=', 1)[1], what))
    return out


# ------------------------------------------------------------------- commands
def report(pid, plans, viol, seed, index, log):
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    path = os.path.join('replays', f'{pid}-{seed}-{index}.json')
    with open(os.path.join(VERIF, path), 'w') as f:
        json.dump(dict(property=pid, verif_seed=seed, run=index, bare=bool(sys.flags.optimize), signature=viol[0], message=viol[1],
                       plans=[model.to_json(p) for p in plans], trace=log[-60:]), f, indent=1)
        f.write('\n')
    print(f'{pid}: {viol[0]}: {viol[1]}')
    for s in log[-12:]:
        print('   ', s[:200])
    print(f'VIOLATION property={pid} replay={path}', flush=True)


def bare(pid, seed, total, wall):
    """some more runs, in a process without assertions -> (runs, comparisons, exit code)"""
    n = max(8, total // BARE)
    env = dict(os.environ, VERIF_SEED=str(seed + 7_000_000), VERIF_RUNS=str(n), VERIF_WALL=str(max(20, wall / 5)))
    p = subprocess.run([sys.executable, '-B', '-OO', os.path.abspath(__file__), 'check', pid], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    lines = p.stdout.splitlines()
    if p.returncode == 0:
        did = json.loads(lines[-1])
        return did['runs'], did['checks'], 0
    print(f'{pid}: in a process without assertions (python -OO):')
    print('\n'.join(lines), flush=True)
    return n, 0, p.returncode


def check(pid):
    t0 = time.monotonic()
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    try:
        mod = load_prop(pid)
    except BaseException as e:          # noqa: BLE001
        traceback.print_exc()
        base = os.environ.get('VERIF_REPO', '/repo')
        print(f'{pid}: cannot import opendis from {base}: {e!r}')
        return 2
    total, size = mod.RUNS[tier], getattr(mod, 'BATCH', 40)
    if os.environ.get('VERIF_RUNS'):
        total = int(os.environ['VERIF_RUNS'])
    wall = float(os.environ.get('VERIF_WALL', 300 if tier == 'quick' else 2400))
    print(f'{pid} {tier} VERIF_SEED={seed}: {total} runs in batches of {size} on {WORKERS} processes', flush=True)
    code, known_hit, nviol = 0, [], 0

    # fixed plans that show the known findings, each in a process of its own
    listed = {(p, s): w for p, s, w in findings()}
    for plan in getattr(mod, 'known_plans', lambda: [])() if not sys.flags.optimize else []:
        v, _, log = isolated(mod, [plan])
        if v and (pid, v[0]) in listed:
            if v[0] not in known_hit:
                known_hit.append(v[0])
                print(f'KNOWN-FINDING: property={pid} {listed[pid, v[0]]}', flush=True)
        elif v:
            report(pid, [plan], v, seed, 'fixed', log)
            nviol, code = nviol + 1, 1
    tot = explore(mod, seed, total, size, wall)
    if tot['viol']:
        index, viol, lo = tot['viol']
        mid = list(range(lo, index + 1))
        plans = [plan_of(mod, seed, index)]
        v, _, _ = isolated(mod, plans)
        if not same(v, viol) and len(mid) > 1:
            plans = [plan_of(mod, seed, k) for k in mid]
            v, _, _ = isolated(mod, plans)
        for _ in range(6):              # code under test that is not deterministic itself
            if v:                       # it fails, if not in quite the same words
                break
            v, _, _ = isolated(mod, plans)
        if not v:
            print(f'{pid}: run {index} failed ({viol}) but does not fail again: harness error')
            return 2
        viol, whole = v, model.to_json(plans)
        plans, tried = shrink(mod, plans, viol)
        v, _, log = isolated(mod, plans)
        if not v:
            print(f'{pid}: the minimised plan of run {index} does not always fail; reporting it whole')
            plans = model.from_json(whole)
            for _ in range(12):
                v, _, log = isolated(mod, plans)
                if v:
                    break
            else:
                print(f'{pid}: run {index} failed ({viol}) but does not fail again: harness error')
                return 2
        print(f'{pid}: run {index} (seed {seed}) minimised in {tried} attempts')
        if (pid, v[0]) in listed:
            if v[0] not in known_hit:
                print(f'KNOWN-FINDING: property={pid} {listed[pid, v[0]]}', flush=True)
        else:
            report(pid, plans, v, seed, index, log)
            nviol, code = nviol + 1, 1
    elif tot['err']:
        print(f'{pid}: harness error\n{tot["err"]}')
        return 2
    elif tot['capped']:
        print(f'{pid}: wall cap reached after {tot["runs"]} of {total} runs')
        if tot['runs'] * 20 < total:
            print(f'{pid}: too few runs for an answer')
            return 2

    for k in sorted(tot['probes']):
        if k.startswith('known: '):
            known_hit.append(k[7:])
            print(f'KNOWN-FINDING: property={pid} {core.LISTED[k[7:]]}', flush=True)

    if sys.flags.optimize:
        print(json.dumps(dict(runs=tot['runs'], checks=tot['checks'])))
        return code
    if code == 0:
        more, compared, code = bare(pid, seed, total, wall)
        if code not in (0, 1):
            return 2
        nviol += code
        tot['checks'] += compared
        tot['faults']['host without assertions'] = more

    # determinism, checked in every check: some runs again, alone, in new processes
    again = mismatch = 0
    if code == 0:
        rng = core.rng_of('again', pid, seed)
        for i in sorted(rng.sample(sorted(tot['digests']), min(6, len(tot['digests'])))):
            v, d, _ = isolated(mod, [plan_of(mod, seed, i)])
            again += 1
            mismatch += d != tot['digests'][i]
    missing = [k for k in getattr(mod, 'MUST_FIRE', ()) if not tot['faults'].get(k) and not tot['probes'].get(k)]
    wall_s = time.monotonic() - t0
    ev = dict(
        property=pid, tier=tier, seed=seed, level='exploration', wall_s=round(wall_s, 2), violations=nviol,
        coverage=dict(
            evaluations=tot['runs'], distinct_nontrivial=len(tot['nontrivial']),
            rule='one evaluation is one simulated run made from one seed; it counts as non-trivial when at least '
                 'one fault, foreign event or schedule switch fired in it, and as distinct when the digest of '
                 'its whole event log is. ' + mod.RULE,
            samples=tot['samples'][:2] or [dict(note='no run completed')],
            oracle_comparisons=tot['checks'],
            runs_per_hour=int(tot['runs'] / max(tot['explore_s'], 1e-6) * 3600),
            most_loop_iterations_in_a_run=tot.get('loops', 0),
            simulated_seconds=round(tot['simtime'], 3),
            faults_injected=dict(sorted(tot['faults'].items())),
            probes=dict(sorted(tot['probes'].items())),
            probes_not_reached=missing,
            distinct_states=len(tot['states']), state_measure=getattr(mod, 'STATES', 'not measured'),
            distinct_event_logs=len(set(tot['digests'].values())),
            determinism=dict(runs_repeated_alone_in_a_new_process=again, logs_that_differed=mismatch),
            real_components=mod.REAL, stubbed_components=mod.STUB,
            known_findings_reproduced=len(known_hit), stopped_at_wall_cap=tot['capped']),
        assumptions=getattr(mod, 'ASSUMES', []))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', f'.{pid}.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
        f.write('\n')
    os.replace(tmp, os.path.join(VERIF, 'evidence', f'{pid}.json'))
    print(f'{pid}: {tot["runs"]} runs, {tot["checks"]} comparisons, {len(tot["nontrivial"])} distinct '
          f'non-trivial, {sum(tot["faults"].values())} faults, {wall_s:.1f}s'
          + (f', {mismatch} of {again} repeats differed' if mismatch else '')
          + (f', not reached: {missing}' if missing else ''), flush=True)
    return code


def replay(path):
    d = json.load(open(path))
    if d.get('bare') and not sys.flags.optimize:
        sys.stdout.flush()
        os.execv(sys.executable, [sys.executable, '-B', '-OO', os.path.abspath(__file__), 'replay', path])
    mod = load_prop(d['property'])
    st, (v, digest, log) = in_child(sequence, mod, [model.from_json(p) for p in d['plans']], timeout=600)
    for s in log or []:
        print('   ', s[:240])
    if v is None:
        print('the replay does not fail')
        return 0
    print(f'{v[0]}: {v[1]}')
    print('as recorded' if v[0] == d['signature'] else f'recorded was: {d["signature"]}')
    print(f'VIOLATION property={d["property"]} replay={path}')
    return 1


def selftest(ids):
    """same seeds: other worker counts, batch sizes, hash seeds -> same logs"""
    bad = 0
    if os.environ.get('DST_DIGESTS'):
        mod = load_prop(ids[0])
        n, size, workers, seed = (int(x) for x in os.environ['DST_DIGESTS'].split(','))
        t = explore(mod, seed, n, size, 1e9, workers=workers, keep=0)
        assert not t['err'], t['err']
        json.dump(t['digests'], sys.stdout)
        return 0
    for pid in ids or sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'props'))
                             if f[0] == 'c' and f.endswith('.py')):
        mod = load_prop(pid)
        n = max(24, min(480, mod.RUNS['quick'] // 20))
        ref, total = {}, 0
        for seed in (1, 2, 77):
            for size, workers, hs in ((40, 8, '0'), (7, 3, '1'), (1, 8, '4242'), (n, 1, '77')):
                env = dict(os.environ, PYTHONHASHSEED=hs, DST_DIGESTS=f'{n},{size},{workers},{seed}')
                r = subprocess.run([sys.executable, '-B', os.path.abspath(__file__), 'selftest', pid], env=env,
                                   capture_output=True, text=True)
                assert r.returncode == 0, r.stdout[-2000:] + r.stderr[-2000:]
                d = json.loads(r.stdout.splitlines()[-1])
                total += len(d)
                first = ref.setdefault(seed, d)
                diff = [k for k in first if first[k] != d.get(k)]
                if diff:
                    bad += 1
                    print(f'{pid}: seed {seed}: {len(diff)} of {n} logs differ at batch {size} workers {workers} '
                          f'hash seed {hs}: runs {diff[:10]}')
        print(f'{pid}: {total} runs compared', flush=True)
    return 2 if bad else 0


def main(a):
    if a[:1] == ['check'] and len(a) == 2:
        return check(a[1])
    if a[:1] == ['replay'] and len(a) == 2:
        return replay(a[1])
    if a[:1] == ['plan'] and len(a) == 3:
        mod = load_prop(a[1])
        plan = plan_of(mod, int(os.environ.get('VERIF_SEED', '1')), int(a[2]))
        print(json.dumps(model.to_json(plan), indent=1))
        v, d, log = isolated(mod, [plan])
        print('\n'.join(log))
        print(v, d)
        return 0
    if a[:1] == ['selftest']:
        return selftest(a[1:])
    print(__doc__)
    return 2


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:               # noqa: BLE001
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
