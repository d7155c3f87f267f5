"""Runner: workers, event counting, verdicts, replays, evidence, known findings."""
import ast
import glob
import hashlib
import importlib
import decimal
import json
import logging
import multiprocessing
import os
import random
import resource
import signal
import sys
import time as _time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BITDIR = os.path.join(REPO, 'bit')
KNOWN = os.path.join(VERIF, 'known-findings.txt')
OUT = os.environ.get('VERIF_OUT', VERIF)  # development: results of parallel runs elsewhere

real_time = _time.time
real_monotonic = _time.monotonic


class Violation(Exception):
    """The monitor saw the property broken.  ``key`` names the mechanism."""

    def __init__(self, msg, key=None, **detail):
        super().__init__(msg)
        self.msg, self.key, self.detail = msg, key, detail


class CaseTimeout(BaseException):
    pass


class HarnessError(Exception):
    pass


def jdump(o):
    def d(x):
        if isinstance(x, (bytes, bytearray)):
            return {'__b': bytes(x).hex()}
        if isinstance(x, (set, frozenset)):
            return sorted(x)
        if isinstance(x, decimal.Decimal):
            return {'__d': str(x)}
        return repr(x)

    return json.dumps(o, default=d, sort_keys=True)


def jload(s):
    def hook(d):
        if set(d) == {'__b'}:
            return bytes.fromhex(d['__b'])
        if set(d) == {'__d'}:
            return decimal.Decimal(d['__d'])
        return d

    return json.loads(s, object_hook=hook)


def known_findings():
    """Lines ``KNOWN-FINDING: property=<id> key=<key> <text>`` -> {(id, key): text}."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('KNOWN-FINDING: '):
                f = dict(p.split('=', 1) for p in line.split()[1:3])
                out[(f['property'], f['key'])] = ' '.join(line.split()[3:])
    return out


# ------------------------------------------------------------------ constants of the code under test
def code_constants():
    """Every number and short string literal in the current tree: seeds for boundary inputs."""
    ints, strs = set(), set()
    for f in sorted(glob.glob(os.path.join(BITDIR, '**', '*.py'), recursive=True)):
        try:
            tree = ast.parse(open(f, encoding='utf-8').read())
        except (SyntaxError, UnicodeDecodeError):
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant):
                v = n.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, int):
                    ints.add(v)
                elif isinstance(v, float) and abs(v) < 1e15:
                    ints.add(int(v))
                elif isinstance(v, str) and 0 < len(v) <= 12:
                    strs.add(v)
                elif isinstance(v, bytes) and 0 < len(v) <= 4:
                    ints.add(int.from_bytes(v, 'little'))
                    ints.add(int.from_bytes(v, 'big'))
            elif isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and isinstance(n.right, ast.Constant):
                a, b = n.left.value, n.right.value
                if isinstance(a, int) and isinstance(b, int):
                    try:
                        if isinstance(n.op, ast.Pow) and 0 <= b <= 64 and abs(a) <= 10 ** 6:
                            ints.add(a ** b)
                        elif isinstance(n.op, ast.Mult):
                            ints.add(a * b)
                        elif isinstance(n.op, ast.LShift) and 0 <= b <= 64:
                            ints.add(a << b)
                        elif isinstance(n.op, ast.Sub):
                            ints.add(a - b)
                        elif isinstance(n.op, ast.Add):
                            ints.add(a + b)
                    except Exception:
                        pass
    return {'ints': sorted(i for i in ints if 0 <= i < 2 ** 256), 'strs': sorted(strs)}


class Dict:
    """Boundary values: the code's own literals and a fixed list, each with its neighbours."""

    FIXED = [0, 1, 2, 3, 10, 16, 17, 50, 75, 76, 80, 100, 127, 128, 252, 253, 254, 255, 256, 257, 546, 999, 1000, 1001,
             1023, 1024, 32767, 32768, 65534, 65535, 65536, 65537, 10 ** 5, 10 ** 6, 2 ** 24, 2 ** 31 - 1, 2 ** 31,
             2 ** 32 - 2, 2 ** 32 - 1, 2 ** 32, 10 ** 8, 10 ** 9, 2 ** 40, 21 * 10 ** 14]

    def __init__(self, consts):
        self.consts = consts
        s = set()
        for c in list(consts['ints']) + self.FIXED:
            s.update((c - 1, c, c + 1))
        self.all = sorted(x for x in s if x >= 0)
        self._c = {}

    def within(self, lo, hi):
        k = (lo, hi)
        if k not in self._c:
            self._c[k] = [x for x in self.all if lo <= x <= hi] or [lo]
        return self._c[k]

    def pick(self, rng, lo, hi):
        """Half boundary values, half log-uniform."""
        if rng.random() < 0.5:
            return rng.choice(self.within(lo, hi))
        return self.logu(rng, lo, hi)

    @staticmethod
    def logu(rng, lo, hi):
        a, b = max(lo, 0).bit_length(), hi.bit_length()
        while True:
            bits = rng.randint(a, b)
            v = rng.getrandbits(bits) if bits else 0
            if bits:
                v |= 1 << (bits - 1)
            if lo <= v <= hi:
                return v


# ------------------------------------------------------------------ per worker context
class Ctx:
    def __init__(self, prop, tier, seed, idx, nworkers, consts):
        self.prop, self.tier, self.seed, self.idx, self.nworkers = prop, tier, seed, idx, nworkers
        self.rng = random.Random('%s/%s/%s/%s' % (prop, seed, tier, idx))
        self.dic = Dict(consts)
        self.consts = consts
        self.events = {}
        self.shapes = set()
        self.evals = 0
        self.samples = []
        self.viol = []
        self.harness = []
        self.lines = set()
        self.thorough = tier == 'thorough'
        self.deadline = None
        self.reached_quota = False

    def obs(self, kind, n=1):
        """Count ``n`` monitor observations of this kind."""
        self.events[kind] = self.events.get(kind, 0) + n

    def shape(self, *key):
        self.shapes.add(hashlib.blake2b(jdump(key).encode(), digest_size=8).hexdigest())


def start_line_monitor(ctx):
    """Records which lines of the code under test the workload executed (evidence only)."""
    m = getattr(sys, 'monitoring', None)
    if m is None:
        return
    tool = 4
    try:
        m.use_tool_id(tool, 'verif')
    except ValueError:
        return

    def on_line(code, line):
        if code.co_filename.startswith(BITDIR):
            ctx.lines.add((code.co_filename[len(BITDIR) + 1:], line))
        return m.DISABLE

    m.register_callback(tool, m.events.LINE, on_line)
    m.set_events(tool, m.events.LINE)


def stop_line_monitor():
    m = getattr(sys, 'monitoring', None)
    if m is not None:
        try:
            m.set_events(4, 0)
            m.free_tool_id(4)
        except ValueError:
            pass


def from_bit(exc):
    """True when the exception passed through the code under test."""
    tb = exc.__traceback__
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(BITDIR + os.sep):
            return True
        tb = tb.tb_next
    return False


CPU_LIMIT = 100


def _alarm(sig, frame):
    raise CaseTimeout('no result after %d s of CPU time' % CPU_LIMIT)


def _wall(sig, frame):
    raise CaseTimeout('no result; the library seems to wait for something')


def run_case(mod, case, ctx):
    """-> None or a dict describing a violation."""
    ctx.evals += 1
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT, CPU_LIMIT)
    wall = getattr(mod, 'WALL', 0)  # a deadlock uses no CPU time
    if wall:
        signal.signal(signal.SIGALRM, _wall)
        signal.setitimer(signal.ITIMER_REAL, wall, wall)
    try:
        try:
            mod.run(case, ctx)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            if wall:
                signal.setitimer(signal.ITIMER_REAL, 0)
    except Violation as v:
        return {'msg': v.msg, 'key': v.key, 'detail': v.detail, 'case': case}
    except CaseTimeout as e:
        return {'msg': 'non-termination: %s' % e, 'key': 'timeout', 'detail': {}, 'case': case}
    except HarnessError as e:
        ctx.harness.append('%s\n%s' % (e, traceback.format_exc()))
        return None
    except RecursionError as e:
        return {'msg': 'RecursionError: %s' % e, 'key': 'exc:RecursionError', 'detail': {}, 'case': case}
    except Exception as e:
        if from_bit(e):
            return {'msg': 'unexpected %s from the library on a legitimate request: %s' % (type(e).__name__, e),
                    'key': 'exc:' + type(e).__name__, 'detail': {'traceback': traceback.format_exc()[-3000:]},
                    'case': case}
        if unusable(e):
            return {'msg': 'the library returned something unusable: %s: %s' % (type(e).__name__, e), 'key': 'unusable',
                    'detail': {'traceback': traceback.format_exc()[-3000:]}, 'case': case}
        ctx.harness.append(traceback.format_exc())
    return None


def unusable(e):
    """A monitor stumbled over a missing or malformed result (never happens on results as documented)."""
    from .ref import RefError
    s = str(e)
    return (isinstance(e, RefError) or isinstance(e, (TypeError, AttributeError)) and ('NoneType' in s or 'should be a string or' in s) or
            isinstance(e, ArithmeticError) and type(e).__module__ == 'decimal' or
            isinstance(e, ValueError) and s.lower().startswith('invalid literal for'))


def load_check(prop):
    return importlib.import_module('checks.' + prop.lower())


def prepare_import():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    for v in ('HTTP_PROXY', 'HTTPS_PROXY', 'http_proxy', 'https_proxy', 'ALL_PROXY', 'all_proxy'):
        os.environ.pop(v, None)


def worker(prop, tier, seed, idx, nworkers, consts, deadline, conn):
    try:
        prepare_import()
        signal.signal(signal.SIGPROF, _alarm)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        logging.getLogger().handlers[:] = [logging.NullHandler()]
        ctx = Ctx(prop, tier, seed, idx, nworkers, consts)
        ctx.deadline = deadline
        mod = load_check(prop)
        start_line_monitor(ctx)
        mod.setup(ctx)
        import bit
        if not os.path.abspath(bit.__file__).startswith(REPO + os.sep):
            raise HarnessError('bit imported from %s, not %s' % (bit.__file__, REPO))
        quota = mod.QUOTA[tier]
        quota = quota // nworkers + (1 if idx < quota % nworkers else 0)
        seen = {}

        def handle(case):
            c = jload(jdump(case))
            v = run_case(mod, c, ctx)
            if v is not None:
                k = v['key'] or v['msg'][:60]
                seen[k] = seen.get(k, 0) + 1
                if seen[k] <= 1:
                    ctx.viol.append(v)
                    conn.send(('v', v))
            elif len(ctx.samples) < 2:
                ctx.samples.append(case)
            return v is None or v['key'] is not None and (prop, v['key']) in known

        known = known_findings()
        stop = False
        for n, case in enumerate(mod.directed(ctx)):
            if n % nworkers != idx:
                continue
            if not handle(case) or len(ctx.harness) > 3 or real_monotonic() > deadline:
                stop = True
                break
        n = 0
        while not stop and n < quota and real_monotonic() < deadline:
            n += 1
            if not handle(mod.generate(ctx.rng, ctx)):
                break
            if len(ctx.harness) > 3:
                break
        ctx.reached_quota = n >= quota
        if hasattr(mod, 'teardown'):
            mod.teardown(ctx)
        stop_line_monitor()
        conn.send(('done', {'events': ctx.events, 'shapes': list(ctx.shapes), 'evals': ctx.evals,
                            'samples': jload(jdump(ctx.samples[:2])), 'harness': ctx.harness[:3],
                            'lines': sorted(ctx.lines), 'quota': ctx.reached_quota}))
    except BaseException as e:  # noqa
        kind = 'import-violation' if from_bit(e) and not isinstance(e, (KeyboardInterrupt, ImportError)) else 'err'
        try:
            conn.send((kind, traceback.format_exc()))
        except Exception:
            pass
    finally:
        try:
            conn.close()
        finally:
            sys.stdout.flush()
            os._exit(0)


def main(prop, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    prepare_import()
    from vlib import ref
    if '--replay' in argv:
        return replay(prop, argv[argv.index('--replay') + 1], tier, seed)
    t0 = real_monotonic()
    ref.selftest()
    mod = load_check(prop)
    nworkers = min(getattr(mod, 'WORKERS', 8), int(os.environ.get('VERIF_WORKERS', '8')))
    consts = code_constants()
    budget = getattr(mod, 'BUDGET', {'quick': 150, 'thorough': 800})[tier]
    deadline = t0 + budget
    mp = multiprocessing.get_context('fork')
    procs = []
    for i in range(nworkers):
        a, b = mp.Pipe(False)
        p = mp.Process(target=worker, args=(prop, tier, seed, i, nworkers, consts, deadline, b))
        p.start()
        b.close()
        procs.append((p, a))
    viols, done, errs = [], [], []
    hard = deadline + CPU_LIMIT + 60
    open_conns = {a: p for p, a in procs}
    from multiprocessing.connection import wait
    while open_conns and real_monotonic() < hard:
        for c in wait(list(open_conns), timeout=5):
            try:
                kind, val = c.recv()
            except EOFError:
                if not open_conns[c] in [d[1] for d in done]:
                    errs.append('worker died without a result')
                open_conns.pop(c)
                continue
            if kind == 'v':
                viols.append(val)
            elif kind == 'done':
                done.append((val, open_conns[c]))
                open_conns.pop(c)
            elif kind == 'import-violation':
                viols.append({'msg': 'the library fails outside any request:\n' + val, 'key': 'exc:setup',
                              'detail': {}, 'case': None})
                open_conns.pop(c)
            else:
                errs.append(val)
                open_conns.pop(c)
    for c, p in open_conns.items():
        errs.append('worker hung')
        p.kill()
    for p, _ in procs:
        p.join(10)
        if p.is_alive():
            p.kill()
    # ---- merge
    events, shapes, evals, samples, harness, lines = {}, set(), 0, [], [], set()
    for d, _ in done:
        for k, v in d['events'].items():
            events[k] = events.get(k, 0) + v
        shapes.update(d['shapes'])
        evals += d['evals']
        samples += d['samples']
        harness += d['harness']
        lines.update(map(tuple, d['lines']))
    known = known_findings()
    real, hits = [], {}
    for v in viols:
        if (prop, v['key']) in known:
            hits[v['key']] = v
        else:
            real.append(v)
    per_file = {}
    for f, _ in lines:
        per_file[f] = per_file.get(f, 0) + 1
    cov = {
        'evaluations': evals,
        'distinct_nontrivial': len(shapes),
        'rule': mod.RULE,
        'samples': [json.loads(jdump(s)) if len(jdump(s)) < 2500 else jdump(s)[:2500] for s in samples[:4]],
        'monitor_observations': dict(sorted(events.items())),
        'library_lines_executed': dict(sorted(per_file.items())),
        'workers': nworkers,
        'workers_reaching_quota': sum(1 for d, _ in done if d['quota']),
        'code_literals_used_as_seeds': len(consts['ints']) + len(consts['strs']),
    }
    ev = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': mod.LEVEL,
        'coverage': cov,
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(real_monotonic() - t0, 2),
        'violations': len(real),
    }
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    for (p, k), text in known.items():
        if p == prop:
            print('KNOWN-FINDING: property=%s %s [%s]%s' % (p, text, k, '' if k in hits else ' (not hit in this run)'))
    if real:
        os.makedirs(os.path.join(OUT, 'replays'), exist_ok=True)
        for v in real[:10]:
            body = jdump(v)
            path = os.path.join(OUT, 'replays', '%s-%s.json' % (prop, hashlib.sha1(body.encode()).hexdigest()[:12]))
            with open(path, 'w') as f:
                f.write(body)
            print('  ' + v['msg'][:1500])
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if harness or errs:
        print('INCONCLUSIVE: the check itself failed:')
        for h in (harness + errs)[:4]:
            print(h)
        return 2
    need = getattr(mod, 'REQUIRED', [])
    missing = [k for k in need if not events.get(k)]
    if missing:
        print('INCONCLUSIVE: monitors never observed: %s' % ', '.join(missing))
        return 2
    print('%s held: %d executions, %d distinct, %.1f s; observed %s' % (
        prop, evals, len(shapes), real_monotonic() - t0, ', '.join('%s=%d' % i for i in sorted(events.items()))))
    return 0


def replay(prop, path, tier, seed):
    v = jload(open(path).read())
    signal.signal(signal.SIGPROF, _alarm)
    logging.getLogger().handlers[:] = [logging.NullHandler()]
    ctx = Ctx(prop, tier, seed, 0, 1, code_constants())
    mod = load_check(prop)
    mod.setup(ctx)
    r = run_case(mod, v['case'], ctx)
    for h in ctx.harness:
        print(h)
    if r:
        print(r['msg'])
        print(json.dumps(json.loads(jdump(r['detail'])), indent=1)[:6000])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('replay: the property held')
    return 0
