"""C22: generated (vanity) keys own the address shown."""
import contextlib
import io
import multiprocessing
import os
import random
import re
import subprocess
import sys
import time

from vlib import gen, ref
from vlib.core import REPO, Violation

LEVEL = 'exploration'
QUOTA = {'quick': 480, 'thorough': 6000}
BUDGET = {'quick': 200, 'thorough': 800}
RULE = ('the generator is run for real: pairs in bulk (some with the operating system\'s randomness steered to special secrets), '
        'prefix searches with worker processes in this process (waiting shortened) and through the command line; every key shown is decoded by '
        'the reference and re-imported by the library; distinct = (entry point, prefix, cores, outcome)')
REQUIRED = ['pairs_checked', 'searches_checked', 'cli_runs_checked', 'invalid_prefixes_refused', 'steered_pairs']
ASSUMPTIONS = ['searches are for prefixes short enough to be found in seconds']

B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
WIF = re.compile(r'(?<![%s])[5KL][%s]{50,51}(?![%s])' % (B58, B58, B58))
ADDR = re.compile(r'(?<![%s])1[%s]{24,33}(?![%s])' % (B58, B58, B58))
LIMIT = 150


def setup(ctx):
    ctx.seen = set()


def prefix(rng, thorough):
    x = rng.random()
    if x < 0.15:
        return rng.choice(['', '1', '11', '1' + rng.choice(B58)])
    p = rng.choice(B58[1:])
    if rng.random() < 0.5:
        # two further characters are only cheap below Q (34 character addresses)
        p = rng.choice([c for c in B58[1:] if c < 'Q']) + rng.choice(B58)
    return ('1' if rng.random() < 0.5 else '') + p


BAD = ['0', 'O', 'I', 'l', ' ', '1l', '1 ', 'a0', 'O1', '1-', 'é', '１', '1a\n', '_', '1aI', 'bit0', '\0', '1.']


def directed(ctx):
    for i, p in enumerate(['1', '1a', 'b', '1Z', 'z', '11', 'Bi', '1Q', '2', '']):
        yield {'op': 'search', 'p': p, 'cores': ['all', 1, 2, '3', 0, -1, 10 ** 6, 'all', 8, 1][i]}
    for i, p in enumerate(['1a', '', 'k', '1', 'C2', '1x']):
        yield {'op': 'cli', 'p': p, 'cores': [None, None, '2', '1', 'all', '99'][i]}
    for p in BAD:
        yield {'op': 'bad', 'p': p, 'via': 'api'}
    for p in ('0', '1l'):
        yield {'op': 'bad', 'p': p, 'via': 'cli'}
    for k in gen.SPECIAL_KEYS:
        yield {'op': 'pairs', 'n': 1, 'steer': '%064x' % k}
        yield {'op': 'search', 'p': '1', 'cores': 1, 'steer': '%064x' % k}


def generate(rng, ctx):
    x = rng.random()
    if x < 0.72:
        return {'op': 'pairs', 'n': rng.choice([1, 20, 60]), 'steer': None}
    if x < 0.82:
        return {'op': 'pairs', 'n': 1, 'steer': '%064x' % gen.key_int(rng, ctx.dic)}
    if x < 0.94:
        return {'op': 'search', 'p': prefix(rng, ctx.thorough), 'cores': rng.choice(['all', 1, 2, 3, '4', 0, 7, 10 ** 6])}
    if x < 0.955:
        return {'op': 'cli', 'p': prefix(rng, ctx.thorough), 'cores': rng.choice([None, '1', '2', 'all', '0'])}
    p = list(prefix(rng, False) or '1')
    p.insert(rng.randint(0, len(p)), rng.choice('0OIl +/é\t'))
    return {'op': 'bad', 'p': ''.join(p), 'via': 'api'}


def check_pair(wif, addr, want, ctx, what):
    import bit
    if not isinstance(wif, str) or not isinstance(addr, str):
        raise Violation('%s gave %r' % (what, (wif, addr)), key='form')
    try:
        net, k, comp = ref.unwif(wif)
    except ref.RefError as e:
        raise Violation('%s shows the key %s which is not a WIF: %s' % (what, wif, e), key='wif')
    if net != 'main':
        raise Violation('%s: the key is for network %s' % (what, net), key='net')
    own = ref.p2pkh_addr(ref.pubkey(k, comp), 'main')
    if own != addr:
        raise Violation('%s: the key %s owns %s, but %s is shown' % (what, wif, own, addr), key='mismatch')
    got = bit.Key(wif).address
    if got != addr:
        raise Violation('%s: importing the key gives %s, but %s is shown' % (what, got, addr), key='import')
    if not addr.startswith(want):
        raise Violation('%s: %s does not start with %s' % (what, addr, want), key='prefix')
    return wif


def from_text(text, what):
    w, a = WIF.findall(text), ADDR.findall(text)
    if len(w) != 1 or len(a) != 1:
        raise Violation('%s printed %d keys and %d addresses: %r' % (what, len(w), len(a), text[-400:]), key='output')
    return w[0], a[0]


def wanted(p):
    return p if p.startswith('1') else '1' + p


def search_child(case, conn):
    real = time.sleep
    time.sleep = lambda s: real(min(s, 0.03))
    if case.get('steer'):
        # every process draws this secret first; its address starts with 1, as all do
        import coincurve.utils as cu
        draw = cu.__dict__.get('urandom')
        if draw is not None:
            todo = [bytes.fromhex(case['steer'])]
            cu.urandom = lambda n: todo.pop() if todo and n == 32 else draw(n)
    out = io.StringIO()
    try:
        from bit.keygen import generate_matching_address
        with contextlib.redirect_stdout(out):
            r = generate_matching_address(case['p'], case['cores'])
        conn.send(('ok', r, out.getvalue()))
    except BaseException as e:  # noqa
        conn.send(('exc', type(e).__name__, str(e)[:500]))
    conn.close()


def run_search(case):
    """Runs in a child process group of its own so that a search that never ends can be stopped."""
    mp = multiprocessing.get_context('fork')
    a, b = mp.Pipe(False)

    def target():
        os.setpgid(0, 0)
        search_child(case, b)

    p = mp.Process(target=target)
    p.start()
    b.close()
    try:
        if not a.poll(LIMIT):
            raise Violation('searching for %r with cores=%r gave no result in %d s' % (case['p'], case['cores'], LIMIT),
                            key='hang')
        try:
            return a.recv()
        except EOFError:
            raise Violation('searching for %r with cores=%r: the process ended without a result' % (
                case['p'], case['cores']), key='died')
    finally:
        p.join(2)
        try:
            os.killpg(p.pid, 9)
        except (ProcessLookupError, PermissionError):
            pass
        p.join(5)


def run_cli(args):
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8')
    p = subprocess.Popen([sys.executable, '-c', 'from bit.cli import bit; bit(prog_name="bit")', 'gen'] + args, env=env,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, cwd='/', text=True,
                         start_new_session=True)
    try:
        o, e = p.communicate(timeout=LIMIT)
    except subprocess.TimeoutExpired:
        o = e = None
    finally:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.wait()
    if o is None:
        raise Violation('bit gen %s gave no result in %d s' % (' '.join(args), LIMIT), key='hang')
    return p.returncode, o, e


@contextlib.contextmanager
def steered(secret):
    """The next 32 random bytes of the key library are ``secret``."""
    if secret is None:
        yield
        return
    import coincurve.utils as cu
    real = cu.__dict__.get('urandom')
    if real is None:
        yield
        return
    todo = [bytes.fromhex(secret)]
    cu.urandom = lambda n: todo.pop() if todo and n == 32 else real(n)
    try:
        yield
    finally:
        cu.urandom = real


def run(case, ctx):
    op = case['op']
    if op == 'pairs':
        from bit.keygen import generate_key_address_pair
        for _ in range(case['n']):
            with steered(case['steer']):
                r = generate_key_address_pair()
            w = check_pair(r[0], r[1], '1', ctx, 'generate_key_address_pair')
            ctx.obs('pairs_checked')
            if case['steer']:
                if ref.unwif(w)[1] == int(case['steer'], 16):
                    ctx.obs('steered_pairs')
            else:
                if w in ctx.seen:
                    raise Violation('the same key was generated twice', key='repeat')
                ctx.seen.add(w)
        ctx.shape(op, case['n'], case['steer'])
    elif op == 'search':
        what = 'generate_matching_address(%r, %r)' % (case['p'], case['cores'])
        r = run_search(case)
        if r[0] == 'exc':
            raise Violation('%s raised %s: %s' % (what, r[1], r[2]), key='exc:' + r[1])
        if r[1]:
            w, a = r[1][0], r[1][1]
        else:
            w, a = from_text(r[2], what)
        check_pair(w, a, wanted(case['p']), ctx, what)
        ctx.obs('searches_checked')
        if case.get('steer') and ref.unwif(w)[1] == int(case['steer'], 16):
            ctx.obs('steered_searches')
        ctx.shape(op, case['p'], case['cores'])
    elif op == 'cli':
        args = ([] if case['cores'] is None else ['--cores' if ctx.evals % 2 else '-c', case['cores']]) + [case['p']]
        code, o, e = run_cli(args)
        what = 'bit gen ' + ' '.join(args)
        if code != 0:
            raise Violation('%s exits with %d: %s' % (what, code, e[-600:]), key='cli')
        w, a = from_text(o, what)
        check_pair(w, a, wanted(case['p']), ctx, what)
        ctx.obs('cli_runs_checked')
        ctx.shape(op, case['p'], case['cores'])
    else:
        if case['via'] == 'cli':
            code, o, e = run_cli(['--', case['p']])
            if code == 0 or WIF.search(o):
                raise Violation('bit gen %r accepted the invalid prefix' % case['p'], key='bad-prefix')
        else:
            r = run_search({'p': case['p'], 'cores': 2})
            if r[0] != 'exc' or r[1] != 'ValueError':
                raise Violation('the invalid prefix %r was not refused with ValueError: %r' % (case['p'], r),
                                key='bad-prefix')
        ctx.obs('invalid_prefixes_refused')
        ctx.shape(op, case['p'])
