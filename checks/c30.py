"""C30: what needs no network stays offline, the rest asks only for what is missing; nothing leaves a trace."""
import decimal
import gc
import io
import locale
import os
import json
import random
import signal
import socket
import sys
import threading

from vlib import gen, ref, txlab, world
from vlib.core import Violation
from checks import c01
from checks.c13 import FIAT, newfees, newprices
from checks.common import drain
from checks.netlab import SERVICES

LEVEL = 'exploration'
QUOTA = {'quick': 1500, 'thorough': 30000}
RULE = ('seeded requests of all wallet kinds with everything, or everything but the fee, the unspents or a fiat rate supplied, and '
        'everything keys, contracts and transactions can do offline, accepted and refused; a Python audit hook watches sockets, files '
        'and processes, the HTTP adapter every request, and the interpreter settings are compared before and after each call; '
        'distinct = (what was supplied, wallet, network, operation, outcome)')
REQUIRED = ['unusual_settings', 'empty_offers', 'offline_calls', 'offline_creations', 'offline_preparations', 'damaged_preparations', 'offline_cosignings', 'offline_failures', 'conversions', 'imports',
            'fee_only', 'rate_only', 'unspents_only', 'broadcast_only', 'balance_only', 'settings_compared', 'audit_alive', 'multisig']
ASSUMPTIONS = ['searching vanity addresses starts processes by design and is not included', 'reading files (lazy imports) is no trace',
               'logging may install its default handler', 'random is consumed, not seeded']
NATIVE = ['satoshi', 'ubtc', 'mbtc', 'btc']
EVENTS = ('socket.connect', 'socket.getaddrinfo', 'socket.gethostby', 'socket.sendto', 'socket.sendmsg', 'socket.bind', 'subprocess.Popen',
          'os.system', 'os.fork', 'os.exec', 'os.posix_spawn', 'os.spawn', 'os.startfile', 'os.remove', 'os.rename', 'os.mkdir', 'os.rmdir',
          'os.link', 'os.symlink', 'os.chmod', 'os.chown', 'os.truncate', 'os.utime', 'os.putenv', 'os.unsetenv', 'os.chdir', 'os.kill',
          'shutil.', 'tempfile.', 'urllib.Request', 'http.client.connect', 'smtplib.', 'ftplib.', 'sqlite3.connect', 'webbrowser.',
          'signal.pthread_kill')
SEEN = []
ON = [False]


def hook(event, args):
    if not ON[0]:
        return
    if event == 'open':
        mode, flags = args[1], args[2]
        w = isinstance(mode, str) and any(c in mode for c in 'wax+') or \
            isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_APPEND | os.O_TRUNC)
        if w:
            SEEN.append('open(%r, %r)' % (args[0], mode))
    elif event.startswith(EVENTS):
        SEEN.append('%s%r' % (event, args))


def setup(ctx):
    global W
    W = world.World().install()
    sys.addaudithook(hook)
    import bit  # noqa


def settings():
    c = decimal.getcontext()
    return {'decimal context': (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, tuple(sorted((str(k), v) for k, v in c.traps.items()))),
            'default socket timeout': socket.getdefaulttimeout(), 'recursion limit': sys.getrecursionlimit(),
            'working directory': os.getcwd(), 'environment': dict(os.environ), 'locale': locale.setlocale(locale.LC_ALL),
            'signal handlers': [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGCHLD)],
            'threads': sorted(t.ident for t in threading.enumerate()), 'switch interval': sys.getswitchinterval(),
            'garbage collector': (gc.isenabled(), gc.get_threshold()), 'streams': (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
            'alarm': signal.getitimer(signal.ITIMER_REAL)[1], 'integer digits': sys.get_int_max_str_digits(), 'path': list(sys.path),
            'excepthook': (id(sys.excepthook), id(threading.excepthook)), 'random': id(random.random)}


def directed(ctx):
    rng = random.Random('c30 %s' % ctx.seed)
    for src in ('offline', 'fee', 'unspents', 'fiat', 'send', 'view'):
        for net in ('main', 'test'):
            for spec in ('comp', 'uncomp', 'multi'):
                for kinds in ('l', 's', 'ls'):
                    if spec == 'uncomp' and kinds != 'l':
                        continue
                    for mode in ('direct', 'cold'):
                        c = c01.base(k=31, n=4, nout=2, kinds=kinds, net=net, amt=10 ** 7, comp=spec != 'uncomp')
                        if spec == 'multi':
                            c['w'] = {'kind': 'multi', 'net': net, 'ks': ['0x5', '0x6', '0x7'], 'm': 2, 'comp': [True] * 3,
                                      'signers': [0, 2], 'as_set': False}
                        c.update(src=src, mode=mode, fail=None, cur=FIAT[len(kinds)])
                        yield c
                        if src not in ('fee', 'view'):
                            # free of charge is a fee as well
                            yield dict(c, fee=0, abs=rng.random() < 0.5)


def generate(rng, ctx):
    c = gen.tx_case(rng, ctx, msg=0.3, rbf=0.2, big=rng.random() < 0.05, units=NATIVE, mode=rng.choice(['direct', 'cold']))
    del c['ups'][60:]
    if rng.random() < 0.08:
        c['fee'] = 0
    c['src'] = rng.choice(['offline', 'offline', 'offline', 'fee', 'unspents', 'fiat', 'send', 'view'])
    c['fail'] = rng.choice(['funds', 'address', 'network', 'unit', 'amount', 'leftover', 'nothing']) if rng.random() < 0.2 else None
    c['cur'] = rng.choice(FIAT)
    return c


def run(case, ctx):
    if case['rs'] % 2:
        return judge(case, ctx)
    # the same in a process that changed every setting from its default
    c = decimal.getcontext()
    old = (c.prec, c.rounding, c.capitals, sys.getrecursionlimit(), socket.getdefaulttimeout(), sys.getswitchinterval(), gc.get_threshold(),
           sys.get_int_max_str_digits())
    try:
        c.prec, c.rounding, c.capitals = 37, decimal.ROUND_HALF_UP, 0
        sys.setrecursionlimit(2345)
        socket.setdefaulttimeout(45)
        sys.setswitchinterval(0.004)
        gc.set_threshold(801, 11, 12)
        sys.set_int_max_str_digits(5001)
        ctx.obs('unusual_settings')
        return judge(case, ctx)
    finally:
        c.prec, c.rounding, c.capitals = old[:3]
        sys.setrecursionlimit(old[3])
        socket.setdefaulttimeout(old[4])
        sys.setswitchinterval(old[5])
        gc.set_threshold(*old[6])
        sys.set_int_max_str_digits(old[7])


def judge(case, ctx):
    rng = random.Random(case['rs'])
    src = case['src']
    fails = []
    ctl = {'n': 0, 'asked': 0}

    def watched(what, f, allow=lambda e: False, fine=()):
        """Performs f; anything it does to the outside that is not allowed is a violation."""
        W.log.clear()
        del SEEN[:]
        before = settings()
        ON[0] = True
        exc = r = None
        try:
            r = f()
        except Exception as e:
            exc = e
        finally:
            ON[0] = False
        seen = SEEN[:]
        after = settings()
        drain(W)
        if seen:
            raise Violation('%s did %s' % (what, seen[:3]), key='trace:' + seen[0].split('(')[0])
        for e in W.log:
            if not allow(e):
                raise Violation('%s asked %s (%s) although that was not needed' % (what, e['url'][:200], e['op']), key='request:' + src)
        if after != before:
            d = next(k for k in before if before[k] != after[k])
            raise Violation('%s changed the %s from %r to %r' % (what, d, before[d], after[d]), key='setting:' + d)
        ctx.obs('settings_compared')
        ctl['n'] += 1
        ctl['asked'] += len(W.log)
        if exc is not None:
            if not isinstance(exc, fine):
                raise exc
            fails.append(type(exc).__name__)
        return r

    W.faults, W.nodes, W.fee_fault, W.rate_fault = {}, {}, None, {}
    W.rates, W.fee = newprices(rng), newfees(rng)
    if rng.random() < 0.06 or src in ('fee', 'fiat'):
        # importing the library afresh (which also empties its caches)
        for m in [m for m in sys.modules if m == 'bit' or m.startswith('bit.')]:
            del sys.modules[m]
        watched('importing the library', lambda: __import__('bit'))
        ctx.obs('imports')
    import bit
    from bit.exceptions import InsufficientFunds
    from bit.network import NetworkAPI
    # the audit hook works
    ON[0] = True
    del SEEN[:]
    sys.audit('socket.connect', None, ('control', 0))
    ON[0] = False
    if not SEEN:
        from vlib.core import HarnessError
        raise HarnessError('audit hook does not see events')
    ctx.obs('audit_alive')

    w = watched('building the wallet', lambda: txlab.Wallet(case['w']))
    multi = case['w']['kind'] == 'multi'
    if multi:
        ctx.obs('multisig')
    led = W.led[w.net] = world.Ledger(w.net)
    for a, t, v, kind, conf, seq in case['ups']:
        led.fund(w.script[kind], a, t, v, conf)
    own = set(w.addr.values())
    kw, outs = txlab.kwargs(case), txlab.outputs(case)
    refusals = (InsufficientFunds,)
    if case['fail']:
        other = 'test' if w.net == 'main' else 'main'
        dest = gen.address(rng, w.net)
        bad = {'address': (dest[:-1] + ('1' if dest[-1] != '1' else '2'), 1000, 'satoshi'), 'network': (gen.address(rng, other), 1000, 'satoshi'),
               'funds': (dest, 21 * 10 ** 14, 'satoshi'), 'unit': (dest, 1, 'nothing'), 'amount': (dest, 'abc', 'btc')}.get(case['fail'])
        if bad:
            outs.append(bad)
        if case['fail'] == 'leftover':
            kw['leftover'] = 'nowhere'
        refusals = (Exception,)
    ups = w.unspents(case['ups'])
    if case['fail'] == 'nothing':
        ups = []
    fee_req = lambda e: e['op'] == 'fees'

    def looks(e):
        # (the height of the chain is needed to count confirmations)
        return e['service'] in SERVICES and e['net'] == w.net and e['op'] not in ('broadcast', 'rawtx') and (
            e['op'] == 'height' or any(a in e['url'] + e['body'] for a in own))

    allow, obs = (lambda e: False), None
    if src == 'fee':
        kw.pop('fee', None)
        kw.pop('absolute_fee', None)
        refusals += (InsufficientFunds,)
        allow, obs = fee_req, 'fee_only'
    elif src == 'unspents':
        allow, obs = looks, 'unspents_only'
    elif src == 'fiat':
        cur = case['cur']
        outs.insert(0, (gen.address(rng, w.net), rng.choice([100, '50.5', 200]), cur))
        allow, obs = (lambda e: e['op'] == 'rate:' + cur), 'rate_only'
    elif src == 'send':
        allow, obs = (lambda e: e['op'] == 'broadcast' and e['net'] == w.net), 'broadcast_only'
        refusals += (ConnectionError,)
    given = {} if src == 'unspents' else {'unspents': ups}
    if case['mode'] == 'cold':
        kw.setdefault('leftover', w.default_change(case['ups']))
    random.seed(case['rs'])
    h = None
    if src == 'view':
        b = w.first
        watched('get_balance', lambda: b.get_balance(rng.choice(NATIVE)), looks)
        watched('get_balance in ' + case['cur'], lambda: b.get_balance(case['cur']), lambda e: looks(e) or e['op'] == 'rate:' + case['cur'])
        watched('get_unspents', lambda: b.get_unspents(), looks)
        watched('get_transactions', lambda: b.get_transactions(), looks)
        ctx.obs('balance_only', ctl['asked'])
        watched('balance_as', lambda: [b.balance_as(u) for u in NATIVE])
        t = rng.choice(sorted(led.raw))
        watched('get_transaction_by_id', lambda: (NetworkAPI.get_transaction_by_id if w.net == 'main' else
                                                  NetworkAPI.get_transaction_by_id_testnet)(t),
                lambda e: e['op'] == 'rawtx' and t in e['url'] + e['body'])
        from bit.network import get_fee, get_fee_cached
        watched('get_fee', lambda: (get_fee(), get_fee(False), get_fee_cached(), get_fee_cached(False)), fee_req)
    elif src == 'send' and not multi:
        watched('send', lambda: w.first.send(outs, **given, **kw), allow, refusals)
    elif case['mode'] == 'cold' and src != 'unspents':
        if not multi:
            kw['compressed'] = case['w']['comp']
        p = watched('prepare_transaction (%s)' % src, lambda: type(w.first).prepare_transaction(w.addr['l'], outs, **given, **kw), allow, refusals)
        if p is not None:
            h = watched('sign_transaction (prepared)', lambda: w.first.sign_transaction(p))
            ctx.obs('offline_preparations')
            # the same text, damaged on the way to the machine without network
            d = json.loads(p)
            lost = dict(d)
            del lost[rng.choice(['unspents', 'outputs'])]
            part = json.loads(p)
            del part['unspents'][0][rng.choice(['txid', 'amount', 'script'])]
            other = json.loads(p)
            other['outputs'] = [[rng.choice(['nobody', '', None, 5]), 1000]] + other['outputs']
            for what, q in (('cut off', p[:rng.randrange(len(p))]), ('half of it', json.dumps(lost)), ('without a field', json.dumps(part)), ('to nobody', json.dumps(other))):
                watched('sign_transaction (prepared, %s)' % what, lambda: w.first.sign_transaction(q), fine=(Exception,))
            watched('sign_transaction (prepared, with unspents)', lambda: w.first.sign_transaction(p, unspents=rng.choice([[], w.unspents(case['ups'])])), fine=(Exception,))
            ctx.obs('damaged_preparations')
    else:
        h = watched('create_transaction (%s)' % src, lambda: w.first.create_transaction(outs, **given, **kw), allow, refusals)
        if h is not None and src == 'offline':
            ctx.obs('offline_creations')
    if obs:
        ctx.obs(obs, ctl['asked'])
    if fails:
        ctx.obs('offline_failures')
    if h is not None:
        for o in w.bits[1:]:
            h = watched('sign_transaction', lambda: o.sign_transaction(h, unspents=w.unspents(case['ups'])))
            ctx.obs('offline_cosignings')
        if not multi:
            watched('sign_transaction', lambda: w.first.sign_transaction(h, unspents=w.unspents(case['ups'])))
            ctx.obs('offline_cosignings')
        watched('sign_transaction (offering nothing)', lambda: rng.choice(w.bits).sign_transaction(h, unspents=[]))
        ctx.obs('empty_offers')
        from bit.transaction import calc_txid, deserialize
        watched('reading the transaction', lambda: (calc_txid(h), repr(deserialize(h)), deserialize(h).to_hex()))
    # everything else a key does
    b = w.first
    watched('describing', lambda: (repr(b), str(b), b.address, getattr(b, 'segwit_address', None), b.public_key,
                                   [repr(u) for u in ups], [u.to_dict() for u in ups], b == b, b in w.bits))
    data = rng.getrandbits(256).to_bytes(32, 'big') * rng.randint(1, 3)
    if not multi:
        def life():
            cls = type(b)
            s = b.sign(data)
            b.verify(s, data), b.verify(s, data + b'x')
            cls(b.to_wif()), cls.from_hex(b.to_hex()), cls.from_int(b.to_int()), cls.from_der(b.to_der()), cls.from_pem(b.to_pem())
            b.is_compressed(), bit.wif_to_key(b.to_wif()), cls(), b.public_point, b.to_bytes(), b.pub_to_hex()
            bit.verify_sig(s, data, b.public_key)
        watched('using a key', life)
    from bit.network import currency_to_satoshi, currency_to_satoshi_cached, satoshi_to_currency, satoshi_to_currency_cached
    n = rng.randint(1, 10 ** rng.randint(2, 15))

    def convert():
        for u in NATIVE:
            for f in (currency_to_satoshi, currency_to_satoshi_cached, satoshi_to_currency, satoshi_to_currency_cached):
                f(n, u)
            b.balance_as(u)
    watched('converting between bitcoin units', convert)
    ctx.obs('conversions')
    watched('refused input', lambda: bit.PrivateKey('5' * 51), fine=(Exception,))
    ctx.obs('offline_calls', ctl['n'])
    # random is not reseeded
    if src == 'offline' and not case['fail'] and not case['combine']:
        vals = []
        for s in (1, 2):
            random.seed(s)
            try:
                w.first.create_transaction(outs, unspents=w.unspents(case['ups']), **txlab.kwargs(case))
            except InsufficientFunds:
                pass
            vals.append(random.getrandbits(128))
        if vals[0] == vals[1]:
            raise Violation('creating a transaction leaves random in a fixed state', key='seed')
        drain(W)
    ctx.shape(src, case['w']['kind'], w.net, case['mode'], case['fail'], sorted(set(u[3] for u in case['ups'])), fails, case['combine'])
