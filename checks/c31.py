"""C31: the same request gives the same result in every process, whatever its interpreter is set to."""
import gc
import json
import os
import random
import subprocess
import sys
import tempfile

from vlib import core, gen, ref, txlab, world
from vlib.core import HarnessError, Violation
from checks import netlab
from checks.c13 import FIAT, newfees, newprices

LEVEL = 'exploration'
QUOTA = {'quick': 90, 'thorough': 2500}
RULE = ('seeded batches of requests (transactions of all wallet kinds, contracts, keys, signatures, queries against a simulated network, refused '
        'requests) carried out in separate processes which differ in hash seed, optimisation, locale, time zone, clock, working '
        'directory, garbage collection, order of imports and order of requests; all results must be equal; distinct = (setting, kind of '
        'request, outcome)')
REQUIRED = ['processes', 'results_compared', 'transactions', 'multisig', 'cold', 'network_views', 'sends', 'refusals', 'hash_seeds', 'optimised', 'reordered',
            'locales', 'key_results', 'selected_coins', 'parsed', 'conversions']
ASSUMPTIONS = ['the random module is seeded before each request', 'requests whose result differs between two runs in one process (coins picked with '
               'true randomness) are not compared', 'decimal context as usual']
NATIVE = ['satoshi', 'ubtc', 'mbtc', 'btc']
FIRST = ['bit', 'bit.network', 'bit.transaction', 'bit.wallet', 'bit.network.services', 'bit.utils', 'bit.format', 'bit.network.rates', 'bit.keygen', 'bit.crypto',
         'bit.network.meta', 'bit.network.fees']


def setup(ctx):
    import bit  # noqa
    out = subprocess.run(['locale', '-a'], capture_output=True, text=True).stdout.split() if os.path.exists('/usr/bin/locale') else []
    global LOCALES
    LOCALES = sorted(set(out) | {'C', 'POSIX', 'C.UTF-8'})


def setting(rng):
    s = {'hash': rng.randrange(1, 2 ** 32), 'opt': rng.choice(['', '', '-O', '-OO']), 'locale': rng.choice(LOCALES),
         'utf8': rng.choice(['0', '1']), 'tz': rng.choice(['UTC', 'America/New_York', 'XYZ-14', 'XYZ+12']), 'clock': rng.choice([0, 0, 10 ** 6, 2 ** 31, -10 ** 8]),
         'gc': rng.choice(['on', 'off', 'often']), 'first': rng.choice(FIRST), 'order': rng.getrandbits(32), 'dev': rng.random() < 0.15,
         'recursion': rng.choice([None, None, 5000]), 'dir': rng.choice(['/', None])}
    return s


BASE = {'hash': 0, 'opt': '', 'locale': 'C.UTF-8', 'utf8': '1', 'tz': 'UTC', 'clock': 0, 'gc': 'on', 'first': 'bit', 'order': None, 'dev': False,
        'recursion': None, 'dir': None}


def item(rng, ctx):
    x = rng.random()
    rs = rng.getrandbits(32)
    if x < 0.45:
        c = gen.tx_case(rng, ctx, msg=0.3, rbf=0.2, units=NATIVE, mode=rng.choice(['direct', 'direct', 'cold']))
        del c['ups'][40:]
        if rng.random() < 0.15:
            c['outs'].append(rng.choice([['nowhere', 1, 'satoshi', 1], [gen.address(rng, 'main'), 'x', 'btc', 1], [gen.address(rng, 'test'), 1, 'furlong', 1]]))
        return ['tx', c]
    if x < 0.6:
        n = rng.randint(1, 15)
        return ['contract', [hex(rng.randrange(1, ref.N)) for _ in range(n)], rng.randint(1, n), rng.choice(['main', 'test']), rng.random() < 0.7,
                [rng.random() < 0.8 for _ in range(n)], rng.choice(['hex', 'bytes'])]
    if x < 0.75:
        return ['key', hex(rng.randrange(1, ref.N)), rng.choice(['main', 'test']), rng.random() < 0.7, rng.getrandbits(8 * rng.randint(1, 60)).to_bytes(60, 'big').hex()]
    if x < 0.95:
        return ['net', hex(rng.randrange(1, ref.N)), rng.choice(['main', 'test']), rng.choice([0, 1, 5, 12, 30]), rng.choice([0, 1, 4]), rs,
                rng.choice(FIAT)]
    return ['convert', rng.randint(1, 10 ** 14), rng.choice(FIAT), rs]


def directed(ctx):
    rng = random.Random('c31 %s' % ctx.seed)
    for over in ({'opt': '-O'}, {'opt': '-OO'}, {'locale': 'C', 'utf8': '0'}, {'gc': 'often'}, {'clock': 2 ** 31}, {'dev': True}, {'tz': 'XYZ-14'}):
        yield {'market': rng.getrandbits(32), 'items': [item(rng, ctx) for _ in range(12)], 'with': [dict(BASE, hash=rng.randrange(1, 2 ** 32), **over)]}
    for first in FIRST:
        yield {'market': rng.getrandbits(32), 'items': [item(rng, ctx) for _ in range(4)], 'with': [dict(BASE, first=first, hash=rng.randrange(1, 2 ** 32))]}


def generate(rng, ctx):
    return {'market': rng.getrandbits(32), 'items': [item(rng, ctx) for _ in range(rng.choice([8, 16, 24]))], 'with': [setting(rng) for _ in range(2)]}


# ------------------------------------------------------------------ in the process under observation
def perform(it, W, again=False):
    import bit
    from bit.network import NetworkAPI, currency_to_satoshi, currency_to_satoshi_cached, satoshi_to_currency, get_fee
    kind = it[0]
    if kind == 'tx':
        c = it[1]
        r = txlab.execute(c)
        if r.exc is not None:
            return ['refused', type(r.exc).__name__]
        from bit.transaction import deserialize, calc_txid
        t = deserialize(r.hex)
        if r.prepared:
            # a prepared transaction brings its unspents along
            try:
                r.steps = [r.steps, r.wallet.first.sign_transaction(r.prepared, unspents=r.wallet.unspents(c['ups']))]
            except Exception as e:
                r.steps = [r.steps, type(e).__name__]
        return [r.prepared, r.steps, calc_txid(r.hex), repr(t), t.to_hex(), [repr(u) for u in r.wallet.unspents(c['ups'])]]
    if kind == 'contract':
        _, ks, m, net, as_set, comp, enc = it
        pubs = [ref.pubkey(int(k, 16), c) for k, c in zip(ks, comp)]
        given = pubs if enc == 'bytes' else [p.hex() for p in pubs]
        cls = bit.MultiSig if net == 'main' else bit.MultiSigTestnet
        w = cls(txlab.bit_key(int(ks[0], 16), comp[0], net), set(given) if as_set else given, m)
        return [w.address, w.segwit_address, w.redeemscript.hex(), [p.hex() for p in w.public_keys], w.scriptcode.hex(), repr(w)]
    if kind == 'key':
        _, k, net, comp, data = it
        b = txlab.bit_key(int(k, 16), comp, net)
        data = bytes.fromhex(data)
        s = b.sign(data)
        return [b.address, getattr(b, 'segwit_address', None), b.to_wif(), b.to_hex(), b.to_int(), b.to_pem().hex(), b.to_der().hex(), b.public_key.hex(),
                s.hex(), b.verify(s, data), b.verify(s, data + b'x'), repr(b), b.is_compressed(), type(b)(b.to_wif()).address, b.pub_to_hex()]
    rng = random.Random(it[-2] if kind == 'net' else it[-1])
    W.fee_fault, W.rate_fault, W.faults = None, {}, {}
    W.log.clear()
    if kind == 'convert':
        _, n, cur, _ = it
        return [currency_to_satoshi(n, cur), satoshi_to_currency(n, cur), [satoshi_to_currency(n, u) for u in NATIVE], currency_to_satoshi(n % 1000, 'btc')]
    _, k, net, n, unc, _, cur = it
    b = txlab.bit_key(int(k, 16), True, net)
    led = W.led[net] = world.Ledger(net)
    netlab.populate(led, ref.script_for(b.address), rng, n, unc, 2, 0)
    netlab.populate(led, ref.script_for(b.segwit_address), rng, min(n, 5), unc, 1, 1)
    suf = '' if net == 'main' else '_testnet'
    api = lambda name, a: getattr(NetworkAPI, name + suf)(a)
    out = [b.get_balance(), [repr(u) for u in b.get_unspents()], b.get_transactions(), b.balance_as('btc'), b.get_balance(cur),
           api('get_balance', b.address), [repr(u) for u in api('get_unspent', b.address)], api('get_transactions', b.address), get_fee(), get_fee(False)]
    tot = sum(v[0] for v in led.utxo.values())
    W.log.clear()
    if tot > 10 ** 5:
        random.seed(7)
        txid = b.send([(b.address, tot // 3, 'satoshi')], fee=tot // 4, absolute_fee=True, combine=True, replace_by_fee=True)
        out.append([txid, [e['raw'] for e in W.log if e['op'] == 'broadcast']])
    return out


def child():
    spec = core.jload(sys.stdin.read())
    s = spec['setting']
    core.prepare_import()
    if s['clock']:
        import time
        real = time.time
        time.time = lambda: real() + s['clock']
    if s['gc'] == 'off':
        gc.disable()
    elif s['gc'] == 'often':
        gc.set_threshold(30, 2, 2)
    if s['recursion']:
        sys.setrecursionlimit(s['recursion'])
    import importlib
    import logging
    logging.getLogger().handlers[:] = [logging.NullHandler()]
    importlib.import_module(s['first'])
    import bit
    if not os.path.abspath(bit.__file__).startswith(core.REPO + os.sep):
        raise SystemExit('bit imported from %s' % bit.__file__)
    W = world.World().install()
    market = random.Random(spec['market'])  # (the same for all requests: rates are cached)
    W.rates, W.fee = newprices(market), newfees(market)
    order = list(range(len(spec['items'])))
    if s['order'] is not None:
        random.Random(s['order']).shuffle(order)
    out = [None] * len(order)
    for i in order:
        it = spec['items'][i]
        res = []
        for _ in range(2):
            random.seed(i)
            try:
                r = perform(it, W)
            except Violation as e:
                r = ['violation', e.msg]
            except Exception as e:
                if not core.from_bit(e):
                    raise
                r = ['refused', type(e).__name__]
            res.append(core.jdump(r))
        if W.harness_errors:
            raise SystemExit(W.harness_errors[0])
        out[i] = res
    sys.__stdout__.write('\nRESULT ' + json.dumps(out) + '\n')


def launch(items, s, market):
    env = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'LC_', 'LANG'))}
    env.update(PYTHONHASHSEED=str(s['hash']), PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8=s['utf8'], LC_ALL=s['locale'], TZ=s['tz'], PYTHONCOERCECLOCALE='0',
               VERIF_REPO=core.REPO, PYTHONPATH=core.REPO + os.pathsep + core.VERIF)
    args = [sys.executable, '-B'] + ([s['opt']] if s['opt'] else []) + (['-X', 'dev', '-W', 'ignore'] if s['dev'] else [])
    cwd = s['dir'] or tempfile.gettempdir()
    p = subprocess.Popen(args + ['-c', 'from checks import c31; c31.child()'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=env, cwd=cwd)
    p.payload = core.jdump({'items': items, 'setting': s, 'market': market}).encode()
    return p


def result(p):
    try:
        out, err = p.communicate(p.payload, timeout=240)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise HarnessError('a process did not finish within 240 s')
    for line in out.decode('utf-8', 'replace').splitlines():
        if line.startswith('RESULT '):
            return json.loads(line[7:])
    raise HarnessError('no result (exit %s): %s' % (p.returncode, err.decode('utf-8', 'replace')[-1500:]))


def run(case, ctx):
    items = case['items']
    settings = [BASE] + case['with']
    res = []
    for s in settings:
        res.append(result(launch(items, s, case['market'])))
        ctx.obs('processes')
    ctx.obs('hash_seeds', len(set(s['hash'] for s in settings)))
    for s, got in zip(settings[1:], res[1:]):
        if s['opt']:
            ctx.obs('optimised')
        if s['order'] is not None:
            ctx.obs('reordered')
        if s['locale'] != BASE['locale']:
            ctx.obs('locales')
        for it, a, b in zip(items, res[0], got):
            if a[0] != a[1]:
                ctx.obs('random_in_itself')
                continue
            for x in b:
                if x != a[0]:
                    n = next((i for i, (p, q) in enumerate(zip(x, a[0])) if p != q), min(len(x), len(a[0])))
                    raise Violation('%s gives ...%s in one process and ...%s in another which differs in %s' % (
                        it[0], a[0][max(0, n - 60):n + 160], x[max(0, n - 60):n + 160], {k: v for k, v in s.items() if BASE[k] != v}),
                        key='differs:' + it[0], item=it)
            ctx.obs('results_compared')
            refused = a[0].startswith('["refused"')
            ctx.shape(it[0], [k for k in s if s[k] != BASE[k] and k not in ('hash', 'order')], refused, len(a[0]).bit_length())
            ctx.obs('refusals' if refused else {'tx': 'transactions', 'contract': 'key_results', 'key': 'key_results', 'net': 'network_views',
                                                'convert': 'conversions'}[it[0]])
            if it[0] == 'contract':
                ctx.obs('multisig')
            if it[0] == 'tx' and not refused:
                ctx.obs('parsed')
                if it[1]['mode'] == 'cold':
                    ctx.obs('cold')
                if not it[1]['combine']:
                    ctx.obs('selected_coins')
                if it[1]['w']['kind'] == 'multi':
                    ctx.obs('multisig')
            if it[0] == 'net' and not refused and len(json.loads(a[0])) == 11:
                ctx.obs('sends')
