"""C09: main network and test network never mix."""
import random

from vlib import gen, ref, txlab, world
from vlib.core import Violation
from checks import netlab
from checks.common import drain

LEVEL = 'exploration'
QUOTA = {'quick': 6000, 'thorough': 100000}
RULE = ('seeded requests with one foreign-network address (every kind, any position, recipient or change) for all four wallet '
        'classes through create, prepare and send, and seeded histories of wallet and NetworkAPI operations under provider '
        'faults whose every HTTP request is attributed to a network; distinct = (class, route, address kind, role, position) or '
        '(class, operations, fault set)')
REQUIRED = ['foreign_outputs_refused', 'foreign_change_refused', 'requests_attributed', 'own_network_accepted', 'faulty_requests']
ASSUMPTIONS = ['bech32 prefix bcrt counts as test network, as the library documents']


def setup(ctx):
    global W
    W = world.World().install()


KINDS = ('p2pkh', 'p2sh', 'p2wpkh', 'p2wsh')


def mk(rng, ctx, t, net=None, kind=None, **kw):
    wl = gen.wallet(rng, ctx, net=net or rng.choice(['main', 'test']), kind=kind, maxn=3)
    return {'t': t, 'w': wl, 'rs': rng.getrandbits(32), **kw}


def foreign(rng, ctx, net=None, kind=None, ak=None, route=None, role=None):
    return mk(rng, ctx, 'out', net, kind, ak=ak or rng.choice(KINDS), route=route or rng.choice(['create', 'prepare', 'send', 'net']),
              role=role or rng.choice(['out', 'out', 'left']), nout=rng.randint(1, 4), combine=rng.random() < 0.5,
              msg=rng.random() < 0.2)


OPS = ['get_balance', 'get_unspents', 'get_transactions', 'create', 'send', 'prepare', 'sign_hex', 'api_balance', 'api_txs',
       'api_unspent', 'api_rawtx', 'api_broadcast', 'balance_as']


def history(rng, ctx, net=None, kind=None, ops=None):
    ops = ops or [rng.choice(OPS) for _ in range(rng.randint(1, 5))]
    pl = netlab.plan(rng, 'txs', 'main', rng.choice([0, 0.4, 0.8, 1.0]))
    return mk(rng, ctx, 'net', net, kind, ops=ops, plan=pl)


def directed(ctx):
    rng = random.Random('c09 %s' % ctx.seed)
    for net in ('main', 'test'):
        for kind in ('single', 'multi'):
            for route in ('create', 'prepare', 'send', 'net'):
                for ak in KINDS:
                    for role in ('out', 'left'):
                        yield foreign(rng, ctx, net, kind, ak, route, role)
            for op in OPS:
                for _ in range(3):
                    yield history(rng, ctx, net, kind, [op])


def generate(rng, ctx):
    return foreign(rng, ctx) if rng.random() < 0.5 else history(rng, ctx)


def fund(w, wal, rng, n=None):
    led = w.led[wal.net]
    for _ in range(n or rng.randint(1, 4)):
        led.fund(wal.script[rng.choice(sorted(wal.script))], rng.randint(10 ** 6, 10 ** 9), gen.txid(rng), rng.randint(0, 400),
                 rng.randint(0, 9))


def ups_of(led, wal):
    inv = {v: k for k, v in wal.script.items()}
    return [[v, t, n, inv[sc], 1, 0xFFFFFFFF] for (t, n), (v, sc, _) in led.utxo.items() if sc in inv]


def run(case, ctx):
    from bit.network import NetworkAPI
    rng = random.Random(case['rs'])
    w = W
    w.led = {'main': world.Ledger('main'), 'test': world.Ledger('test')}
    w.faults = {}
    w.log.clear()
    wal = txlab.Wallet(case['w'])
    net = wal.net
    alien = 'test' if net == 'main' else 'main'
    fund(w, wal, rng)
    led = w.led[net]
    key = wal.first
    ups = ups_of(led, wal)
    if case['t'] == 'out':
        bad = gen.address(rng, alien, (case['ak'],))
        outs = [(gen.address(rng, net), rng.randint(1000, 10 ** 5), 'satoshi') for _ in range(case['nout'])]
        kw = {'fee': rng.choice([1, 20]), 'combine': case['combine']}
        good_kw, good_outs = dict(kw), list(outs)
        if case['role'] == 'out':
            outs.insert(rng.randint(0, len(outs)), (bad, rng.randint(1000, 10 ** 5), 'satoshi'))
        else:
            # an absolute fee leaves change for certain
            kw.update(leftover=bad, fee=1000, absolute_fee=True)
            if len(outs) > 1:
                outs = outs[:1]
        if case['msg']:
            kw['message'] = 'note'
        route = case['route']
        if route == 'send' and not hasattr(key, 'send'):
            route = 'net'

        def call(outs, kw):
            if route == 'prepare':
                return type(key).prepare_transaction(wal.addr['l'], outs, unspents=wal.unspents(ups), **kw)
            if route == 'send':
                return key.send(outs, **kw)
            if route == 'net':
                return key.create_transaction(outs, **kw)
            return key.create_transaction(outs, unspents=wal.unspents(ups), **kw)

        random.seed(case['rs'])
        try:
            r = call(outs, kw)
        except Exception:
            ctx.obs('foreign_outputs_refused' if case['role'] == 'out' else 'foreign_change_refused')
        else:
            raise Violation('%s with %s %s of the other network (%s) succeeded: %s' % (
                route, 'recipient' if case['role'] == 'out' else 'change', bad, alien, str(r)[:600]), key='foreign-' + case['role'])
        if any(e['op'] == 'broadcast' for e in w.log):
            raise Violation('a refused transaction was broadcast', key='broadcast')
        # the same request without the foreign address goes through
        random.seed(case['rs'])
        call(good_outs, good_kw)
        ctx.obs('own_network_accepted')
        ctx.shape('out', case['w']['kind'], net, route, case['ak'], case['role'], len(outs))
    else:
        # a twin of the wallet's funds on the other network must not be noticed
        for s in wal.script.values():
            w.led[alien].fund(s, 777 * 10 ** 6, gen.txid(rng), 0, 3)
        netlab.install_plan(w, case['plan'])
        suffix = '' if net == 'main' else '_testnet'
        raw = None
        for op in case['ops']:
            dest = (gen.address(rng, net), 2000, 'satoshi')
            try:
                if op in ('get_balance', 'get_unspents', 'get_transactions'):
                    getattr(key, op)()
                elif op == 'balance_as':
                    key.balance_as('btc')
                elif op == 'create':
                    raw = key.create_transaction([dest], fee=2)
                elif op == 'send':
                    if hasattr(key, 'send'):
                        key.send([dest], fee=2)
                elif op == 'prepare':
                    a = wal.addr['l']
                    type(key).prepare_transaction(a, [dest], fee=2)
                elif op == 'sign_hex':
                    if raw is None or case['w']['kind'] == 'multi':
                        t = ref.Tx(1, [ref.In(u[1], u[2]) for u in ups], [ref.Out(1000, ref.script_for(dest[0]))])
                        raw = t.ser().hex()
                    key.sign_transaction(raw)
                elif op == 'api_balance':
                    getattr(NetworkAPI, 'get_balance' + suffix)(wal.addr['l'])
                elif op == 'api_txs':
                    getattr(NetworkAPI, 'get_transactions' + suffix)(wal.addr['l'])
                elif op == 'api_unspent':
                    getattr(NetworkAPI, 'get_unspent' + suffix)(wal.addr['l'])
                elif op == 'api_rawtx':
                    getattr(NetworkAPI, 'get_transaction_by_id' + suffix)(ups[0][1])
                else:
                    getattr(NetworkAPI, 'broadcast_tx' + suffix)('00' * 60)
            except ConnectionError:
                ctx.obs('operations_failed_by_faults')
            except ValueError as e:
                if 'unspent' not in str(e) and type(e).__name__ != 'InsufficientFunds':
                    raise
        for e in w.log:
            if e['op'] == 'unknown':
                raise Violation('request to an unknown endpoint: %s' % e['url'], key='unknown-endpoint')
            if e['net'] is None:
                continue
            if e['net'] != net:
                raise Violation('%s wallet asked the %s network: %s %s (operations %s)' % (
                    net, e['net'], e['method'], e['url'], case['ops']), key='wrong-network')
            ctx.obs('requests_attributed')
            if e['outcome'] != 200:
                ctx.obs('faulty_requests')
        if not w.led[alien].accepted == w.led[alien].rejected == []:
            raise Violation('a transaction reached the other network', key='wrong-network')
        ctx.shape('net', case['w']['kind'], net, case['ops'], sorted(case['plan']))
    drain(w)
