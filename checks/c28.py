"""C28: a failed synchronisation leaves the wallet as it was."""
import random

from vlib import gen, txlab, world
from vlib.core import Violation
from checks import netlab
from checks.c26 import state
from checks.common import drain

LEVEL = 'exploration'
QUOTA = {'quick': 5000, 'thorough': 60000}
RULE = ('a synchronised wallet (all kinds, both networks, services or own node), a ledger that has moved on, and one operation that reads '
        'the network while every answer from the n-th request on (for some or all following requests, n from 0 to the last) fails; '
        'attributes after a failure are compared field by field with those before, after a success with the ledger, and once more '
        'after the outage; distinct = (wallet, operation, cut, outcome)')
REQUIRED = ['failed_operations', 'failed_after_first_answer', 'succeeded_in_spite', 'recovered', 'get_unspents', 'get_balance',
            'get_transactions', 'create', 'sign', 'send', 'node', 'failed_broadcasts', 'multisig', 'never_synchronised']
ASSUMPTIONS = ['the ledger does not change while one operation runs']
OPS = ['get_unspents', 'get_unspents', 'get_balance', 'get_transactions', 'get_transactions', 'create', 'sign', 'send']
FK = ['conn', 'timeout', 'connect_timeout', 'status:503', 'status:429', 'status:502']


def setup(ctx):
    global W, SAVED
    W = world.World().install()
    from bit.network import NetworkAPI
    SAVED = {k: v[:] if isinstance(v, list) else v for k, v in vars(NetworkAPI).items() if not k.startswith('__')}


def restore():
    from bit.network import NetworkAPI
    for k, v in SAVED.items():
        if vars(NetworkAPI).get(k) != v:
            setattr(NetworkAPI, k, v[:] if isinstance(v, list) else v)


def directed(ctx):
    for net in ('main', 'test'):
        for kind in ('single', 'multi'):
            for op in sorted(set(OPS)):
                for node in (False, True):
                    for cut in range(0, 9 if not node else 4):
                        yield {'net': net, 'kind': kind, 'op': op, 'cut': cut, 'len': 10 ** 6, 'fk': 'conn', 'node': node, 'rs': cut,
                               'first': cut % 2 == 0, 'pages': False}


def generate(rng, ctx):
    return {'net': rng.choice(['main', 'test']), 'kind': rng.choice(['single', 'single', 'multi']), 'op': rng.choice(OPS),
            'cut': rng.choice([0, 0, 1, 1, 1, 1, 2, 2, 3, 4, 5, 6, 8, 10]), 'len': rng.choice([10 ** 6, 10 ** 6, 1, 2, 4, 5, 8]),
            'fk': rng.choice(FK), 'node': rng.random() < 0.2, 'rs': rng.getrandbits(32), 'first': rng.random() < 0.8,
            'pages': rng.random() < 0.1}


def fund(led, w, rng, n):
    for _ in range(n):
        k = rng.choice(sorted(w.script))
        led.fund(w.script[k], rng.randint(50000, 10 ** 9), gen.txid(rng), rng.randint(0, 5), rng.choice([0, 1, 6, 500]))


def truth(led, w, node):
    us = sorted(x for sc in w.script.values() for x in netlab.truth_unspents(led, sc))
    ts = [t for sc in w.script.values() for t in (led.rtx.get(sc, []) if node else [h for h, _ in led.hist.get(sc, [])])]
    return us, sum(u[0] for u in us), set(ts)


def run(case, ctx):
    try:
        run1(case, ctx)
    finally:
        restore()


def run1(case, ctx):
    from bit.network import NetworkAPI
    rng = random.Random(case['rs'])
    net, op, node = case['net'], case['op'], case['node']
    W.led = {'main': world.Ledger('main'), 'test': world.Ledger('test', 2 * 10 ** 6)}
    W.faults, W.log = {}, []
    W.nodes = {}
    led = W.led[net]
    w = txlab.Wallet(gen.wallet(rng, ctx, net, case['kind'], maxn=3))
    if node:
        W.nodes['localhost:18999'] = dict(net=net, user='u', password='p')
        NetworkAPI.connect_to_node(user='u', password='p', port=18999, testnet=net == 'test')
        ctx.obs('node')
    b = w.first
    fund(led, w, rng, rng.randint(2, 6))
    if case['pages']:
        fund(led, w, rng, rng.choice([30, 60, 110]))
    if case['first']:
        b.get_unspents()
        b.get_transactions()
    else:
        ctx.obs('never_synchronised')
    ups = [[a, t, v, k, 1, 0xFFFFFFFF] for k, sc in sorted(w.script.items()) for t, v, a, _ in led.of(sc)]
    half = None
    if op == 'sign' and w.m == 1 and w.spec['kind'] == 'multi':
        op = 'create'  # complete already
    if op == 'sign':
        half = w.bits[-1].create_transaction([(gen.address(rng, net), 1000, 'satoshi')], fee=1, unspents=w.unspents(ups))
    # the ledger moves on
    fund(led, w, rng, rng.randint(1, 4))
    for k in rng.sample(sorted(led.utxo), rng.randint(0, 2)) if op != 'sign' else []:
        if len(led.utxo) > 2:
            led.utxo.pop(k)
    led.mine()
    drain(W)
    before = state(b)
    want = truth(led, w, node)
    n = {'n': 0, 'failed': 0, 'bfail': 0}

    def fault(o, _):
        i = n['n']
        n['n'] += 1
        if case['cut'] <= i < case['cut'] + case['len']:
            n['failed'] += 1
            n['bfail'] += o == 'broadcast'
            return world.Fault('conn' if node and case['fk'].startswith('status') else case['fk'])

    W.faults = {(s, x): fault for s in netlab.SERVICES + ('node',) for x in ('main', 'test')}
    random.seed(case['rs'])
    exc = None
    try:
        if op in ('get_unspents', 'get_balance', 'get_transactions'):
            getattr(b, op)()
        elif op == 'sign':
            b.sign_transaction(half)
        else:
            o = [(gen.address(rng, net), 1000, 'satoshi')]
            if op == 'send' and hasattr(b, 'send'):
                b.send(o, fee=2)
            else:
                b.create_transaction(o, fee=2, combine=rng.random() < 0.5)
    except Exception as e:
        exc = e
    W.faults = {}
    drain(W)
    after = state(b)
    what = '%s with requests %d to %d failing (%s)' % (op, case['cut'], case['cut'] + case['len'] - 1, case['fk'])
    reads_u = op != 'get_transactions'
    if exc is not None:
        if not n['failed']:
            raise exc
        ctx.obs('failed_operations')
        ctx.obs(op)
        if n['bfail']:
            ctx.obs('failed_broadcasts')
        if case['cut']:
            ctx.obs('failed_after_first_answer')
    else:
        ctx.obs('succeeded_in_spite' if n['failed'] else 'undisturbed')
    if w.spec['kind'] == 'multi':
        ctx.obs('multisig')
    if after != before:
        got = (netlab.got_unspents(b.unspents), b.balance)
        whole = got == want[:2] if reads_u else set(b.transactions) == want[2]
        same = after[2] == before[2] if reads_u else after[:2] == before[:2]
        if not same:
            raise Violation('%s changed %s' % (what, 'transactions' if reads_u else 'unspents or balance'), key='other-attributes')
        if not whole:
            raise Violation('%s %s, but the wallet has changed: %d unspents (balance %r) before, %d (%r) after, ledger %d (%r); %d '
                            'transactions before, %d after, ledger %d' % (
                                what, 'failed' if exc else 'succeeded', len(before[1]), before[0], len(after[1]), after[0], len(want[0]),
                                want[1], len(before[2]), len(after[2]), len(want[2])), key='torn')
        if exc is not None and not (op == 'send' and n['bfail']) and op in ('get_unspents', 'get_balance', 'get_transactions'):
            raise Violation('%s failed (%s) and yet the wallet has changed' % (what, exc), key='changed')
    # after the outage
    want = truth(led, w, node)
    b.get_unspents()
    if (netlab.got_unspents(b.unspents), b.balance) != want[:2]:
        raise Violation('after %s the next synchronisation gives %d unspents, balance %r; ledger %d, %r' % (
            what, len(b.unspents), b.balance, len(want[0]), want[1]), key='recovery')
    b.get_transactions()
    if set(b.transactions) != want[2]:
        raise Violation('after %s the next synchronisation gives %d transactions, ledger %d' % (what, len(b.transactions), len(want[2])),
                        key='recovery')
    drain(W)
    ctx.obs('recovered')
    ctx.shape(w.spec['kind'], str(w.spec['comp']), net, op, case['cut'], case['len'], node, exc is None, case['first'])
