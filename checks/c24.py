"""C24: public service calls respect the configured timeout."""
import random
import sys

from vlib import gen, ref, world
from vlib.core import Violation
from checks import netlab
from checks.common import drain

LEVEL = 'fault_enumeration'
QUOTA = {'quick': 3200, 'thorough': 40000}
RULE = ('every operation of the service facade and of wallets on both networks, with every provider in turn the one that answers (the others '
        'failing at enumerated points), over multi-page results, interleaved with timeout changes; the monitor at the HTTP adapter compares the '
        'timeout of every single request; distinct = (operation, network, service, endpoint, page number, timeout)')
REQUIRED = ['requests_checked', 'default_timeout_requests', 'follow_up_pages', 'broadcast_requests', 'timeout_changes', 'wallet_ops']
ASSUMPTIONS = ['timeouts are numbers of seconds', 'fee, exchange-rate and own-node requests are not block explorer services']
TIMES = [1, 2, 3, 5, 9, 10, 11, 30, 60, 120, 0.5, 2.5, 0.001, 3600]
OPS = ['balance', 'txs', 'rawtx', 'unspent', 'broadcast']


def setup(ctx):
    global W
    W = world.World().install()


def fresh():
    for m in [m for m in sys.modules if m == 'bit' or m.startswith('bit.')]:
        del sys.modules[m]
    import bit  # noqa


def directed(ctx):
    rng = random.Random('c24 %s' % ctx.seed)
    for op in OPS:
        for net in ('main', 'test'):
            provs = netlab.PROVIDERS[(op, net)]
            for s in provs:
                for first in (None, 3):
                    pl = {x: ['conn', 0, 10 ** 6] for x in provs if x != s}
                    ops = [['plan', pl]]
                    if first:
                        ops.append(['set', first])
                    yield {'ops': ops + [['q', op, net], ['set', 7], ['q', op, net]], 'n': 120, 'rs': rng.getrandbits(32),
                           'fresh': True}
                if op in ('txs', 'unspent'):
                    for n in (26, 1001, 2001):
                        pl = {x: ['timeout', 0, 10 ** 6] for x in provs if x != s}
                        yield {'ops': [['plan', pl], ['q', op, net], ['set', 4], ['q', op, net]], 'n': n,
                               'rs': rng.getrandbits(32), 'fresh': True}
            pl = {x: ['conn', 0, 10 ** 6] for x in provs}
            yield {'ops': [['plan', pl], ['q', op, net], ['set', 1.5], ['q', op, net]], 'n': 3, 'rs': 5, 'fresh': True}
            yield {'ops': [['plan', {}], ['w', op, net], ['set', 2], ['w', op, net]], 'n': 30, 'rs': 5, 'fresh': True}


def generate(rng, ctx):
    ops = []
    for _ in range(rng.randint(2, 8)):
        x = rng.random()
        if x < 0.3:
            ops.append(['set', rng.choice(TIMES)])
        elif x < 0.55:
            op, net = rng.choice(OPS), rng.choice(['main', 'test'])
            ops.append(['plan', netlab.plan(rng, op, net, rng.choice([0.3, 0.7, 0.9]))])
            ops.append(['q', op, net])
        elif x < 0.85:
            ops.append(['q', rng.choice(OPS), rng.choice(['main', 'test'])])
        else:
            ops.append(['w', rng.choice(OPS), rng.choice(['main', 'test'])])
    return {'ops': ops, 'n': rng.choice([0, 1, 5, 26, 51, 101, 120]), 'rs': rng.getrandbits(32), 'fresh': rng.random() < 0.3}


def run(case, ctx):
    if case['fresh']:
        fresh()
    import bit
    from bit.network import NetworkAPI
    from bit.network.meta import Unspent
    rng = random.Random(case['rs'])
    current = 10
    if not case['fresh']:
        current = rng.choice(TIMES)
        bit.set_service_timeout(current)
    W.faults = {}
    W.log.clear()
    keys, scr = {}, {}
    for net in ('main', 'test'):
        k = bit.PrivateKey.from_int(rng.getrandbits(200) + 1) if net == 'main' else bit.PrivateKeyTestnet.from_int(
            rng.getrandbits(200) + 1)
        # the class method of the testnet key gives a mainnet key in some versions
        if net == 'test' and not isinstance(k, bit.PrivateKeyTestnet):
            k = bit.PrivateKeyTestnet(k.to_wif())
        keys[net] = k
        led = W.led[net] = world.Ledger(net)
        sc = scr[net] = ref.script_for(k.address)
        netlab.populate(led, sc, rng, case['n'], 1, 2, 0)
        led.fund(ref.script_for(k.segwit_address), 10 ** 7, gen.txid(rng), 1, 3)
    for op in case['ops']:
        if op[0] == 'set':
            bit.set_service_timeout(op[1])
            current = op[1]
            ctx.obs('timeout_changes')
            continue
        if op[0] == 'plan':
            netlab.install_plan(W, op[1])
            continue
        _, what, net = op
        W.log.clear()
        k, led = keys[net], W.led[net]
        suf = '' if net == 'main' else '_testnet'
        try:
            if op[0] == 'q':
                if what == 'balance':
                    getattr(NetworkAPI, 'get_balance' + suf)(k.address)
                elif what == 'txs':
                    getattr(NetworkAPI, 'get_transactions' + suf)(k.address)
                elif what == 'unspent':
                    getattr(NetworkAPI, 'get_unspent' + suf)(k.address)
                elif what == 'rawtx':
                    getattr(NetworkAPI, 'get_transaction_by_id' + suf)(rng.choice(list(led.raw)))
                else:
                    us = [Unspent(v[0], 1, v[1].hex(), a, b, 'np2wkh') for (a, b), v in led.utxo.items()
                          if v[1] == ref.script_for(k.segwit_address)]
                    if us:
                        getattr(NetworkAPI, 'broadcast_tx' + suf)(k.create_transaction([], fee=500, absolute_fee=True, unspents=us))
            else:
                ctx.obs('wallet_ops')
                if what in ('balance', 'rawtx'):
                    k.get_balance()
                elif what == 'txs':
                    k.get_transactions()
                elif what == 'unspent':
                    k.get_unspents()
                elif led.balance(scr[net]) + led.balance(ref.script_for(k.segwit_address)) > 10 ** 6:
                    k.send([], fee=20000, absolute_fee=True)
        except ConnectionError:
            pass
        drain(W)
        for e in W.log:
            if e['service'] not in netlab.SERVICES or e['op'].startswith('rate:'):
                continue
            if e['timeout'] not in (current, (current, current)):
                raise Violation('%s (%s): request %d to %s %s carries timeout %r, configured is %r' % (
                    what, net, e['n'], e['service'], e['url'][:120], e['timeout'], current), key='timeout')
            ctx.obs('requests_checked')
            if case['fresh'] and current == 10:
                ctx.obs('default_timeout_requests')
            if e['op'] == 'broadcast':
                ctx.obs('broadcast_requests')
            ctx.shape(what, net, e['service'], e['op'], min(e['n'], 3), current)
        per = {}
        for e in W.log:
            per[e['service'], e['op']] = per.get((e['service'], e['op']), 0) + 1
        if per and max(per.values()) > 1:
            ctx.obs('follow_up_pages')
