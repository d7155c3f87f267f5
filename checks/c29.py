"""C29: public services are only spoken to over verified TLS, and only the documented ones."""
import base64
import os
import random
import sys
from urllib.parse import urlsplit

from vlib import gen, ref, world
from vlib.core import Violation
from checks import netlab
from checks.c13 import FIAT, newfees, newprices
from checks.common import drain

LEVEL = 'fault_enumeration'
QUOTA = {'quick': 1600, 'thorough': 30000}
RULE = ('seeded histories of explorer queries, broadcasts, payments, fee and rate requests on both networks, with every provider in turn failing '
        '(TLS errors above all) and nodes connected over HTTP, HTTPS or with an own CA bundle in between; the monitor at the HTTP adapter '
        'reads scheme, host, certificate verification and credentials of every request; distinct = (operation, network, service, endpoint, '
        'what failed before, nodes connected)')
REQUIRED = ['requests_checked', 'after_tls_error', 'fee_requests', 'rate_requests', 'broadcast_requests', 'follow_up_pages', 'node_requests',
            'node_with_bundle', 'public_beside_node', 'wallet_ops', 'all_services_asked']
ASSUMPTIONS = ['requests itself verifies certificates when told to', 'no server redirects to plain HTTP', 'a node is reached the way it was asked for']
HOSTS = {'api.blockchair.com', 'blockstream.info', 'api.bitcore.io', 'api.smartbit.com.au', 'testnet-api.smartbit.com.au', 'blockchain.info',
         'mempool.space', 'bitpay.com'}
OPS = ['balance', 'txs', 'rawtx', 'unspent', 'broadcast']
BUNDLE = '/etc/node/ca.pem'


def setup(ctx):
    global W
    for v in ('REQUESTS_CA_BUNDLE', 'CURL_CA_BUNDLE'):
        os.environ.pop(v, None)
    W = world.World().install()


def fresh():
    for m in [m for m in sys.modules if m == 'bit' or m.startswith('bit.')]:
        del sys.modules[m]
    import bit  # noqa


def directed(ctx):
    rng = random.Random('c29 %s' % ctx.seed)
    for kind in ('ssl', 'conn', 'timeout', 'status:503', 'status:429'):
        for op in OPS:
            for net in ('main', 'test'):
                provs = netlab.PROVIDERS[(op, net)]
                for n in range(len(provs) + 1):
                    # the first n fail, then everyone; once more after the recovery
                    yield {'ops': [['plan', {x: [kind, 0, 10 ** 6] for x in provs[:n]}], ['q', op, net], ['plan', {}], ['q', op, net],
                                   ['w', op, net]], 'n': 120, 'rs': rng.getrandbits(32)}
                for s in provs:
                    for start in (0, 1, 2):
                        yield {'ops': [['plan', {x: ['conn', 0, 10 ** 6] if x != s else [kind, start, 1] for x in provs}], ['q', op, net],
                                       ['q', op, net]], 'n': 2100 if s == 'blockchair' else 120, 'rs': rng.getrandbits(32)}
        for c in FIAT:
            for f in ([kind, None], [None, kind], [kind, kind]):
                yield {'ops': [['rfault'] + f, ['rate', c, True], ['rate', c, False], ['rfault', None, None], ['rate', c, False]],
                       'n': 1, 'rs': rng.getrandbits(32)}
        yield {'ops': [['ffault', kind], ['fee', True, True], ['fee', False, True], ['fee', True, False], ['ffault', None], ['fee', True, True],
                       ['fee', False, True], ['fee', False, False]], 'n': 1, 'rs': rng.getrandbits(32)}
    for net in ('main', 'test'):
        other = 'test' if net == 'main' else 'main'
        for https in (False, True, 'bundle'):
            ops = [['node', net, https]]
            for op in OPS:
                ops += [['q', op, net], ['q', op, other], ['w', op, net], ['w', op, other]]
            ops += [['fee', True, True], ['fee', False, False], ['rate', 'usd', True], ['rate', 'eur', False]]
            yield {'ops': ops, 'n': 5, 'rs': rng.getrandbits(32)}


def generate(rng, ctx):
    ops = []
    for _ in range(rng.randint(3, 9)):
        x = rng.random()
        if x < 0.1:
            ops.append(['node', rng.choice(['main', 'test']), rng.choice([False, True, 'bundle'])])
        elif x < 0.35:
            op, net = rng.choice(OPS), rng.choice(['main', 'test'])
            pl = netlab.plan(rng, op, net, rng.choice([0.3, 0.7, 0.9]))
            for s in pl:
                if rng.random() < 0.4:
                    pl[s][0] = 'ssl'
            ops += [['plan', pl], ['q', op, net]]
        elif x < 0.55:
            ops.append(['q', rng.choice(OPS), rng.choice(['main', 'test'])])
        elif x < 0.7:
            ops.append(['w', rng.choice(OPS), rng.choice(['main', 'test'])])
        elif x < 0.8:
            ops.append(['rate', rng.choice(FIAT), rng.random() < 0.5])
        elif x < 0.9:
            ops.append(['fee', rng.random() < 0.5, rng.random() < 0.5])
        elif x < 0.95:
            ops.append(['rfault'] + [rng.choice([None, 'ssl', 'conn', 'timeout', 'status:502']) for _ in range(2)])
        else:
            ops.append(['ffault', rng.choice([None, 'ssl', 'conn', 'timeout', 'status:502'])])
    return {'ops': ops, 'n': rng.choice([0, 1, 5, 26, 51, 101]), 'rs': rng.getrandbits(32)}


class Node:
    def __init__(self, rng, net, https):
        self.net, self.https = net, https
        self.host, self.port = rng.choice(['localhost', 'node.example', '10.1.2.3']), rng.choice([8332, 18332, 50000 + rng.randint(0, 999)])
        self.user, self.password = 'u%d' % rng.getrandbits(40), 'p%d' % rng.getrandbits(40)
        self.key = '%s:%s' % (self.host, self.port)

    def connect(self):
        from bit.network import NetworkAPI
        W.nodes[self.key] = dict(net=self.net, user=self.user, password=self.password)
        NetworkAPI.connect_to_node(user=self.user, password=self.password, host=self.host, port=self.port, testnet=self.net == 'test',
                                   use_https=BUNDLE if self.https == 'bundle' else self.https)


def check(e, nodes, ctx, what):
    u = urlsplit(e['url'])
    auth = [v for k, v in e['headers'].items() if k.lower() in ('authorization', 'proxy-authorization')]
    if e['service'] == 'node':
        n = next(x for x in nodes if x.key == '%s:%s' % (u.hostname, u.port))
        want = {False: ('http', (True, False, None)), True: ('https', (True, None)), 'bundle': ('https', (BUNDLE,))}[n.https]
        if u.scheme != want[0] or e['verify'] not in want[1]:
            raise Violation('%s asked the node %s over %s with verify=%r; connected with use_https=%r' % (
                what, n.key, u.scheme, e['verify'], n.https), key='node')
        if auth != ['Basic ' + base64.b64encode(('%s:%s' % (n.user, n.password)).encode()).decode()]:
            raise Violation('%s sent the credentials %s to the node %s' % (what, auth, n.key), key='node-credentials')
        ctx.obs('node_requests')
        if n.https == 'bundle':
            ctx.obs('node_with_bundle')
        return
    if u.hostname not in HOSTS:
        raise Violation('%s asked %s, which is none of the documented services' % (what, e['url'][:200]), key='host')
    if u.scheme != 'https':
        raise Violation('%s asked %s without TLS' % (what, e['url'][:200]), key='scheme')
    if u.port not in (None, 443):
        raise Violation('%s asked port %s of %s' % (what, u.port, u.hostname), key='port')
    if e['verify'] not in (True, None) or e['cert'] is not None:
        raise Violation('%s asked %s with verify=%r cert=%r' % (what, e['url'][:200], e['verify'], e['cert']), key='verify')
    if auth or u.username or u.password:
        raise Violation('%s sent credentials to %s: %s' % (what, e['url'][:200], auth), key='credentials')
    for n in nodes:
        blob = e['url'] + e['body'] + str(e['headers'])
        if n.user in blob or n.password in blob:
            raise Violation('%s told %s the credentials of the node' % (what, e['url'][:200]), key='credentials')


def run(case, ctx):
    fresh()
    import bit
    from bit.network import NetworkAPI, get_fee, get_fee_cached, currency_to_satoshi, currency_to_satoshi_cached
    from bit.network.meta import Unspent
    rng = random.Random(case['rs'])
    W.faults, W.nodes, W.fee_fault, W.rate_fault = {}, {}, None, {}
    W.rates, W.fee = newprices(rng), newfees(rng)
    W.log.clear()
    keys, scr, nodes, asked = {}, {}, [], set()
    for net in ('main', 'test'):
        cls = bit.PrivateKey if net == 'main' else bit.PrivateKeyTestnet
        k = keys[net] = cls(ref.wif(rng.getrandbits(200) + 1, net, True))
        led = W.led[net] = world.Ledger(net)
        sc = scr[net] = ref.script_for(k.address)
        netlab.populate(led, sc, rng, case['n'], 1, 2, 0)
        led.fund(ref.script_for(k.segwit_address), 10 ** 7, gen.txid(rng), 1, 3)
    conn = set()
    for op in case['ops']:
        if op[0] == 'plan':
            netlab.install_plan(W, op[1])
            continue
        if op[0] == 'rfault':
            W.rate_fault = {p: f for p, f in zip(('bitpay', 'bcinfo'), op[1:]) if f}
            continue
        if op[0] == 'ffault':
            W.fee_fault = op[1]
            continue
        if op[0] == 'node':
            n = Node(rng, op[1], op[2])
            if n.key not in W.nodes:
                n.connect()
                nodes.append(n)
                conn.add(op[1])
            continue
        W.log.clear()
        what, net = op[1], None
        try:
            if op[0] == 'fee':
                (get_fee_cached if op[2] else get_fee)(op[1])
            elif op[0] == 'rate':
                (currency_to_satoshi_cached if op[2] else currency_to_satoshi)(rng.randint(1, 999), op[1])
            else:
                net = op[2]
                k, led, suf = keys[net], W.led[net], '' if net == 'main' else '_testnet'
                api = lambda name: getattr(NetworkAPI, name + suf)
                if op[0] == 'w':
                    ctx.obs('wallet_ops')
                    if what in ('balance', 'rawtx'):
                        k.get_balance(rng.choice(['satoshi', 'usd']))
                    elif what == 'txs':
                        k.get_transactions()
                    elif what == 'unspent':
                        k.get_unspents()
                    elif led.balance(scr[net]) + led.balance(ref.script_for(k.segwit_address)) > 10 ** 6:
                        k.send([], **({'fee': 20000, 'absolute_fee': True} if rng.random() < 0.5 else {}))
                elif what == 'balance':
                    api('get_balance')(k.address)
                elif what == 'txs':
                    api('get_transactions')(k.address)
                elif what == 'unspent':
                    api('get_unspent')(k.address)
                elif what == 'rawtx':
                    api('get_transaction_by_id')(rng.choice(list(led.raw)))
                else:
                    us = [Unspent(v[0], 1, v[1].hex(), a, b, 'np2wkh') for (a, b), v in led.utxo.items()
                          if v[1] == ref.script_for(k.segwit_address)]
                    if us:
                        api('broadcast_tx')(k.create_transaction([], fee=500, absolute_fee=True, unspents=us))
        except Exception:
            # what the answer is worth is decided elsewhere (C10-C13, C19, C21)
            ctx.obs('failed_operations')
        drain(W)
        per, failed = {}, None
        for e in W.log:
            check(e, nodes, ctx, ' '.join(map(str, op)))
            ctx.obs('requests_checked')
            if e['service'] == 'node':
                continue
            asked.add(e['service'])
            if nodes:
                ctx.obs('public_beside_node')
            if failed == 'ssl':
                ctx.obs('after_tls_error')
            if e['op'] == 'fees':
                ctx.obs('fee_requests')
            if e['op'].startswith('rate:'):
                ctx.obs('rate_requests')
            if e['op'] == 'broadcast':
                ctx.obs('broadcast_requests')
            ctx.shape(op[0], str(what), net, e['service'], e['op'], failed, sorted(conn), min(e['n'], 3))
            if isinstance(e['outcome'], str):
                failed = e['outcome']
            per[e['service'], e['op']] = per.get((e['service'], e['op']), 0) + 1
        if per and max(per.values()) > 1:
            ctx.obs('follow_up_pages')
    if len(asked) >= 4:
        ctx.obs('all_services_asked')
