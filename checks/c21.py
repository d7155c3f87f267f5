"""C21: a connected node is used exclusively and exactly."""
import base64
import decimal
import random
from fractions import Fraction as F
from urllib.parse import urlsplit

from vlib import gen, ref, txlab, world
from vlib.core import Violation
from checks import netlab
from checks.common import drain

LEVEL = 'exploration'
QUOTA = {'quick': 2500, 'thorough': 40000}
RULE = ('seeded histories: connecting and re-connecting nodes of both networks (hosts, ports, paths, HTTPS, credentials with any '
        'printable characters), deposits with boundary amounts, queries and payments through NetworkAPI and wallets, node errors and '
        'outages; the request log, the answers and the decimal context are compared with the ledger and the connection; '
        'distinct = (operation, connection state, fault, magnitude)')
REQUIRED = ['node_requests', 'balances_exact', 'unspents_exact', 'transactions_exact', 'raw_transactions', 'node_payments',
            'errors_surfaced', 'failed_broadcasts', 'other_network_on_services', 'reconnections', 'context_checks', 'both_nodes']
ASSUMPTIONS = ['the node answers like Bitcoin Core 0.19+ with the addresses imported', 'credentials are printable ASCII',
               'fee recommendations are not operations of a network']


def setup(ctx):
    global W, LISTS
    W = world.World().install()
    from bit.network.services import NetworkAPI
    LISTS = {k: getattr(NetworkAPI, k) for k in dir(NetworkAPI) if k.endswith(('_MAIN', '_TEST'))}


def restore():
    from bit.network.services import NetworkAPI
    for k, v in LISTS.items():
        setattr(NetworkAPI, k, v)


def directed(ctx):
    # one deposit per boundary amount, read back through the node
    for a in ctx.dic.within(1, 21 * 10 ** 14):
        yield {'mode': 'amount', 'a': a, 'rs': a & 0xFFFF}
    for i in range(24):
        yield {'mode': 'history', 'rs': i, 'n': 15, 'f': 0.0}


def generate(rng, ctx):
    if rng.random() < 0.25:
        a = ctx.dic.pick(rng, 1, 21 * 10 ** 14) if rng.random() < 0.5 else rng.randint(1, 21 * 10 ** 14)
        return {'mode': 'amount', 'a': a, 'rs': rng.getrandbits(32)}
    return {'mode': 'history', 'rs': rng.getrandbits(32), 'n': rng.randint(4, 14), 'f': rng.choice([0, 0.2, 0.5])}


ASCII = ''.join(map(chr, range(33, 127)))


def cred(rng):
    x = rng.random()
    if x < 0.4:
        return ''.join(rng.choice('abcXYZ019_-') for _ in range(rng.randint(1, 12)))
    return ''.join(rng.choice(ASCII) for _ in range(rng.randint(1, 20)))


class Conn:
    def __init__(self, rng, net):
        self.net = net
        self.host = rng.choice(['localhost', '127.0.0.1', 'node.example', '10.1.2.3', 'my-node.local'])
        self.port = rng.choice([8332, 18332, 18443, 80, 443, 50000 + rng.randint(0, 999)])
        self.user = cred(rng).replace(':', '_')
        self.password = cred(rng)
        self.https = rng.random() < 0.25
        self.path = rng.choice(['', '', 'wallet/w1', 'rpc'])
        self.key = '%s:%s' % (self.host, self.port)

    def connect(self):
        from bit.network import NetworkAPI
        kw = dict(user=self.user, password=self.password)
        if (self.host, self.port, self.https) != ('localhost', 8332, False):
            kw.update(host=self.host, port=self.port)
        if self.https:
            kw['use_https'] = True
        if self.net == 'test':
            kw['testnet'] = True
        if self.path:
            kw['path'] = self.path
        return NetworkAPI.connect_to_node(**kw)

    def own(self, e):
        u = urlsplit(e['url'])
        port = u.port or (443 if u.scheme == 'https' else 80)
        want = 'Basic ' + base64.b64encode(('%s:%s' % (self.user, self.password)).encode()).decode()
        return (u.hostname, port, u.scheme, u.path.strip('/'), e['headers'].get('Authorization')) == \
            (self.host, self.port, 'https' if self.https else 'http', self.path, want)


class Sim:
    def __init__(self, rng, ctx):
        self.rng, self.ctx = rng, ctx
        W.led = {'main': world.Ledger('main', 860000), 'test': world.Ledger('test', 2 * 10 ** 6)}
        W.log.clear()
        W.faults, W.nodes, W.fee_fault = {}, {}, None
        self.conn = {}
        self.wal = {n: txlab.Wallet({'kind': 'single', 'net': n, 'k': hex(gen.key_int(rng)), 'comp': rng.random() < 0.8})
                    for n in ('main', 'test')}
        self.deferred = []
        c = decimal.getcontext()
        self.dc = (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, {k: v for k, v in c.traps.items()})

    def connect(self, net):
        c = Conn(self.rng, net)
        while c.key in W.nodes or c.key.replace(':80', ':None') in W.nodes:
            c = Conn(self.rng, net)
        d = dict(net=net, user=c.user, password=c.password)
        W.nodes[c.key] = d
        if c.port == (443 if c.https else 80):
            W.nodes['%s:None' % c.host] = d  # the default port does not show in the URL
        if net in self.conn:
            self.ctx.obs('reconnections')
        c.connect()
        self.conn[net] = c
        if len(self.conn) == 2:
            self.ctx.obs('both_nodes')

    def deposit(self, net, v=None):
        rng = self.rng
        w = self.wal[net]
        led = W.led[net]
        v = v or self.ctx.dic.pick(rng, 1, 10 ** 12)
        if led.minted + v > ref.MAX_MONEY:
            return
        kind = rng.choice(sorted(w.script))
        led.fund(w.script[kind], v, gen.txid(rng), rng.randint(0, 5),
                 rng.choice([0, 1, 50, 10 ** 5, rng.randint(1, led.height)]))
        t = gen.txid(rng)
        led.raw[t] = '0100'

    def routed(self, net, evs, what):
        """Everything of a connected network goes to its node and nowhere else."""
        c = self.conn.get(net)
        for e in evs:
            if e['op'] == 'fees':
                continue
            if c is not None:
                if not c.own(e):
                    raise Violation('%s on the %s network asked %s (auth %s) instead of the connected node %s as %r:%r' % (
                        what, net, e['url'], e['headers'].get('Authorization'), c.key, c.user, c.password), key='route')
                self.ctx.obs('node_requests')
            else:
                if e['service'] == 'node' or e['net'] != net:
                    raise Violation('%s on the %s network asked %s; no node is connected for it' % (what, net, e['url']), key='route-other')
                self.ctx.obs('other_network_on_services')
        if not evs:
            raise Violation('%s asked nobody' % what, key='no-request')

    def query(self, net, fault):
        from bit.network import NetworkAPI
        rng, ctx = self.rng, self.ctx
        w, led = self.wal[net], W.led[net]
        suffix = '' if net == 'main' else '_testnet'
        op = rng.choice(['balance', 'txs', 'unspent', 'rawtx', 'wunspent', 'wbalance', 'wtxs'])
        kind = rng.choice(sorted(w.script))
        addr, sc = w.addr[kind], w.script[kind]
        api = lambda n: getattr(NetworkAPI, n + suffix)
        txid = None
        if op == 'rawtx':
            txid = rng.choice(sorted(led.raw)) if led.raw and rng.random() < 0.7 else gen.txid(rng)
        k0 = len(W.log)
        err = got = None
        try:
            if op == 'balance':
                got = api('get_balance')(addr)
            elif op == 'txs':
                got = sorted(api('get_transactions')(addr))
            elif op == 'unspent':
                got = netlab.got_unspents(api('get_unspent')(addr))
            elif op == 'rawtx':
                got = api('get_transaction_by_id')(txid)
            elif op == 'wunspent':
                got = netlab.got_unspents(w.first.get_unspents())
            elif op == 'wbalance':
                got = w.first.get_balance()
            else:
                got = sorted(set(w.first.get_transactions()))
        except Exception as e:
            err = e
        drain(W)
        evs = W.log[k0:]
        self.routed(net, evs, op)
        node = net in self.conn
        hit = any(isinstance(e['outcome'], str) for e in evs)
        unknown = op == 'rawtx' and txid not in led.raw
        if err is not None:
            if not hit and not (unknown and node):
                raise Violation('%s failed without a node error: %r' % (op, err), key='failed')
            ctx.obs('errors_surfaced')
            ctx.shape(op, 'err', node, type(err).__name__)
            return
        if node and hit:
            raise Violation('%s answered %r although the node failed (%s)' % (op, got, [e['outcome'] for e in evs]), key='masked')
        if node and unknown and got is not None:
            raise Violation('unknown transaction answered with %r' % got, key='unknown')
        if op == 'balance':
            want = led.balance(sc)
            if got != want or isinstance(got, float):
                if node and got == led.received.get(sc, 0):
                    self.deferred.append(Violation('the balance of %s through the node is %r (all that was ever received), %d is unspent' % (
                        addr, got, want), key='node-balance-includes-spent'))
                else:
                    raise Violation('balance of %s is %r, ledger %d' % (addr, got, want), key='balance')
            ctx.obs('balances_exact' if node else 'service_answers')
        elif op in ('txs', 'wtxs'):
            scs = [sc] if op == 'txs' else list(w.script.values())
            want = sorted({t for s in scs for t, _ in led.hist.get(s, [])})
            recv = sorted({t for s in scs for t in led.rtx.get(s, [])})
            if got != want:
                if node and got == recv:
                    self.deferred.append(Violation('transactions that only spend from %s are missing from the node\'s answer' % addr,
                                                   key='node-transactions-omit-spends'))
                else:
                    raise Violation('transactions %s, ledger %s' % (got[:4], want[:4]), key='transactions')
            ctx.obs('transactions_exact' if node else 'service_answers')
        elif op in ('unspent', 'wunspent'):
            want = sorted(x for s in ([sc] if op == 'unspent' else w.script.values()) for x in netlab.truth_unspents(led, s))
            if got != want or any(not isinstance(x[0], int) for x in got):
                raise Violation('unspents %s, ledger %s' % (got[:4], want[:4]), key='unspents')
            ctx.obs('unspents_exact' if node else 'service_answers')
        elif op == 'wbalance':
            want = sum(led.balance(s) for s in w.script.values())
            if F(got) != want or w.first.balance != want:
                raise Violation('wallet balance %r (%r), ledger %d' % (got, w.first.balance, want), key='wallet-balance')
            ctx.obs('balances_exact' if node else 'service_answers')
        else:
            if got != led.raw.get(txid):
                raise Violation('raw transaction %r, ledger %r' % (got, led.raw.get(txid)), key='rawtx')
            ctx.obs('raw_transactions')
        ctx.shape(op, node, len(self.conn), led.balance(sc).bit_length(), hit)

    def pay(self, net):
        rng, ctx = self.rng, self.ctx
        w, led = self.wal[net], W.led[net]
        ups = [u for s in w.script.values() for u in led.of(s)]
        total = sum(u[2] for u in ups)
        if total < 60000 * len(ups) + 10 ** 5:
            return
        dest = gen.address(rng, net)
        v = rng.randint(1000, 50000)
        k0, n = len(W.log), len(led.accepted)
        err = txid = None
        try:
            txid = w.first.send([(dest, v, 'satoshi')], fee=rng.randint(1, 5))
        except Exception as e:
            err = e
        drain(W)
        evs = W.log[k0:]
        self.routed(net, evs, 'send')
        node = net in self.conn
        new = led.accepted[n:]
        hit = any(isinstance(e['outcome'], str) for e in evs)
        if err is None:
            if len(new) != 1 or ref.Tx.parse(new[0]).txid() != txid:
                raise Violation('send() returned %s, the ledger accepted %s' % (txid, [ref.Tx.parse(x).txid() for x in new]), key='send')
            if sum(o.value for o in ref.Tx.parse(new[0]).outs if o.script == ref.script_for(dest)) < v:
                raise Violation('payment did not arrive', key='send')
            ctx.obs('node_payments' if node else 'service_payments')
        else:
            lost = any(e['outcome'] == 'lost' for e in evs)
            if not hit:
                raise Violation('send() failed (%r) without a fault; the node said %s' % (err, led.rejected[-1:]), key='send-failed')
            if new and not lost:
                raise Violation('send() failed but the ledger has the payment', key='send')
            ctx.obs('failed_broadcasts' if any(e['op'] == 'broadcast' for e in evs) else 'errors_surfaced')
        ctx.shape('pay', node, err is None, hit)

    def bad_broadcast(self, net):
        """A node that refuses a transaction makes the broadcast fail."""
        from bit.network import NetworkAPI
        f = getattr(NetworkAPI, 'broadcast_tx' + ('' if net == 'main' else '_testnet'))
        k0 = len(W.log)
        raw = ref.Tx(1, [ref.In(gen.txid(self.rng), 0)], [ref.Out(1000, b'\x51')]).ser().hex()
        try:
            r = f(raw)
        except ConnectionError:
            self.ctx.obs('failed_broadcasts')
        except Exception as e:
            if not any(isinstance(x['outcome'], str) for x in W.log[k0:]):
                raise
        else:
            raise Violation('broadcasting a refused transaction answered %r' % r, key='false-success')
        drain(W)
        self.routed(net, W.log[k0:], 'broadcast')

    def context(self):
        from bit.network.rates import currency_to_satoshi, satoshi_to_currency
        c = decimal.getcontext()
        now = (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, {k: v for k, v in c.traps.items()})
        if now != self.dc:
            raise Violation('the decimal context changed from %s to %s' % (self.dc, now), key='context')
        a = self.rng.randint(1, 21 * 10 ** 14)
        s = '%d.%08d' % divmod(a, 10 ** 8)
        if currency_to_satoshi(s, 'btc') != a or F(satoshi_to_currency(a, 'btc')) * 10 ** 8 != a:
            raise Violation('conversion of %s BTC is off after using the node' % s, key='conversion')
        self.ctx.obs('context_checks')


def fault(rng, p):
    if rng.random() >= p:
        return None
    k = rng.choice(['conn', 'timeout', 'connect_timeout', 'rpcerr', 'rpcerr', 'status:401', 'status:403', 'status:503', 'status:404',
                    'status:500', 'lost'])
    start = rng.choice([0, 0, 1, 2])
    st = {'n': 0}

    def f(op, n):
        i = st['n']
        st['n'] += 1
        if i < start or (k == 'lost' and op != 'broadcast'):
            return None
        return world.Fault(k)

    return f


def run(case, ctx):
    rng = random.Random(case['rs'])
    restore()
    saved = decimal.getcontext().copy()
    s = Sim(rng, ctx)
    try:
        if case['mode'] == 'amount':
            net = rng.choice(['main', 'test'])
            s.connect(net)
            s.deposit(net, case['a'])
            for _ in range(3):
                s.query(net, None)
            s.context()
        else:
            for n in ('main', 'test'):
                for _ in range(rng.randint(0, 3)):
                    s.deposit(n)
            for _ in range(case['n']):
                x = rng.random()
                net = rng.choice(['main', 'test'])
                if x < 0.2 and len(W.nodes) < 4:
                    s.connect(net)
                elif x < 0.35:
                    s.deposit(net, rng.choice([None, rng.randint(10 ** 6, 10 ** 11)]))
                elif x < 0.4:
                    W.led[net].mine()
                else:
                    W.faults = {}
                    if net in s.conn:
                        f = fault(rng, case['f'])
                        if f:
                            W.faults[('node', net)] = f
                    if x < 0.6:
                        s.pay(net)
                    elif x < 0.65:
                        s.bad_broadcast(net)
                    else:
                        s.query(net, None)
                    W.faults = {}
            s.context()
    finally:
        restore()
        decimal.setcontext(saved)
    if s.deferred:
        raise s.deferred[0]
