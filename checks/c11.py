"""C11: broadcast tells the truth."""
import itertools
import random

from vlib import gen, ref, txlab, world
from vlib.core import Violation
from checks import netlab
from checks.common import drain

LEVEL = 'fault_enumeration'
QUOTA = {'quick': 2500, 'thorough': 40000}
RULE = ('enumerated accept / reject / fault patterns over the broadcast providers of both networks and an own node, through '
        'NetworkAPI.broadcast_tx and wallet.send on a ledger that validates; log, ledger and result are compared; '
        'distinct = (network, route, behaviour pattern, validity of the transaction)')
REQUIRED = ['success_reported', 'failure_reported', 'txids_compared', 'payloads_compared', 'rejections_seen', 'node_broadcasts',
            'lost_replies']
ASSUMPTIONS = ['a provider accepts with HTTP 200 and refuses with any other status', 'a lost reply counts as not accepted by that provider']
BEH = ['ok', 'reject', 'conn', 'timeout', 'connect_timeout', 'proxy', 'ssl', 'status:500', 'status:503', 'status:429', 'status:404',
       'status:403', 'lost']


def setup(ctx):
    global W, LISTS
    W = world.World().install()
    from bit.network.services import NetworkAPI
    LISTS = {k: getattr(NetworkAPI, k) for k in dir(NetworkAPI) if k.endswith(('_MAIN', '_TEST'))}


def restore():
    from bit.network.services import NetworkAPI
    for k, v in LISTS.items():
        setattr(NetworkAPI, k, v)


def mk(rng, net, via, beh, valid=True):
    return {'net': net, 'via': via, 'beh': beh, 'valid': valid, 'rs': rng.getrandbits(32)}


def directed(ctx):
    rng = random.Random('c11 %s' % ctx.seed)
    for net in ('main', 'test'):
        provs = netlab.PROVIDERS[('broadcast', net)]
        for pat in itertools.product(['ok', 'reject', 'conn'], repeat=len(provs)):
            yield mk(rng, net, rng.choice(['send', 'api']), dict(zip(provs, pat)))
        for b in BEH:
            for s in provs:
                d = {x: rng.choice(['conn', 'reject']) for x in provs}
                d[s] = b
                yield mk(rng, net, 'api', d)
                yield mk(rng, net, 'send', d)
            for valid in (True, False):
                yield mk(rng, net, 'node', {'node': b}, valid)
                yield mk(rng, net, 'nodesend', {'node': b}, valid)
        yield mk(rng, net, 'api', {s: 'ok' for s in provs}, False)
        yield mk(rng, net, 'send', {s: 'ok' for s in provs}, True)


def generate(rng, ctx):
    net = rng.choice(['main', 'test'])
    via = rng.choice(['send', 'send', 'api', 'node', 'nodesend'])
    if via.startswith('node'):
        return mk(rng, net, via, {'node': rng.choice(BEH + ['ok'] * 5)}, rng.random() < 0.7)
    p = rng.choice([0.1, 0.3, 0.6])
    return mk(rng, net, via, {s: 'ok' if rng.random() < p else rng.choice(BEH) for s in netlab.PROVIDERS[('broadcast', net)]},
              via == 'send' or rng.random() < 0.8)


def run(case, ctx):
    import bit
    from bit.network import NetworkAPI
    net, via = case['net'], case['via']
    rng = random.Random(case['rs'])
    w = W
    w.led = {'main': world.Ledger('main'), 'test': world.Ledger('test')}
    w.log.clear()
    w.faults = {}
    w.nodes = {}
    w.fee_fault = None
    led = w.led[net]
    k = gen.key_int(rng)
    comp = rng.random() < 0.8
    wal = txlab.Wallet({'kind': 'single', 'net': net, 'k': hex(k), 'comp': comp})
    for i in range(rng.randint(1, 4)):
        led.fund(wal.script[rng.choice(sorted(wal.script))], rng.randint(10 ** 6, 10 ** 9), gen.txid(rng), rng.randint(0, 400),
                 rng.randint(0, 9))
    restore()
    node = via.startswith('node')
    try:
        if node:
            port = 18332 if net == 'test' else 8332
            w.nodes['localhost:%d' % port] = dict(net=net, user='u', password='p')
            NetworkAPI.connect_to_node(user='u', password='p', port=port, testnet=net == 'test')
        dest = gen.address(rng, net)
        amt = rng.randint(1000, 10 ** 5)
        if not case['valid'] or via in ('api', 'node'):
            # a raw transaction made elsewhere
            ups = [[v, t, n, 's' if sc == wal.script.get('s') else 'l', 1, 0xFFFFFFFF] for (t, n), (v, sc, _) in led.utxo.items()]
            raw = wal.first.create_transaction([(dest, amt, 'satoshi')], unspents=wal.unspents(ups), fee=10)
            if not case['valid']:
                if rng.random() < 0.5:
                    led.utxo.clear()
                else:
                    raw = raw[:-8] + '01000000'  # breaks the signatures
            suffix = '' if net == 'main' else '_testnet'
            call = lambda: getattr(NetworkAPI, 'broadcast_tx' + suffix)(raw)
            api = True
        else:
            raw, api = None, False
            call = lambda: wal.first.send([(dest, amt, 'satoshi')], fee=rng.choice([5, None]))
        for s, b in case['beh'].items():
            if b == 'reject':
                b = 'status:400' if s != 'node' else 'rpcerr'
            if s == 'node' and b == 'status:500':
                b = 'rpcerr'
            if b != 'ok':
                f = world.Fault(b)
                w.faults[(s, net)] = lambda op, n, f=f: f if op == 'broadcast' else None
        w.log.clear()
        exc = res = None
        try:
            res = call()
        except ConnectionError as e:
            exc = e
    finally:
        restore()
    drain(w)
    ev = [e for e in w.log if e['op'] == 'broadcast']
    trace = [(e['service'], e['net'], e['outcome']) for e in ev]
    acc = [e for e in ev if e['outcome'] == 200]
    if any(e['net'] != net for e in ev):
        raise Violation('broadcast left its network: %s' % trace, key='network')
    sent = {e['raw'] for e in ev}
    if len(sent) > 1 or (api and sent and sent != {raw}):
        raise Violation('providers were sent something else than the transaction: %s' % [str(x)[:200] for x in sent], key='payload')
    ctx.obs('payloads_compared', len(ev))
    if any(e['outcome'] in (400, 500, 'rpcerr', 'status:400') for e in ev):
        ctx.obs('rejections_seen')
    if any(e['outcome'] == 'lost' for e in ev):
        ctx.obs('lost_replies')
    if node:
        ctx.obs('node_broadcasts')
        if any(e['service'] != 'node' for e in w.log):
            raise Violation('requests beside the node: %s' % trace, key='node')
    provs = ('node',) if node else netlab.PROVIDERS[('broadcast', net)]
    if exc is None:
        if len(acc) != 1:
            raise Violation('success reported with %d acceptances: %s' % (len(acc), trace), key='false-success')
        if ev[-1] is not acc[0]:
            raise Violation('further providers contacted after the acceptance: %s' % trace, key='after-acceptance')
        if w.log[-1] is not acc[0]:
            raise Violation('after the acceptance %s was asked for %s' % (w.log[-1]['service'], w.log[-1]['op']),
                            key='after-acceptance')
        if not api:
            t = ref.Tx.parse(acc[0]['raw'])
            if res != t.txid():
                raise Violation('send returned %r, the accepted transaction is %s' % (res, t.txid()), key='txid')
            if [ref.Tx.parse(x).txid() for x in led.accepted] != [res]:
                raise Violation('ledger accepted %d transactions' % len(led.accepted), key='ledger')
            ctx.obs('txids_compared')
            if (ref.script_for(dest), amt) not in [(o.script, o.value) for o in t.outs]:
                raise Violation('the broadcast transaction does not pay the recipient', key='payload', hex=acc[0]['raw'])
        ctx.obs('success_reported')
    else:
        if acc:
            raise Violation('failure (%r) reported although %s accepted: %s' % (exc, acc[0]['service'], trace),
                            key='false-failure')
        missing = [s for s in provs if s not in [e['service'] for e in ev]]
        if missing:
            raise Violation('failure reported without asking %s: %s' % (missing, trace), key='not-asked')
        ctx.obs('failure_reported')
    ctx.shape(net, via, case['beh'], case['valid'])
