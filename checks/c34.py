"""C34: the main network's and the test network's classes behave alike."""
import inspect
import json
import random
import sys
import time

from vlib import gen, ref, txlab, world
from vlib.core import Violation
from checks import netlab
from checks.c13 import FIAT, newfees, newprices
from checks.common import drain

LEVEL = 'exploration'
QUOTA = {'quick': 1500, 'thorough': 40000}
RULE = ('every request is made twice with the same secrets, unspents and randomness: to the classes of the main network and - with addresses '
        'translated - to those of the test network, whose ledger mirrors the other; transactions, partial signatures, prepared data, exports, '
        'views, broadcasts and refusals are compared; distinct = (wallet kind, way of asking, unspents, refusal, outages)')
REQUIRED = ['transactions', 'prepared', 'cosigned', 'multisig', 'segwit', 'uncompressed', 'refusals', 'views', 'broadcasts', 'outages', 'exports', 'surfaces', 'messages', 'defaults', 'fiat',
            'raw_transactions']
ASSUMPTIONS = ['blockchain.info serves the main network only and is down in this world']
API = ['address', 'balance_as', 'can_sign_unspent', 'create_transaction', 'from_bytes', 'from_der', 'from_hex', 'from_int', 'from_pem', 'get_balance', 'get_transactions',
       'get_unspents', 'is_compressed', 'prepare_transaction', 'pub_to_hex', 'public_key', 'public_point', 'scriptcode', 'segwit_address', 'segwit_scriptcode', 'send', 'sign',
       'sign_transaction', 'to_bytes', 'to_der', 'to_hex', 'to_int', 'to_pem', 'to_wif', 'verify', 'sign_raw']
SUF = {'main': '', 'test': '_testnet'}


class Clock:
    now = 1.6e9


def setup(ctx):
    global W
    time.time = lambda: Clock.now
    time.monotonic = lambda: Clock.now - 1.5e9
    time.time_ns = lambda: int(Clock.now * 10 ** 9)
    time.monotonic_ns = lambda: int((Clock.now - 1.5e9) * 10 ** 9)
    W = world.World().install()
    for m in [m for m in sys.modules if m == 'bit' or m.startswith('bit.')]:
        del sys.modules[m]
    import bit  # noqa


def mirror(a):
    """The test network's address with the same content as the main network's."""
    if not isinstance(a, str):
        return a
    if a.lower().startswith('bc1'):
        _, ver, prog = (None,) + tuple(ref.segwit_dec(a)[-2:])
        t = ref.segwit_addr('tb', ver, prog)
        return t.upper() if a.isupper() else t
    raw = ref.b58check_dec(a)
    return ref.b58check({0: b'\x6f', 5: b'\xc4'}[raw[0]] + raw[1:])


def directed(ctx):
    yield {'t': 'surface', 'rs': 1}
    rng = random.Random('c34 %s' % ctx.seed)
    for kind in ('single', 'multi'):
        for mode in ('direct', 'cold', 'net', 'send'):
            for _ in range(12):
                yield dict(make(rng, ctx, kind), mode=mode)


def make(rng, ctx, kind=None):
    c = gen.tx_case(rng, ctx, net='main', kind=kind, big=False, units=('satoshi', 'satoshi', 'btc', 'mbtc', 'ubtc'))
    c['t'] = 'tx'
    c['mode'] = rng.choice(['direct', 'direct', 'cold', 'cold', 'net', 'net', 'send'])
    c['nofee'] = rng.random() < 0.15
    c['fiat'] = rng.choice(FIAT) if rng.random() < 0.1 else None
    c['fail'] = rng.choice([None] * 14 + ['address', 'unit', 'amount', 'funds', 'none', 'own-network', 'negative'])
    c['out'] = rng.random() < 0.25
    c['fetch'] = rng.random() < 0.5
    return c


def generate(rng, ctx):
    return make(rng, ctx)


def surface(ctx):
    import bit
    from bit.network import NetworkAPI
    for a, b in ((bit.PrivateKey, bit.PrivateKeyTestnet), (bit.MultiSig, bit.MultiSigTestnet)):
        x, y = ({n for n in API if hasattr(c, n)} for c in (a, b))
        if x != y:
            raise Violation('%s and %s offer different attributes: %s' % (a.__name__, b.__name__, sorted(x ^ y)), key='surface')
        for n in sorted(x) + ['__init__']:
            f, g = getattr(a, n), getattr(b, n)
            if callable(f):
                p, q = ([(v.name, v.kind, v.default) for v in inspect.signature(h).parameters.values()] for h in (f, g))
                if p != q and not any(v[1] in (inspect.Parameter.VAR_KEYWORD, inspect.Parameter.VAR_POSITIONAL) for v in p + q):
                    raise Violation('%s.%s and %s.%s take different arguments: %s and %s' % (a.__name__, n, b.__name__, n, p, q), key='surface')
            ctx.obs('surfaces')
    for n in ('get_balance', 'get_transactions', 'get_transaction_by_id', 'get_unspent', 'broadcast_tx'):
        p, q = ([v.name for v in inspect.signature(getattr(NetworkAPI, n + s)).parameters.values()] for s in ('', '_testnet'))
        if p != q:
            raise Violation('NetworkAPI.%s and its test network counterpart take different arguments' % n, key='surface')


def plain(x):
    return sorted(map(repr, x)) if isinstance(x, list) else x


def parts(h):
    """A transaction without the signatures and the order of its inputs: unspents are fetched from other services on the test network."""
    t = ref.Tx.parse(bytes.fromhex(h))
    return [t.version, t.lock, sorted((i.txid, i.vout, i.seq, len(i.wit) > 0, len(i.script) > 0) for i in t.ins), [(o.value, o.script.hex()) for o in t.outs]]


def outcome(f):
    try:
        return 'ok', f()
    except Exception:
        return 'refused', None


def side(case, net, ctx):
    """Everything that is observed on one of the networks."""
    rng = random.Random(case['rs'])
    tr = (lambda a: a) if net == 'main' else mirror
    c = dict(case, w=dict(case['w'], net=net), outs=[[tr(o[0])] + o[1:] for o in case['outs']], leftover=tr(case['leftover']))
    W.log.clear()
    W.rates, W.fee = newprices(rng), newfees(rng)
    W.rate_fault, W.fee_fault = {}, None
    Clock.now += 7200  # whatever was cached has expired
    w = txlab.Wallet(c['w'])
    led = W.led[net] = world.Ledger(net)
    W.led['test' if net == 'main' else 'main'] = world.Ledger('test' if net == 'main' else 'main')
    for a, t, v, kind, conf, seq in c['ups']:
        led.fund(w.script[kind], a, t, v, conf)
        led.raw[t] = '01000000%s00000000' % t
    pl = {'blockchain.info': ['conn', 0, 10 ** 6]}
    if case['out']:
        pl.update(netlab.plan(rng, 'unspent', net, 0.5, netlab.SERVICES[:4]))
    netlab.install_plan(W, pl, (net,))
    from bit.network import NetworkAPI
    b = w.first
    single = c['w']['kind'] == 'single'
    out = {}
    out['addresses'] = [b.address, b.segwit_address]
    if out['addresses'] != [w.addr['l'], w.addr.get('s')]:
        raise Violation('addresses %s on the %s network, expected %s' % (out['addresses'], net, w.addr), key='addresses')
    out['addresses'] = [x if net == 'test' else x and mirror(x) for x in out['addresses']]
    out['scripts'] = [b.scriptcode.hex(), b.segwit_scriptcode.hex()] if single or all(c['w']['comp']) else [b.scriptcode.hex()]
    if single:
        cls = type(b)
        data = b'%d' % case['rs']
        s = b.sign(data)
        out['exports'] = [b.to_hex(), b.to_int(), b.to_bytes(), b.to_der(), b.to_pem(), b.public_key, b.pub_to_hex(), b.is_compressed(), s, b.verify(s, data), b.verify(s, data + b'.'),
                          b.public_point, ref.b58check_dec(b.to_wif())[1:]]
        out['again'] = [f().address == b.address or not b.is_compressed() for f in (
            lambda: cls(b.to_wif()), lambda: cls.from_hex(b.to_hex()), lambda: cls.from_bytes(b.to_bytes()), lambda: cls.from_int(b.to_int()),
            lambda: cls.from_der(b.to_der()), lambda: cls.from_pem(b.to_pem()))]
        out['classes'] = [type(f()) is cls for f in (lambda: cls.from_hex(b.to_hex()), lambda: cls.from_bytes(b.to_bytes()), lambda: cls.from_int(b.to_int()),
                                                     lambda: cls.from_der(b.to_der()), lambda: cls.from_pem(b.to_pem()))]
    else:
        out['contract'] = [b.redeemscript, b.public_keys, b.m, b.public_key, b.is_compressed]
    # a request
    kw, outs = txlab.kwargs(c), txlab.outputs(c)
    if case['nofee']:
        kw.pop('fee'), kw.pop('absolute_fee', None)
    if case['fiat']:
        outs.append((tr(gen.address(rng, 'main')), rng.choice([1, '2.5', 3]), case['fiat']))
    dest = gen.address(rng, 'main')
    bad = {'address': dest[:-1] + ('1' if dest[-1] != '1' else '2'), 'own-network': dest if net == 'test' else mirror(dest)}.get(case['fail'])
    if case['fail'] in ('unit', 'amount', 'funds', 'negative'):
        outs.append((tr(dest),) + {'unit': (1, 'nothing'), 'amount': ('abc', 'btc'), 'funds': (21 * 10 ** 14, 'satoshi'), 'negative': (-1, 'satoshi')}[case['fail']])
    elif bad:
        outs.append((bad, 1000, 'satoshi'))
    ups = [] if case['fail'] == 'none' else w.unspents(c['ups'])
    random.seed(case['rs'])
    mode = case['mode'] if single or case['mode'] != 'send' else 'direct'
    fetched = mode == 'net' or case['fetch'] and mode == 'cold' and case['fail'] != 'none'
    if fetched:
        kw['combine'] = True
    h = None
    if mode == 'cold':
        if single:
            kw['compressed'] = c['w']['comp']
        if fetched:
            how, p = outcome(lambda: type(b).prepare_transaction(w.addr['l'], outs, **kw))
        else:
            how, p = outcome(lambda: type(b).prepare_transaction(w.addr['l'], outs, unspents=ups, **kw))
        if how == 'ok':
            d = json.loads(p)
            d['outputs'] = [[mirror(x) if net == 'main' and any(x == o[0] for o in [(w.addr['l'],), (w.addr.get('s'),), (kw.get('leftover'),)] + outs) else x, v] for x, v in d['outputs']]
            if fetched:
                d['unspents'].sort(key=json.dumps)
            out['prepared'] = d
            how, h = outcome(lambda: b.sign_transaction(p))
        else:
            h = p
    elif mode == 'send':
        how, h = outcome(lambda: b.send(outs, unspents=ups, **kw))
        sent = [e['raw'] for e in W.log if e['op'] == 'broadcast']
        out['broadcast'] = sorted(set(sent))  # the main network has one more service to try
    elif mode == 'net':
        how, h = outcome(lambda: b.create_transaction(outs, **kw))
    else:
        how, h = outcome(lambda: b.create_transaction(outs, unspents=ups, **kw))
    out['created'] = [how, parts(h) if fetched and how == 'ok' else h]
    if how == 'ok' and mode != 'send':
        steps = []
        for o in w.bits[1:]:
            how, h = outcome(lambda: o.sign_transaction(h, unspents=w.unspents(c['ups'])))
            steps.append([how, h])
            if how != 'ok':
                break
        if how == 'ok':
            # once more: refused or unchanged, and with the unspents fetched
            steps.append(outcome(lambda: b.sign_transaction(h, unspents=w.unspents(c['ups']))))
            steps.append(outcome(lambda: b.sign_transaction(h)))
        out['steps'] = [[how, parts(x) if fetched and how == 'ok' else x] for how, x in steps]
    # views
    unit = rng.choice(['satoshi', 'btc', 'mbtc', 'ubtc', rng.choice(FIAT)])
    out['view'] = [outcome(lambda: b.get_balance(unit)), outcome(lambda: sorted(repr(u) + u.type for u in b.get_unspents())), outcome(lambda: sorted(b.get_transactions())), b.balance,
                   b.balance_as(unit)]
    api = lambda name, x: outcome(lambda: plain(getattr(NetworkAPI, name + SUF[net])(x)))
    out['api'] = [api('get_balance', b.address), api('get_unspent', b.address), api('get_transactions', b.address), api('get_transaction_by_id', c['ups'][0][1])]
    drain(W)
    if case['out']:
        ctx.obs('outages', any(isinstance(e['outcome'], str) and e['outcome'] in netlab.INJECTED or str(e['outcome']).startswith('status:') for e in W.log if e['service'] != 'blockchain.info'))
    return out


def run(case, ctx):
    if case['t'] == 'surface':
        return surface(ctx)
    a, b = side(case, 'main', ctx), side(case, 'test', ctx)
    for k in a:
        if a[k] != b.get(k):
            if k == 'prepared' and k in b:
                a, b = ({k: {n: v for n, v in x[k].items() if v != y[k].get(n)}} for x, y in ((a, b), (b, a)))
            raise Violation('asked for the same, the two networks\' classes differ in %s: %s and %s' % (k, str(a[k])[:700] + " ... " + str(a[k])[-300:], str(b.get(k))[:700] + " ... " + str(b.get(k))[-300:]), key='differ:' + k)
    single = case['w']['kind'] == 'single'
    how = a['created'][0]
    ctx.obs('transactions' if how == 'ok' else 'refusals')
    ctx.obs('views')
    if 'prepared' in a:
        ctx.obs('prepared')
    if len(a.get('steps', ())) > 2:
        ctx.obs('cosigned')
    if a.get('steps'):
        ctx.obs('raw_transactions')
    if not single:
        ctx.obs('multisig')
    else:
        ctx.obs('exports')
        if not case['w']['comp']:
            ctx.obs('uncompressed')
    if any(u[3] == 's' for u in case['ups']):
        ctx.obs('segwit')
    if a.get('broadcast'):
        ctx.obs('broadcasts')
    if case['msg']:
        ctx.obs('messages')
    if case['nofee']:
        ctx.obs('defaults')
    if case['fiat']:
        ctx.obs('fiat')
    ctx.shape(case['w']['kind'], case['mode'], a['created'][0], case['fail'], sorted({u[3] for u in case['ups']}), case['out'], case['nofee'], case['combine'], case['abs'])
