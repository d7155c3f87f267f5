"""C20: secrets stay in the key."""
import base64
import contextlib
import io
import logging
import os
import random
import sys
import time
import traceback
import warnings
from urllib.parse import unquote_to_bytes

from vlib import gen, ref, txlab, world
from vlib.core import Violation
from checks import netlab
from checks.common import drain

LEVEL = 'exploration'
QUOTA = {'quick': 1600, 'thorough': 25000}
RULE = ('seeded histories of imports (valid and mistyped), queries, payments, cold signing, co-signing, node use and failures with '
        'random 256-bit keys; every outgoing byte, log record, textual form, error, warning, printed line and transaction is searched '
        'for every encoding of the secrets; signature nonces are watched for reuse; new keys are drawn under equal seeds, frozen '
        'clocks and in forked processes and compared, and their bits counted; distinct = (operation, sink, fault)')
REQUIRED = ['requests_searched', 'log_records_searched', 'texts_searched', 'errors_searched', 'transactions_searched',
            'keys_generated', 'forked_keys', 'mistyped_imports', 'nonces', 'bit_counts']
ASSUMPTIONS = ['exporting (to_wif, to_hex, to_bytes, to_int, to_der, to_pem) is explicit; so is the key generator printing its result',
               'memory and process internals are outside']
SINK = []


class Grab(logging.Handler):
    def emit(self, r):
        try:
            SINK.append(('log', r.getMessage() + (('\n' + ''.join(traceback.format_exception(*r.exc_info))) if r.exc_info else '')))
        except Exception as e:
            SINK.append(('log', repr(r.args) + str(r.msg) + repr(e)))


def setup(ctx):
    global W, LISTS
    W = world.World().install()
    root = logging.getLogger()
    root.handlers[:] = [Grab()]
    root.setLevel(1)
    from bit.network.services import NetworkAPI
    LISTS = {k: getattr(NetworkAPI, k) for k in dir(NetworkAPI) if k.endswith(('_MAIN', '_TEST'))}
    bits_seen.clear()


def restore():
    from bit.network.services import NetworkAPI
    for k, v in LISTS.items():
        setattr(NetworkAPI, k, v)


bits_seen = []


def bias():
    """Every bit of new keys is set about half of the time."""
    n = len(bits_seen)
    for b in range(255):
        f = sum(k >> b & 1 for k in bits_seen) / n
        if not 0.3 < f < 0.7:
            raise Violation('bit %d of new keys is set in %.3f of %d keys' % (b, f, n), key='biased')
    bits_seen.clear()


def directed(ctx):
    for i in range(40):
        yield {'mode': 'gen', 'rs': i}
    for i in range(16):
        yield {'mode': 'fork', 'rs': i}
    for i in range(60):
        yield {'mode': 'import', 'rs': i}


def generate(rng, ctx):
    x = rng.random()
    mode = 'use' if x < 0.62 else ('import' if x < 0.8 else ('gen' if x < 0.96 else 'fork'))
    return {'mode': mode, 'rs': rng.getrandbits(32)}


def needles(k):
    raw = k.to_bytes(32, 'big')
    out = []
    for name, b in (('raw', raw), ('reversed', raw[::-1])):
        out += [(name, b[:16]), (name, b[16:])]
        out += [(name + ' hex', b.hex()[:32].encode()), (name + ' hex', b.hex()[32:].encode())]
        out += [(name + ' HEX', b.hex().upper()[:32].encode()), (name + ' HEX', b.hex().upper()[32:].encode())]
        out += [(name + ' base64', base64.b64encode(b)[:40]), (name + ' base64', base64.urlsafe_b64encode(b)[:40])]
    out.append(('decimal', str(k).encode()))
    out.append(('decimal', str(int.from_bytes(raw[::-1], 'big')).encode()))
    out.append(('base58', ref.b58enc(raw)[:38].encode()))
    for net in ('main', 'test'):
        for c in (True, False):
            out.append(('WIF', ref.wif(k, net, c)[:40].encode()))
    out.append(('repr', repr(raw)[2:40].encode()))
    out.append(('list', ', '.join(map(str, raw[:12])).encode()))
    return out


def search(secrets, where, data, ctx):
    if isinstance(data, str):
        data = data.encode('utf-8', 'surrogateescape')
    low = None
    for k in secrets:
        for name, n in needles(k):
            if n in data:
                raise Violation('%s contains the private key (%s)' % (where, name), key='leak', text=data[:400].decode('latin1'))
    ctx.obs({'request': 'requests_searched', 'log': 'log_records_searched', 'error': 'errors_searched',
             'transaction': 'transactions_searched'}.get(where.split()[0], 'texts_searched'))


def search_all(secrets, ctx):
    for e in W.log:
        blob = '\n'.join([e['url'], e['body'], repr(e['headers']), str(e['raw'])]).encode('latin1', 'replace')
        auth = e['headers'].get('Authorization', '')
        if auth.startswith('Basic '):
            blob += base64.b64decode(auth[6:])
        try:
            blob += bytes.fromhex(e['raw'] or '')
        except ValueError:
            pass
        search(secrets, 'request to %s' % e['service'], blob + unquote_to_bytes(e['url']) + unquote_to_bytes(e['body']), ctx)
    for kind, t in SINK:
        search(secrets, '%s record' % kind, t, ctx)
    SINK.clear()
    W.log.clear()


def text_forms(o):
    return '\n'.join([repr(o), str(o), '%s' % (o,), '{}'.format(o), repr([o]), repr({'k': o})])


def errtext(e):
    return ''.join(traceback.format_exception_only(type(e), e)) + repr(e) + repr(e.args) + str(e) + \
        ''.join(errtext(c) for c in (e.__cause__, e.__context__) if c is not None)


NONCES = {}


def watch_nonces(raw, prev, ctx):
    """A nonce used for two different digests under one key gives the key away."""
    t = ref.Tx.parse(raw)
    for i in t.ins:
        items = list(i.wit)
        try:
            items += [d for _, d in ref.parse_script(i.script) if d]
        except ref.RefError:
            pass
        for it in items:
            if it[:1] == b'\x30' and it[-1:] == b'\x01':
                try:
                    r, s = ref.parse_der(it[:-1])
                except ref.RefError:
                    continue
                ctx.obs('nonces')
                if NONCES.setdefault(r, s) != s:
                    raise Violation('two different signatures share a nonce (r = %x): the private key can be computed' % r, key='nonce')
    if len(NONCES) > 200000:
        NONCES.clear()


def run(case, ctx):
    rng = random.Random(case['rs'])
    W.log.clear()
    SINK.clear()
    W.faults, W.nodes = {}, {}
    buf = io.StringIO()
    with warnings.catch_warnings(record=True) as ws, contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
        warnings.simplefilter('always')
        secrets = {'gen': gen_keys, 'fork': fork_keys, 'import': imports, 'use': use}[case['mode']](rng, ctx)
    drain(W)
    for x in ws:
        SINK.append(('warning', str(x.message)))
    if buf.getvalue():
        SINK.append(('print', buf.getvalue()))
    search_all(secrets, ctx)


def rkey(rng):
    return rng.randint(2 ** 254, ref.N - 1) if rng.random() < 0.9 else rng.randint(2 ** 200, 2 ** 230)


# ------------------------------------------------------------------ generation
SEEN = set()


def fresh_keys(rng, n):
    import bit
    from bit.keygen import generate_key_address_pair
    from bit.format import wif_to_bytes
    out = []
    for _ in range(n):
        how = rng.randrange(4)
        if how == 0:
            out.append(bit.Key().to_int())
        elif how == 1:
            out.append(bit.PrivateKeyTestnet().to_int())
        elif how == 2:
            out.append(bit.PrivateKey().to_int())
        else:
            p = generate_key_address_pair()
            out.append(int.from_bytes(wif_to_bytes(p[0])[0], 'big') if isinstance(p[0], str) else int.from_bytes(p[0], 'big'))
    return out


def gen_keys(rng, ctx):
    keys = []
    rt = time.time
    seed = rng.getrandbits(16)
    for rnd in range(2):
        random.seed(seed)
        if rng.random() < 0.5:
            time.time = lambda: 1234567890.0
        try:
            keys += fresh_keys(random.Random(seed), 12)
        finally:
            time.time = rt
    for k in keys:
        if not 0 < k < ref.N:
            raise Violation('new key out of range: %d' % k, key='range')
        if k in SEEN:
            raise Violation('the same key was generated twice', key='repeat')
        SEEN.add(k)
    bits_seen.extend(keys)
    if len(bits_seen) >= 600:
        bias()
        ctx.obs('bit_counts')
    if any(k >> 192 == 0 for k in keys):
        raise Violation('new key %064x has hardly any entropy' % min(keys), key='small')
    ctx.obs('keys_generated', len(keys))
    ctx.shape('gen', seed % 16)
    return keys


def fork_keys(rng, ctx):
    seed = rng.getrandbits(16)
    random.seed(seed)
    out = []
    for _ in range(2):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.write(w, ','.join('%x' % k for k in fresh_keys(random.Random(seed), 4)).encode())
            finally:
                os._exit(0)
        os.close(w)
        data = b''
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        os.close(r)
        os.waitpid(pid, 0)
        out.append([int(x, 16) for x in data.decode().split(',') if x])
    out.append(fresh_keys(random.Random(seed), 4))
    flat = [k for l in out for k in l]
    if len(flat) != 12 or len(set(flat)) != 12 or SEEN & set(flat):
        raise Violation('forked processes generated the same keys: %s' % [['%x' % k for k in l] for l in out], key='fork')
    SEEN.update(flat)
    ctx.obs('forked_keys', len(flat))
    ctx.shape('fork', seed % 16)
    return []


# ------------------------------------------------------------------ imports, representations, errors
def imports(rng, ctx):
    import bit
    from bit.wallet import wif_to_key
    k = rkey(rng)
    net = rng.choice(['main', 'test'])
    cls = bit.Key if net == 'main' else bit.PrivateKeyTestnet
    key = cls.from_int(k)
    raw = k.to_bytes(32, 'big')
    ways = [lambda: cls(ref.wif(k, net, True)), lambda: cls(ref.wif(k, net, False)), lambda: cls.from_hex(raw.hex()),
            lambda: cls.from_bytes(raw), lambda: cls.from_der(key.to_der()), lambda: cls.from_pem(key.to_pem()),
            lambda: wif_to_key(ref.wif(k, net, rng.random() < 0.5))]
    for f in ways:
        o = f()
        search([k], 'text of a key', text_forms(o), ctx)
        search([k], 'text of a key', text_forms(o.public_key) + text_forms(o.public_point) + o.address + str(o.segwit_address), ctx)
    from bit.network.meta import Unspent
    mcls = bit.MultiSig if net == 'main' else bit.MultiSigTestnet
    o2 = rkey(rng)
    ms = mcls(key, [ref.pubkey(k, True).hex(), ref.pubkey(o2, True).hex()], 1)
    search([k], 'text of a multisig wallet', text_forms(ms) + text_forms(ms.redeemscript) + text_forms(ms.public_keys), ctx)
    wif = ref.wif(k, net, rng.random() < 0.8)
    raw_wif = (b'\x80' if net == 'main' else b'\xef') + raw
    i = rng.randint(46, len(wif) - 1)
    mist = wif[:i] + rng.choice([c for c in ref.B58 if c != wif[i]]) + wif[i + 1:]
    bad = [('mistyped checksum', lambda: cls(mist)), ('cut', lambda: cls(wif[:-1])), ('doubled', lambda: cls(wif + wif[-1])),
           ('space', lambda: cls(wif + ' ')), ('zero', lambda: cls(wif[:48] + '0' + wif[49:])), ('bytes', lambda: cls(wif.encode())),
           ('hex as wif', lambda: cls(raw.hex())), ('int as wif', lambda: cls(k)), ('long hex', lambda: cls.from_hex(raw.hex() + '00')),
           ('bad hex', lambda: cls.from_hex(raw.hex()[:-1] + 'g')), ('too large', lambda: cls.from_int(k + ref.N)),
           ('long bytes', lambda: cls.from_bytes(raw + b'\1')), ('negative', lambda: cls.from_int(-k)),
           ('der', lambda: cls.from_der(key.to_der()[:-3])), ('wif_to_key', lambda: wif_to_key(mist)),
           ('pem', lambda: cls.from_pem(key.to_pem()[:-40])), ('multisig', lambda: mcls(key, [ref.pubkey(o2, True).hex()], 1)),
           ('multisig of int', lambda: mcls(k, [ref.pubkey(k, True).hex()], 1)),
           ('multisig of wif', lambda: mcls(wif, [ref.pubkey(k, True).hex()], 1)),
           ('too many', lambda: mcls(key, [ref.pubkey(k, True).hex()], 2)),
           ('sign text', lambda: key.sign('text')), ('sign none', lambda: key.sign(None)),
           ('unknown flag', lambda: cls(ref.b58check(raw_wif + bytes([rng.choice([0, 2, 3, 255])])))),
           ('unknown version', lambda: cls(ref.b58check(bytes([rng.choice([0, 5, 0x6F, 0x81])]) + raw + b'\1'))),
           ('too long', lambda: cls(ref.b58check(raw_wif + b'\1\1'))), ('too short', lambda: cls(ref.b58check(raw_wif[:-1]))),
           ('short compressed', lambda: wif_to_key(ref.b58check(raw_wif[:-1] + b'\1'))),
           ('wif as address', lambda: key.create_transaction([(wif, 1, 'satoshi')], unspents=[])),
           ('wif as return address', lambda: key.create_transaction([(key.address, 600, 'satoshi')], leftover=wif, fee=1, unspents=[
               Unspent(5000, 1, ref.script_for(key.address).hex(), '11' * 32, 0)])),
           ('verify text', lambda: key.verify('x', 'y')), ('verify none', lambda: key.verify(None, b'')),
           ('verify garbage', lambda: key.verify(bytes(rng.getrandbits(8) for _ in range(70)), b'data')),
           ('verify empty', lambda: key.verify(b'', b'')), ('verify other', lambda: key.verify(cls.from_int(o2).sign(b'd'), b'd')),
           ('verify cut', lambda: key.verify(key.sign(b'd')[:-1], b'd')),
           ('currency', lambda: key.balance_as('xyz')), ('not an unspent', lambda: key.can_sign_unspent(None)),
           ('compare', lambda: key == 'key'), ('compare keys', lambda: key == cls.from_int(o2)), ('hash', lambda: hash(key)),
           ('no outputs', lambda: key.create_transaction(['nonsense'], unspents=[])),
           ('bad tx', lambda: key.sign_transaction('nonsense', unspents=[]))]
    W.faults = {(s, n): (lambda op, x: world.Fault('conn')) for s in netlab.SERVICES for n in ('main', 'test')}
    for name, f in bad:
        try:
            f()
        except Exception as e:
            search([k, o2], 'error of %s' % name, errtext(e), ctx)
            ctx.shape('err', name, type(e).__name__)
        ctx.obs('mistyped_imports')
    return [k, o2]


# ------------------------------------------------------------------ histories
def use(rng, ctx):
    import bit
    from bit.network import NetworkAPI
    from bit.exceptions import InsufficientFunds
    net = rng.choice(['main', 'test'])
    ks = [rkey(rng), rkey(rng), rkey(rng)]
    W.led = {'main': world.Ledger('main'), 'test': world.Ledger('test')}
    led = W.led[net]
    specs = [{'kind': 'single', 'net': net, 'k': hex(ks[0]), 'comp': rng.random() < 0.7},
             {'kind': 'multi', 'net': net, 'ks': [hex(k) for k in ks], 'comp': [True] * 3, 'm': 2, 'signers': [0, 1]}]
    x = txlab.Wallet(specs[0])
    y = txlab.Wallet(specs[1])
    for v in (x, y):
        for sc in v.script.values():
            led.fund(sc, rng.randint(10 ** 6, 10 ** 8), gen.txid(rng), rng.randint(0, 3), rng.choice([0, 3]))
    netlab.install_plan(W, {s: [rng.choice(netlab.NETKINDS + ['status:500', 'status:400', 'status:404']), rng.choice([0, 0, 1, 2]),
                                rng.choice([1, 10 ** 6])] for s in netlab.SERVICES if rng.random() < rng.choice([0, 0.5, 1])}, (net,))
    W.fee_fault = rng.choice([None, None, 'conn', 'status:500'])
    restore()
    node = rng.random() < 0.3
    try:
        if node:
            port = 18332 if net == 'test' else 8332
            W.nodes['localhost:%d' % port] = dict(net=net, user='u', password='p')
            NetworkAPI.connect_to_node(user='u', password='p', port=port, testnet=net == 'test')
            if rng.random() < 0.4:
                W.faults[('node', net)] = lambda op, n: world.Fault(rng.choice(['conn', 'rpcerr', 'status:401']))
        dest = gen.address(rng, net)
        suffix = '' if net == 'main' else '_testnet'
        for _ in range(rng.randint(3, 7)):
            op = rng.choice(['unspents', 'balance', 'transactions', 'send', 'create', 'cold', 'cosign', 'sign', 'poor', 'wrongnet', 'badfee'])
            out = None
            msg = rng.choice([None, 'hello', 'x' * 100])
            fee = rng.choice([None, 1, 30])
            try:
                if op == 'unspents':
                    out = repr(rng.choice([x, y]).first.get_unspents())
                elif op == 'balance':
                    out = rng.choice([x, y]).first.get_balance(rng.choice(['btc', 'satoshi']))
                elif op == 'transactions':
                    out = repr(rng.choice([x, y]).first.get_transactions())
                elif op == 'send':
                    out = x.first.send([(dest, 1000, 'satoshi')], fee=fee, message=msg)
                elif op == 'create':
                    out = x.first.create_transaction([(dest, 1000, 'satoshi')], fee=fee, message=msg, combine=rng.random() < 0.5)
                elif op == 'cold':
                    ups = [[v, t, n, 's' if sc == x.script.get('s') else 'l', 1, 0xFFFFFFFF]
                           for (t, n), (v, sc, _) in led.utxo.items() if sc in x.script.values()]
                    text = type(x.first).prepare_transaction(x.addr['l'], [(dest, 1000, 'satoshi')], fee=5, message=msg,
                                                             unspents=x.unspents(ups) or None)
                    search(ks, 'text of a prepared transaction', text, ctx)
                    out = x.first.sign_transaction(text)
                elif op == 'cosign':
                    h = y.first.create_transaction([(dest, 1000, 'satoshi')], fee=5, message=msg)
                    search(ks, 'transaction half signed', bytes.fromhex(h), ctx)
                    watch_nonces(h, None, ctx)
                    out = y.bits[1].sign_transaction(h)
                elif op == 'sign':
                    out = x.first.sign(rng.getrandbits(256).to_bytes(32, "big")).hex()
                elif op == 'poor':
                    out = x.first.create_transaction([(dest, 10 ** 12, 'satoshi')], fee=fee)
                elif op == 'wrongnet':
                    out = x.first.create_transaction([(gen.address(rng, 'test' if net == 'main' else 'main'), 1000, 'satoshi')], fee=5)
                else:
                    out = x.first.create_transaction([(dest, 'abc', 'satoshi')], fee=5)
            except Exception as e:
                search(ks, 'error of %s' % op, errtext(e), ctx)
                ctx.shape(op, 'error', type(e).__name__, node)
            if isinstance(out, str):
                search(ks, 'transaction or result', out, ctx)
                try:
                    b = bytes.fromhex(out)
                    search(ks, 'transaction', b, ctx)
                    if len(b) > 90:
                        watch_nonces(out, None, ctx)
                except ValueError:
                    pass
                ctx.shape(op, node, bool(W.faults), msg, fee)
            search(ks, 'text of wallets', text_forms(x.first) + text_forms(y.first) + repr(x.first.unspents) + repr(y.first.unspents), ctx)
            if len(W.log) > 300:
                search_all(ks, ctx)
    finally:
        restore()
    return ks
