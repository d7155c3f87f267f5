"""C33: what is not exactly one transaction is refused; malformed input of any kind is refused promptly and changes nothing."""
import json
import random
import resource
import sys

from vlib import core, gen, ref, txlab
from vlib.core import Violation
from checks.c26 import photo_u
from checks.common import drain, offline_world

LEVEL = 'exploration'
QUOTA = {'quick': 5000, 'thorough': 120000}
RULE = ('real transactions (complete and partial, all kinds of inputs) cut off at every byte and digit, extended, with counts and lengths inflated, '
        'bytes flipped, removed, repeated and spliced, plus garbage given as keys, addresses, public keys, signatures, scripts, prepared '
        'requests; an independent parser says which are exactly one transaction, a counter of executed library lines bounds the work; '
        'distinct = (entry point, kind of damage, outcome)')
REQUIRED = ['cut_refused', 'extended_refused', 'odd_refused', 'inflated_refused', 'text_refused', 'still_whole', 'signing', 'parsing', 'txid', 'multisig', 'segwit', 'keys', 'addresses',
            'prepared', 'public_keys', 'signatures', 'refused', 'unchanged', 'bytes_input']
ASSUMPTIONS = ['lengths written with more bytes than needed and superfluous empty witnesses are not judged here', 'at most 6 GB of memory']
TOOL = 3


class Flood(BaseException):
    pass


def setup(ctx):
    global W
    W = offline_world()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    import bit  # noqa


class Budget:
    def __init__(self, limit):
        self.limit, self.n = limit, 0

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(TOOL, 'budget')
        m.register_callback(TOOL, m.events.LINE, self.line)
        m.set_events(TOOL, m.events.LINE)
        return self

    def line(self, code, line):
        if code.co_filename.startswith(core.BITDIR):
            self.n += 1
            if self.n > self.limit:
                raise Flood

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(TOOL, 0)
        m.register_callback(TOOL, m.events.LINE, None)
        m.free_tool_id(TOOL)


def whole(raw):
    """Is this exactly one transaction?  (Lengths may be written longer than needed.)"""
    p = [0]

    def take(n):
        if p[0] + n > len(raw):
            raise EOFError
        p[0] += n
        return raw[p[0] - n:p[0]]

    def var():
        b = take(1)[0]
        return b if b < 253 else int.from_bytes(take(1 << (b - 252)), 'little')

    try:
        take(4)
        seg = raw[4:6] == b'\0\1'
        if seg:
            take(2)
        n = var()
        for _ in range(n):
            take(36)
            take(var())
            take(4)
        for _ in range(var()):
            take(8)
            take(var())
        for _ in range(n if seg else 0):
            for _ in range(var()):
                take(var())
        take(4)
    except EOFError:
        return False
    return p[0] == len(raw)


DAMAGE = ['cut', 'cut', 'nibble', 'extend', 'odd', 'flip', 'remove', 'insert', 'repeat', 'inflate', 'inflate', 'splice', 'head', 'text']


def base(rng, ctx, **kw):
    c = gen.tx_case(rng, ctx, msg=0.2, rbf=0.2, big=False, edge=0.0, combine=True, mode='direct', **kw)
    del c['ups'][4:]
    c['outs'] = c['outs'][:3]
    c['fee'], c['abs'] = 1, True
    for o in c['outs']:
        o[1], o[2], o[3] = 1, 'satoshi', 1
    if sum(u[0] for u in c['ups']) < 10 ** 4:
        c['ups'][0][0] += 10 ** 6
    return c


def directed(ctx):
    rng = random.Random('c33 %s' % ctx.seed)
    for kind in ('single', 'multi'):
        for net in ('main', 'test'):
            for _ in range(2):
                yield {'what': 'every', 'tx': base(rng, ctx, net=net, kind=kind), 'signed': rng.randint(0, 1), 'rs': rng.getrandbits(32), 'damage': 'cut'}
                yield {'what': 'every', 'tx': base(rng, ctx, net=net, kind=kind), 'signed': rng.randint(0, 1), 'rs': rng.getrandbits(32), 'damage': 'odd'}
            for d in sorted(set(DAMAGE)):
                for s in (0, 1):
                    yield {'what': 'tx', 'tx': base(rng, ctx, net=net, kind=kind), 'signed': s, 'rs': rng.getrandbits(32), 'damage': d}


def generate(rng, ctx):
    x = rng.random()
    if x < 0.65:
        return {'what': 'tx', 'tx': base(rng, ctx), 'signed': rng.randint(0, 1), 'rs': rng.getrandbits(32), 'damage': rng.choice(DAMAGE)}
    return {'what': rng.choice(['key', 'address', 'prepared', 'prepared', 'pubs', 'sig', 'script']), 'rs': rng.getrandbits(32),
            'tx': base(rng, ctx) if x < 0.8 else None}


def damage(rng, kind, h):
    """h: hex text -> damaged text."""
    raw = bytes.fromhex(h)
    n = len(raw)
    i = rng.randrange(n)
    if kind == 'cut':
        return raw[:i].hex()
    if kind == 'head':
        return raw[i:].hex()
    if kind == 'nibble':
        return h[:rng.randrange(len(h))]
    if kind == 'odd':
        j = rng.randrange(len(h))
        return h[:j] + h[j + 1:]
    if kind == 'extend':
        return h + rng.choice(['00', 'ff' * 4, '00' * rng.randint(1, 50), rng.getrandbits(64).to_bytes(8, 'big').hex(), h])
    if kind == 'flip':
        b = bytearray(raw)
        for _ in range(rng.choice([1, 1, 2, 5])):
            b[rng.randrange(n)] ^= 1 << rng.randrange(8)
        return bytes(b).hex()
    if kind == 'remove':
        return (raw[:i] + raw[i + rng.randint(1, 8):]).hex()
    if kind == 'insert':
        return (raw[:i] + rng.getrandbits(32).to_bytes(4, 'big')[:rng.randint(1, 4)] + raw[i:]).hex()
    if kind == 'repeat':
        j = min(n, i + rng.randint(1, 60))
        return (raw[:j] + raw[i:j] * rng.randint(1, 3) + raw[j:]).hex()
    if kind == 'splice':
        return (raw[:i] + raw[rng.randrange(n):]).hex()
    if kind == 'inflate':
        # a count or length: right after the version (and marker), or somewhere
        i = rng.choice([4, 4, 6 if raw[4:6] == b'\0\1' else 4, 41, 43, i, i])
        v = rng.choice([b'\xfd\xff\xff', b'\xfe' + b'\xff' * 4, b'\xff' + b'\xff' * 8, b'\xff' + b'\0' * 7 + b'\x01', b'\xfe\0\0\0\x10',
                        b'\xfd\x10\x27', b'\xff\0\0\0\0\1\0\0\0'])
        return (raw[:i] + v + raw[i + 1:]).hex()
    if kind == 'text':
        j = rng.randrange(len(h))
        return rng.choice([h[:j] + rng.choice(['g', ' ', '\n', 'z', '\0', '\u0664', '\xe9', '0x', '-', '"']) + h[j + rng.randint(0, 1):], '0x' + h, h + rng.choice('gz \n='), ' ' + h, h[:20] + 'x',
                           h[0:j] + h[j:].upper(), '0' * rng.choice([20, 64, 1000]) + 'g', '{' + h + '}', h[::-1]])
    raise ValueError(kind)


def exactly(d):
    try:
        return whole(bytes.fromhex(d.strip()))
    except ValueError:
        return False


def attempt(what, f, size, ctx):
    """-> ('ok', result) or ('refused', exception)."""
    limit = 100000 + 2000 * size
    b = Budget(limit)
    try:
        with b:
            r = f()
        return 'ok', r
    except Flood:
        raise Violation('%s: %d bytes of input and still at work after %d lines' % (what, size, limit), key='endless')
    except MemoryError:
        raise Violation('%s: %d bytes of input use up the memory' % (what, size), key='memory')
    except Exception as e:
        ctx.obs('refused')
        return 'refused', e
    finally:
        ctx.events['most_percent_of_budget'] = max(ctx.events.get('most_percent_of_budget', 0), 100 * b.n // limit)


def run(case, ctx):
    rng = random.Random(case['rs'])
    {'tx': tx, 'every': tx, 'key': key, 'address': address, 'prepared': prepared, 'pubs': pubs, 'sig': sig, 'script': script}[case['what']](case, rng, ctx)
    drain(W)


def tx(case, rng, ctx):
    from bit.exceptions import InsufficientFunds
    from bit.transaction import calc_txid, deserialize
    c = case['tx']
    w = txlab.Wallet(c['w'])
    ups = w.unspents(c['ups'])
    try:
        h = w.first.create_transaction(txlab.outputs(c), unspents=ups, **txlab.kwargs(c))
    except InsufficientFunds:
        return
    if not case['signed']:
        t = ref.Tx.parse(h)
        for i in t.ins:
            i.script, i.wit = b'', []
        h = t.ser().hex()
    signer = w.bits[-1]
    if case['what'] == 'every':
        if len(h) > 1400:
            todo = sorted(set(rng.randrange(len(h) // 2) for _ in range(150)) | set(range(len(h) // 2 - 60, len(h) // 2)))
        else:
            todo = range(len(h) // 2)
        texts = [h[:2 * i] if case['damage'] == 'cut' else h[:2 * i + 1] for i in todo]
    else:
        texts = [damage(rng, case['damage'], h) for _ in range(4)]
    before = photo_u(ups), (signer.balance, list(signer.unspents), list(signer.transactions))
    for d in texts:
        exact = exactly(d)
        if exact:
            ctx.obs('still_whole')
        else:
            ctx.obs({'cut': 'cut_refused', 'nibble': 'cut_refused', 'odd': 'odd_refused', 'extend': 'extended_refused', 'inflate': 'inflated_refused', 'text': 'text_refused'}.get(
                case['damage'], 'other_refused'))
        calls = [('parsing', lambda: deserialize(d)), ('txid', lambda: calc_txid(d)), ('signing', lambda: signer.sign_transaction(d, unspents=ups))]
        if len(d) % 2 == 0 and case['damage'] != 'text' and rng.random() < 0.3:
            calls.append(('bytes_input', lambda: deserialize(bytes.fromhex(d))))
        for what, f in calls:
            how, r = attempt('%s a transaction (%s)' % (what, case['damage']), f, len(d) // 2 + 1, ctx)
            ctx.obs(what)
            if how == 'ok' and not exact:
                raise Violation('%s accepts %d digits that are not a transaction (%s, the whole one has %d): %s' % (
                    what, len(d), case['damage'], len(h), str(r)[:200]), key='accepted:' + what, text=d)
            ctx.shape(what, case['damage'], how, exact, c['w']['kind'], type(r).__name__)
        if h[8:12] == '0001':
            ctx.obs('segwit')
    if (photo_u(ups), (signer.balance, list(signer.unspents), list(signer.transactions))) != before:
        raise Violation('a damaged transaction changed the wallet or the unspents', key='changed')
    ctx.obs('unchanged')
    if c['w']['kind'] == 'multi':
        ctx.obs('multisig')


def garbage(rng, like):
    """Text or bytes, somewhat like the given."""
    x = rng.random()
    if x < 0.5:
        s = list(like)
        for _ in range(rng.choice([1, 1, 2, 10])):
            op, i = rng.randrange(4), rng.randrange(len(s)) if s else 0
            ch = rng.choice(like) if rng.random() < 0.6 and like else (chr(rng.choice([0, 10, 32, 48, 0xe9, 0x1f600])) if isinstance(like, str) else rng.randrange(256))
            if op == 0 and s:
                s[i] = ch
            elif op == 1:
                s.insert(i, ch)
            elif op == 2 and s:
                del s[i]
            else:
                s = s[:i] if rng.random() < 0.5 else s[i:]
        return ''.join(s) if isinstance(like, str) else bytes(s)
    if x < 0.6:
        return like[:0]
    if x < 0.8:
        return like * rng.choice([2, 3, 20])
    n = rng.choice([1, 2, 33, 65, 300])
    return ''.join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(1, 0x2000)])) for _ in range(n)) if isinstance(like, str) else rng.randbytes(n)


def note(ctx, what, name, how, r):
    ctx.obs(what)
    ctx.shape(name, how, type(r).__name__)


def key(case, rng, ctx):
    import bit
    from bit.format import wif_to_bytes
    k = rng.randrange(1, ref.N)
    net = rng.choice(['main', 'test'])
    b = txlab.bit_key(k, rng.random() < 0.7, net)
    cls = type(b)
    for name, f, like in (('WIF', cls, b.to_wif()), ('wif_to_key', bit.wif_to_key, b.to_wif()), ('from_hex', cls.from_hex, b.to_hex()), ('from_der', cls.from_der, b.to_der()),
                          ('from_pem', cls.from_pem, b.to_pem()), ('wif_to_bytes', wif_to_bytes, b.to_wif()), ('Key', bit.Key, b.to_wif())):
        g = garbage(rng, like)
        note(ctx, 'keys', name, *attempt('importing %r with %s' % (g[:80], name), lambda: f(g), len(g), ctx))


def address(case, rng, ctx):
    from bit.base58 import b58decode, b58decode_check
    from bit.base32 import bech32_decode, decode
    from bit.transaction import address_to_scriptpubkey
    from bit.format import get_version
    from bit.wallet import PrivateKey
    net = rng.choice(['main', 'test'])
    a = gen.address(rng, net)
    b = PrivateKey.from_int(5)
    for name, f in (('script', address_to_scriptpubkey), ('version', get_version), ('base58', b58decode), ('base58check', b58decode_check), ('bech32', bech32_decode),
                    ('segwit', lambda s: decode('bc', s)),
                    ('pay', lambda s: b.create_transaction([(s, 1000, 'satoshi')], fee=1, unspents=[ups(b)]))):
        g = garbage(rng, a)
        note(ctx, 'addresses', name, *attempt('the address %r for %s' % (g[:80], name), lambda: f(g), len(g), ctx))


def ups(b):
    from bit.network.meta import Unspent
    return Unspent(10 ** 6, 1, ref.script_for(b.address).hex(), '%064x' % 5, 0, 'p2pkh')


def prepared(case, rng, ctx):
    from bit.exceptions import InsufficientFunds
    c = case['tx']
    if c is None:
        return
    w = txlab.Wallet(c['w'])
    kw = txlab.kwargs(c)
    kw['leftover'] = w.default_change(c['ups'])
    if c['w']['kind'] == 'single':
        kw['compressed'] = c['w']['comp']
    try:
        p = type(w.first).prepare_transaction(w.addr['l'], txlab.outputs(c), unspents=w.unspents(c['ups']), **kw)
    except InsufficientFunds:
        return
    before = w.first.balance, list(w.first.unspents)
    for _ in range(4):
        x = rng.random()
        if x < 0.5:
            g = garbage(rng, p)
        elif x < 0.6:
            g = rng.choice(['[', '{"a":', '[[', '"']) * rng.choice([1, 50, 5000])
        elif x < 0.7:
            g = json.dumps(rng.choice([None, 1, [], {}, 'x', {'unspents': []}, {'unspents': None, 'outputs': None}, [1, 2], 1e400, {'outputs': [['x', 1]]}]))
        else:
            o = json.loads(p)
            tgt = rng.choice(o['unspents'] + [o])
            kk = rng.choice(sorted(tgt))
            tgt[kk] = rng.choice([None, '', -1, 2 ** 70, 'zz', [], {}, 1.5, True, '00' * 32, [[None, None]], 10 ** 400])
            g = json.dumps(o)
        note(ctx, 'prepared', 'prepared', *attempt('signing the prepared %r' % g[:80], lambda: w.first.sign_transaction(g), len(g), ctx))
        if (w.first.balance, w.first.unspents) != before:
            raise Violation('signing something malformed changed the wallet', key='changed')
    ctx.obs('unchanged')


def pubs(case, rng, ctx):
    import bit
    from bit.format import multisig_to_address, multisig_to_redeemscript, public_key_to_address, public_key_to_coords
    k = txlab.bit_key(rng.randrange(1, ref.N), True, 'main')
    ps = [ref.pubkey(rng.randrange(1, ref.N), True) for _ in range(rng.randint(0, 4))] + [k.public_key]
    i = rng.randrange(len(ps))
    for name, f in (('MultiSig', lambda g: bit.MultiSig(k, ps[:i] + [g] + ps[i:], 1).address), ('hex', lambda g: bit.MultiSig(k, [p.hex() for p in ps] + [g.hex()[1:]], 1).address),
                    ('address', lambda g: public_key_to_address(g)), ('coords', public_key_to_coords), ('script', lambda g: multisig_to_redeemscript([g] + ps, rng.choice([0, 1, 17, 10 ** 9]))),
                    ('m', lambda g: multisig_to_address(ps, rng.choice([-1, 0, 256, 10 ** 20])))):
        g = garbage(rng, k.public_key)
        note(ctx, 'public_keys', name, *attempt('the public key %r for %s' % (g[:80], name), lambda: f(g), len(g), ctx))


def sig(case, rng, ctx):
    import bit
    k = txlab.bit_key(rng.randrange(1, ref.N), True, 'main')
    s = k.sign(b'data')
    for _ in range(4):
        g = garbage(rng, s)
        how, r = attempt('verifying the signature %r' % g[:80], lambda: bit.verify_sig(g, b'data', k.public_key), len(g), ctx)
        if how == 'ok' and r and g != s:
            try:
                good = ref.ecdsa_verify(k.public_key, ref.sha256(b'data'), *ref.parse_der(g))
            except Exception:
                good = False
            if not good:
                raise Violation('the malformed signature %s is taken for valid' % g.hex(), key='signature')
        note(ctx, 'signatures', 'verify', how, r)


def script(case, rng, ctx):
    from bit.utils import get_signatures_from_script
    k = txlab.bit_key(rng.randrange(1, ref.N), True, 'main')
    s = b'\0' + b''.join(bytes([len(x)]) + x for x in (k.sign(b'%d' % i) + b'\1' for i in range(rng.randint(0, 3)))) + b'\x4c\x22' + b'\x51' * 34
    for _ in range(4):
        g = garbage(rng, s)
        note(ctx, 'signatures', 'extract', *attempt('looking for signatures in %s' % g[:80].hex(), lambda: get_signatures_from_script(g), len(g), ctx))
