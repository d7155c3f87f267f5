"""C06: a key survives export and import in every format; malformed WIF is rejected."""
import random

from cryptography.hazmat.primitives.serialization import load_der_private_key, load_pem_private_key

from vlib import gen, ref
from vlib.core import Violation
from checks.common import offline_world, drain

LEVEL = 'exploration'
QUOTA = {'quick': 5000, 'thorough': 150000}
RULE = ('all special secrets (1, n-1, leading zero bytes, low byte 01) and seeded random ones, x network x compression x every '
        'export/import format; plus seeded WIF corruptions (edits, swaps, truncation, wrong flag, version, length, range) '
        'judged by an independent Base58Check decoder; distinct = (secret shape, network, compression) or (corruption kind, verdict)')
REQUIRED = ['round_trips', 'wif_text_compared', 'corrupted_wif_rejected', 'der_pem_cross_read', 'non_keys_refused']
ASSUMPTIONS = ['OpenSSL DER/PEM reader as independent reader']


def setup(ctx):
    global W
    W = offline_world()


def directed(ctx):
    for k in gen.SPECIAL_KEYS:
        for net in ('main', 'test'):
            for comp in (True, False):
                yield {'t': 'rt', 'k': hex(k), 'net': net, 'comp': comp}
    for z in range(1, 32):
        yield {'t': 'rt', 'k': hex((1 << (8 * z)) - 1), 'net': 'main', 'comp': bool(z & 1)}
        yield {'t': 'rt', 'k': hex((1 << (8 * z)) + 1), 'net': 'test', 'comp': bool(z & 1)}
    rng = random.Random('c06 %s' % ctx.seed)
    for pay in (b'', b'\x80', b'\xef', b'\x80' + bytes(32), b'\x80' + b'\xff' * 32, b'\x80' + bytes(32) + b'\x01',
                b'\xef' + ref.N.to_bytes(32, 'big'), b'\x80' + ref.N.to_bytes(32, 'big') + b'\x01',
                b'\x80' + (ref.N + 1).to_bytes(32, 'big') + b'\x01'):
        yield {'t': 'raw', 'pay': pay}
    yield {'t': 'str', 's': '', 'x': 'empty'}
    for v in (0, 1, ref.N - 1, ref.N, ref.N + 1, 2 ** 256 - 1, 2 ** 256, 2 ** 256 + 1, 2 ** 256 + ref.N, 2 * ref.N, 2 * ref.N + 1, -1, -ref.N,
              1 - ref.N, 2 ** 264, 2 ** 264 + 1, 2 ** 512 + 5):
        yield {'t': 'num', 'v': v, 'rs': 1}
    for v in range(256):
        yield {'t': 'raw', 'pay': bytes([v]) + rng.getrandbits(255).to_bytes(32, 'big') + b'\x01'}
        yield {'t': 'raw', 'pay': bytes([v]) + rng.getrandbits(255).to_bytes(32, 'big')}
        yield {'t': 'raw', 'pay': bytes([rng.choice([0x80, 0xEF])]) + rng.getrandbits(255).to_bytes(32, 'big') + bytes([v])}
    for n in range(0, 80):
        for last in (1, 7):
            b = bytes([0x80 if n % 2 else 0xEF]) + bytes(rng.randint(1, 254) for _ in range(n))
            yield {'t': 'raw', 'pay': b[:-1] + bytes([last]) if n else b}


def generate(rng, ctx):
    if rng.random() < 0.05:
        k = gen.key_int(rng, ctx.dic)
        return {'t': 'num', 'v': rng.choice([k + ref.N, -k, k + 2 ** 256, k * ref.N, rng.randint(ref.N, 2 ** 256), k << 8, k]),
                'rs': rng.getrandbits(32)}
    if rng.random() < 0.5:
        return {'t': 'rt', 'k': hex(gen.key_int(rng, ctx.dic)), 'net': rng.choice(['main', 'test']),
                'comp': rng.random() < 0.6}
    w = ref.wif(gen.key_int(rng, ctx.dic), rng.choice(['main', 'test']), rng.random() < 0.6)
    x = rng.randrange(8)
    i = rng.randrange(len(w))
    if x == 0:
        s = w[:i] + rng.choice(ref.B58) + w[i + 1:]
    elif x == 1:
        s = w[:i] + w[i + 1:]
    elif x == 2:
        s = w[:i] + rng.choice(ref.B58) + w[i:]
    elif x == 3:
        j = rng.randrange(len(w))
        i, j = min(i, j), max(i, j)
        s = w[:i] + w[j:j + 1] + w[i + 1:j] + w[i:i + 1] + w[j + 1:] if i < j else w
    elif x == 4:
        s = w[:i] + rng.choice('0OIl +/-_é\n') + w[i + 1:]
    elif x == 5:
        s = w[:rng.randint(1, len(w) - 1)]
    elif x == 6:
        s = w + rng.choice([' ', '\n', w[:5], '1', '\0'])
    else:
        s = rng.choice(['1', ' ', '11']) + w
    return {'t': 'str', 's': s, 'x': x}


def wif_valid(s):
    """-> (secret, network, compressed) or None."""
    try:
        b = ref.b58check_dec(s)
    except ref.RefError:
        return None
    if len(b) < 33 or b[0] not in (0x80, 0xEF):
        return None
    if len(b) == 33:
        comp = False
    elif len(b) == 34 and b[33] == 1:
        comp = True
    else:
        return None
    k = int.from_bytes(b[1:33], 'big')
    if not 0 < k < ref.N:
        return None
    return k, 'main' if b[0] == 0x80 else 'test', comp


def check_key(key, k, net, comp, what):
    if key.to_int() != k:
        raise Violation('%s yields secret %x instead of %x' % (what, key.to_int(), k), key='secret')
    if key.version != net or key.is_compressed() != comp:
        raise Violation('%s yields network %s compression %s, expected %s %s' % (
            what, key.version, key.is_compressed(), net, comp), key='flags')
    pub = ref.pubkey(k, comp)
    if key.public_key != pub or key.address != ref.p2pkh_addr(pub, net):
        raise Violation('%s yields address %s, expected %s' % (what, key.address, ref.p2pkh_addr(pub, net)), key='address')
    if key.segwit_address != (ref.np2wkh_addr(pub, net) if comp else None):
        raise Violation('%s yields segwit address %s' % (what, key.segwit_address), key='address')


def number(case, ctx):
    """A number that is no private key is refused whatever the format it comes in."""
    import bit
    v, rng = case['v'], random.Random(case['rs'])
    good = 0 < v < ref.N
    for cls, net in ((bit.PrivateKey, 'main'), (bit.PrivateKeyTestnet, 'test')):
        ways = [('int', lambda: cls.from_int(v))]
        if v >= 0:
            n = max(32, (v.bit_length() + 7) // 8)
            b = v.to_bytes(n, 'big')
            h = b.hex()
            ways += [('hex', lambda: cls.from_hex(h)), ('HEX', lambda: cls.from_hex(h.upper())), ('bytes', lambda: cls.from_bytes(b))]
            if n == 32:
                other = cls.from_int(0x1234567890ABCDEF << 190)
                der = other.to_der()
                if other.to_bytes() in der:
                    ways.append(('DER', lambda: cls.from_der(der.replace(other.to_bytes(), b))))
        for what, f in ways:
            try:
                key = f()
            except Exception as e:
                if good:
                    raise Violation('%s import refuses the private key %x: %r' % (what, v, e), key='valid-rejected')
                ctx.obs('non_keys_refused')
                continue
            if not good:
                raise Violation('%s import takes %x, which is no private key, for %x' % (what, v, key.to_int()), key='range')
            check_key(key, v, net, True, 'import from ' + what)
    drain(W)
    ctx.shape('num', v.bit_length(), v < 0)


def run(case, ctx):
    import bit
    from bit.wallet import wif_to_key
    if case['t'] == 'num':
        return number(case, ctx)
    if case['t'] != 'rt':
        s = ref.b58check(case['pay']) if case['t'] == 'raw' else case['s']
        good = wif_valid(s)
        for name, f in (('Key', bit.Key), ('PrivateKeyTestnet', bit.PrivateKeyTestnet), ('wif_to_key', wif_to_key)):
            try:
                key = f(s)
            except Exception as e:
                if good:
                    raise Violation('%s rejects the valid WIF %r: %r' % (name, s, e), key='valid-rejected')
                ctx.obs('corrupted_wif_rejected')
                continue
            if not good:
                raise Violation('%s accepts the malformed WIF %r as secret %x' % (name, s, key.to_int()),
                                key='malformed-accepted')
            k, net, comp = good
            if name == 'wif_to_key':
                check_key(key, k, net, comp, 'wif_to_key')
            else:
                check_key(key, k, 'main' if name == 'Key' else 'test', comp, name)
            ctx.obs('valid_wif_accepted')
        ctx.shape(case['t'], case.get('x'), bool(good), len(case.get('pay', b'')))
        drain(W)
        return
    k, net, comp = int(case['k'], 16), case['net'], case['comp']
    cls = bit.PrivateKey if net == 'main' else bit.PrivateKeyTestnet
    w = ref.wif(k, net, comp)
    key = cls(w)
    check_key(key, k, net, comp, 'import of WIF')
    if key.to_wif() != w:
        raise Violation('to_wif gives %s, standard is %s' % (key.to_wif(), w), key='wif-text')
    ctx.obs('wif_text_compared')
    check_key(wif_to_key(key.to_wif()), k, net, comp, 'wif_to_key')
    check_key(cls(key.to_wif()), k, net, comp, 'WIF re-import')
    if int(key.to_hex(), 16) != k or key.to_int() != k:
        raise Violation('to_hex/to_int give %s / %x' % (key.to_hex(), key.to_int()), key='export')
    if key.to_bytes() != k.to_bytes(32, 'big'):
        raise Violation('to_bytes gives %s' % key.to_bytes().hex(), key='export')
    der, pem = key.to_der(), key.to_pem()
    for what, d in (('DER', load_der_private_key(der, None)), ('PEM', load_pem_private_key(pem, None))):
        if d.private_numbers().private_value != k or d.curve.name != 'secp256k1':
            raise Violation('%s export holds another key' % what, key='export')
        ctx.obs('der_pem_cross_read')
    for what, f in (('hex', lambda: cls.from_hex(key.to_hex())), ('bytes', lambda: cls.from_bytes(key.to_bytes())),
                    ('int', lambda: cls.from_int(key.to_int())), ('DER', lambda: cls.from_der(der)),
                    ('PEM', lambda: cls.from_pem(pem))):
        check_key(f(), k, net, True, 'import from ' + what)
        ctx.obs('round_trips')
    if not (cls.from_int(k) == key):
        raise Violation('equal keys compare unequal', key='eq')
    drain(W)
    ctx.shape(k.bit_length(), k & 255 == 1, net, comp)
