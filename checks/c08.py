"""C08: only genuine addresses are payable, and they map to the right script."""
import random

from vlib import gen, ref, txlab
from vlib.core import Violation
from checks.common import offline_world, drain

LEVEL = 'exploration'
QUOTA = {'quick': 16000, 'thorough': 300000}
RULE = ('seeded valid addresses of every kind and boundary payloads, and corruptions of them (substitution, swap, deletion, '
        'insertion, case changes, re-checksummed wrong versions and lengths, foreign prefixes, random strings) used as recipient, '
        'change address and in the decoding helpers of the real library; an independent decoder says which are genuine; '
        'distinct = (origin, kind, role, verdict, length)')
REQUIRED = ['valid_paid', 'invalid_rejected', 'invalid_change_rejected', 'codecs_inverse', 'nearly_valid_rejected', 'look_alikes_of_used']
ASSUMPTIONS = ['addresses are those of BIP13/BIP173 with hrp bc, tb, bcrt (the library predates bech32m)']


def setup(ctx):
    global W
    W = offline_world()


ALLK = ('p2pkh', 'p2sh', 'p2wpkh', 'p2wsh', 'wit')


def bech(rng, hrp, ver, n, const=1):
    prog = bytes(rng.getrandbits(8) for _ in range(n))
    return ref.bech32_raw(hrp, [ver] + ref.to5(prog), const)


LOOK = {'1': 'lI|', 'o': '0O', 'L': 'I1', 'l': '1I', 'i': '1lj', 'K': '\u212a', 'k': '\u212a', 'S': '\u017f5', 's': '\u017f', 'a': '\u0430',
        'e': '\u0435', 'p': '\u0440', 'c': '\u0441', 'x': '\u0445', 'B': '8', '8': 'B', '0': 'oO', '5': 'S', '2': 'Zz', '6': 'bG', '9': 'gq',
        '3': '\uff13', '7': '\u0667'}


def mutate(rng, a):
    x = rng.randrange(17)
    i = rng.randrange(len(a))
    alpha = ref.CHARSET if a.lower()[:3] in ('bc1', 'tb1', 'bcr') else ref.B58
    if x in (0, 1):
        return a[:i] + rng.choice(alpha) + a[i + 1:], 'subst'
    if x == 2 and i + 1 < len(a):
        return a[:i] + a[i + 1] + a[i] + a[i + 2:], 'swap'
    if x == 3:
        return a[:i] + a[i + 1:], 'delete'
    if x == 4:
        return a[:i] + rng.choice(alpha) + a[i:], 'insert'
    if x == 5:
        return a[:i] + a[i].swapcase() + a[i + 1:], 'case'
    if x == 6:
        return a[:i] + rng.choice('0OIlbio1 +é\n\x7f') + a[i + 1:], 'alien'
    if x == 7:
        return rng.choice(['1', ' ', '11', '3', 'bc1']) + a, 'prefix'
    if x == 8:
        return a + rng.choice([' ', '1', 'q', 'qq', '\n', 'p', a]), 'suffix'
    if x == 9:
        return a[:max(1, i)], 'truncate'
    if x == 10:
        s = list(a)
        for _ in range(rng.randint(2, 4)):
            s[rng.randrange(len(s))] = rng.choice(alpha)
        return ''.join(s), 'multi'
    if x == 11:
        return a[:-1] + 'q' * rng.randint(1, 4) + a[-1] if a[-1] in 'pP' else a.swapcase(), 'q-before-p'
    if x == 12:
        return a.upper() if rng.random() < 0.5 else a.lower(), 'recase'
    if x == 13:
        # characters people or fonts take for one another
        b = a.upper() if alpha is ref.CHARSET and rng.random() < 0.7 else a
        at = [i for i, c in enumerate(b) if c in LOOK]
        if at:
            for i in at if rng.random() < 0.4 else [rng.choice(at)]:
                b = b[:i] + rng.choice(LOOK[b[i]]) + b[i + 1:]
            return b, 'lookalike'
    if x == 14:
        return a[:i] + rng.choice([' ', '-', '\t', '\u200b', '\xa0', '\n', '.', '_', ',']) + a[i:], 'inner'
    if x == 15 and alpha is ref.CHARSET:
        return a.replace('1', rng.choice(['11', 'l', 'I', '', '1q', '2']), 1), 'separator'
    j = rng.randrange(len(a))
    i, j = min(i, j), max(i, j)
    return a[:i] + a[i:j][::-1] + a[j:], 'reverse'


def alien(rng):
    """A character outside the alphabet, with the checksum a decoder giving it some value would accept."""
    hrp = rng.choice(['bc', 'tb', 'bcrt'])
    v = [rng.choice([0, 0, 1, 16])] + ref.to5(gen.h20(rng) if rng.random() < 0.5 else gen.h32(rng))
    i = 0 if rng.random() < 0.3 else rng.randrange(len(v))
    w = rng.choice([-1, -1, 32, 0, 31, rng.randrange(32)])
    chk = 1
    for x in [ord(c) >> 5 for c in hrp] + [0] + [ord(c) & 31 for c in hrp] + [w if j == i else y for j, y in enumerate(v)] + [0] * 6:
        top = chk >> 25
        chk = (chk & 0x1FFFFFF) << 5 ^ x
        for j, g in enumerate((0x3B6A57B2, 0x26508E6D, 0x1EA119FA, 0x3D4233DD, 0x2A1462B3)):
            chk ^= g if (top >> j) & 1 else 0
    chk ^= 1
    s = ''.join(ref.CHARSET[y] for y in v)
    s = s[:i] + rng.choice('bio.') + s[i + 1:]
    s = hrp + '1' + s + ''.join(ref.CHARSET[chk >> 5 * (5 - j) & 31] for j in range(6))
    return s.upper() if rng.random() < 0.3 else s


def crafted(rng):
    """Right checksum, wrong content (or right content in odd places)."""
    x = rng.randrange(10)
    if x == 9:
        return alien(rng), 'alien-checksummed'
    if x == 0:
        return ref.b58check(bytes([rng.randrange(256)]) + gen.h20(rng)), 'version'
    if x == 1:
        n = rng.choice([0, 1, 4, 18, 19, 21, 22, 32, 33])
        return ref.b58check(bytes([rng.choice([0, 5, 0x6F, 0xC4])]) + bytes(rng.getrandbits(8) for _ in range(n))), 'length'
    if x == 2:
        return bech(rng, rng.choice(['bc', 'tb', 'bcrt']), 0, rng.choice([n for n in range(2, 41) if n not in (20, 32)])), 'v0-length'
    if x == 3:
        return bech(rng, rng.choice(['bc', 'tb', 'bcrt']), rng.randint(17, 31), rng.choice([20, 32])), 'witver'
    if x == 4:
        return bech(rng, rng.choice(['ltc', 'bcr', 'b', 'bt', 'tbc', 'bc1', 'tb1', 'BC'.lower() + 'a', 'x']), 0,
                    rng.choice([20, 32])), 'hrp'
    if x == 5:
        return bech(rng, rng.choice(['bc', 'tb']), rng.choice([0, 1]), rng.choice([20, 32]), const=0x2BC830A3), 'bech32m'
    if x == 6:
        hrp = rng.choice(['bc', 'tb'])
        v = ref.to5(gen.h20(rng) if rng.random() < 0.5 else gen.h32(rng))
        y = rng.random()
        if y < 0.4:
            v[-1] |= 1  # non zero padding
        elif y < 0.7:
            v += [0]  # excess padding
        else:
            v = v[:-1]
        return ref.bech32_raw(hrp, [0] + v), 'padding'
    if x == 7:
        hrp = rng.choice(['bc', 'tb', 'bcrt'])
        return ref.bech32_raw(hrp, rng.choice([[], [0], [0, 0], [1], [1, 2, 3]])), 'empty'
    return bech(rng, rng.choice(['bc', 'tb']), rng.randint(1, 16), rng.choice([0, 1, 2, 40, 41, 42])), 'prog-length'


def wif_like(rng):
    return ref.wif(rng.randint(1, ref.N - 1), rng.choice(['main', 'test']), rng.random() < 0.5), 'wif'


def directed(ctx):
    rng = random.Random('c08 %s' % ctx.seed)
    for net in ('main', 'test'):
        for k in ALLK:
            for _ in range(6):
                yield {'s': gen.address(rng, net, (k,)), 'o': 'valid', 'role': rng.choice(['out', 'left']), 'rs': rng.getrandbits(32)}
    for h in (bytes(20), b'\xff' * 20, bytes(19) + b'\1', b'\1' + bytes(19)):
        for v in (0, 5, 0x6F, 0xC4):
            yield {'s': ref.b58check(bytes([v]) + h), 'o': 'valid', 'role': 'out', 'rs': 1}
    for v in range(256):
        yield {'s': ref.b58check(bytes([v]) + gen.h20(rng)), 'o': 'version', 'role': rng.choice(['out', 'left']), 'rs': v}
    for ver in range(32):
        for n in (1, 2, 19, 20, 21, 32, 40, 41):
            yield {'s': bech(rng, rng.choice(['bc', 'tb']), ver, n), 'o': 'witver', 'role': 'out', 'rs': ver}
    # every single-character substitution of a few addresses
    if ctx.thorough:
        for net in ('main', 'test'):
            for k in ALLK:
                a = gen.address(rng, net, (k,))
                alpha = ref.B58 if k in ('p2pkh', 'p2sh') else ref.CHARSET + 'b1'
                for i in range(len(a)):
                    for c in alpha:
                        yield {'s': a[:i] + c + a[i + 1:], 'o': 'subst', 'role': 'out', 'rs': i}
    for s in ('', '1', '11', '1' * 25, '1' * 34, 'bc1', 'tb1', 'bc', ' ', '3', '0', 'bc1q', '1' * 33, 'é', '\0'):
        yield {'s': s, 'o': 'short', 'role': 'out', 'rs': 1}
    for _ in range(60):
        s, o = wif_like(rng)
        yield {'s': s, 'o': o, 'role': 'out', 'rs': 2}
    for n in range(0, 60):
        yield {'t': 'codec', 'b': bytes(rng.getrandbits(8) for _ in range(n))}
        yield {'t': 'codec', 'b': bytes(min(n, 5)) + bytes(rng.randint(1, 255) for _ in range(n))}
        yield {'t': 'codec', 'b': bytes(n)}
        yield {'t': 'codec', 'b': bytes(n) + bytes(rng.randint(1, 255) for _ in range(rng.randint(0, 9)))}
    for n in range(2, 41):
        if n not in (20, 32):
            for hrp in ('bc', 'tb'):
                yield {'s': bech(rng, hrp, 0, n), 'o': 'v0-length', 'role': 'out', 'rs': n}


def generate(rng, ctx):
    x = rng.random()
    rs = rng.getrandbits(32)
    role = rng.choice(['out', 'out', 'left', 'helper'])
    if x < 0.2:
        return {'s': gen.address(rng, rng.choice(['main', 'test']), ALLK), 'o': 'valid', 'role': role, 'rs': rs}
    if x < 0.3:
        return {'t': 'codec', 'b': bytes(rng.choice([0, 1, 2, rng.randint(3, 50)])) + bytes(rng.getrandbits(8) for _ in range(rng.randint(1, 60)))}
    if x < 0.5:
        s, o = crafted(rng)
        return {'s': s, 'o': o, 'role': role, 'rs': rs}
    if x < 0.53:
        s = ''.join(rng.choice(rng.choice([ref.B58, ref.CHARSET + '1'])) for _ in range(rng.randint(1, 60)))
        return {'s': s, 'o': 'random', 'role': role, 'rs': rs}
    a = gen.address(rng, rng.choice(['main', 'test']), ALLK)
    s, o = mutate(rng, a)
    return {'s': s, 'o': o, 'role': role, 'rs': rs, 'first': a if rng.random() < 0.4 else None}


def pay(a, rng):
    """Uses a genuine address in each role (what comes out is judged by other cases)."""
    from bit.transaction import address_to_scriptpubkey
    net, _ = ref.decode_address(a)
    w = txlab.Wallet({'kind': 'single', 'net': net, 'k': hex(779), 'comp': True})
    ups = [[10 ** 6, gen.txid(rng), 1, 's', 6, 0xFFFFFFFF]]
    address_to_scriptpubkey(a)
    w.first.create_transaction([(a, 5000, 'satoshi')], unspents=w.unspents(ups), fee=10, leftover=a)


def run(case, ctx):
    from bit import base58, base32
    from bit.transaction import address_to_scriptpubkey
    from bit.format import get_version
    if case.get('t') == 'codec':
        b = case['b']
        e = base58.b58encode_check(b)
        if e != ref.b58check(b):
            raise Violation('b58encode_check(%s) = %s, standard %s' % (b.hex(), e, ref.b58check(b)), key='b58')
        if base58.b58decode_check(e) != b:
            raise Violation('b58decode_check(%s) = %s' % (e, base58.b58decode_check(e).hex()), key='b58')
        if b.strip(b'\0'):
            r = base58.b58encode(b)
            if r != ref.b58enc(b) or base58.b58decode(r) != b:
                raise Violation('base58 of %s is not inverse' % b.hex(), key='b58')
        if len(b) in (20, 32) or 2 <= len(b) <= 40:
            for hrp in ('bc', 'tb', 'bcrt'):
                for v in ([0] if len(b) in (20, 32) else []) + [1, 16]:
                    a = base32.encode(hrp, v, list(b))
                    if a != ref.segwit_addr(hrp, v, b):
                        raise Violation('bech32 encode gives %s, standard %s' % (a, ref.segwit_addr(hrp, v, b)), key='bech32')
                    d = base32.decode(a)
                    if d[0] != v or bytes(d[1]) != b:
                        raise Violation('bech32 decode of %s gives %r' % (a, d), key='bech32')
        ctx.obs('codecs_inverse')
        ctx.shape('codec', len(b), len(b) - len(b.lstrip(b'\0')))
        return
    s = case['s']
    rng = random.Random(case['rs'])
    if case.get('first'):
        # the genuine address it resembles was used before
        pay(case['first'], rng)
        ctx.obs('look_alikes_of_used')
    try:
        net, script = ref.decode_address(s)
        good = True
    except ref.RefError:
        good, net = False, rng.choice(['main', 'test'])
        if s.lower().startswith('tb') or s[:1] in 'mn2':
            net = 'test'
        elif s.lower().startswith('bc') or s[:1] in '13':
            net = 'main'
    role = case['role']
    if role == 'helper':
        try:
            got = address_to_scriptpubkey(s)
            n = get_version(s)
        except Exception as e:
            if good:
                raise Violation('the valid address %r is rejected: %r' % (s, e), key='valid-rejected')
            ctx.obs('invalid_rejected')
        else:
            if not good:
                raise Violation('%r is not an address, yet maps to script %s' % (s, got and got.hex()), key='invalid-accepted')
            if got != script or n != net:
                raise Violation('address %s maps to %s (%s) instead of %s (%s)' % (s, got.hex(), n, script.hex(), net),
                                key='script')
            ctx.obs('valid_paid')
        ctx.shape(case['o'], role, good, len(s))
        return
    w = txlab.Wallet({'kind': 'single', 'net': net, 'k': hex(rng.choice([777, 778])), 'comp': True})
    other = gen.address(rng, net)
    ups = [[10 ** 6, gen.txid(rng), 1, rng.choice('ls'), 6, 0xFFFFFFFF]]
    pos = rng.randint(0, 1)
    if role == 'out':
        outs = [(other, 1000, 'satoshi')]
        outs.insert(pos, (s, 5000, 'satoshi'))
        kw = {}
    else:
        if not s:
            return
        outs, kw = [(other, 1000, 'satoshi')], {'leftover': s}
    api = rng.random()

    def call():
        if api < 0.25:
            p = type(w.first).prepare_transaction(w.addr['l'], outs, unspents=w.unspents(ups), fee=10, **kw)
            return w.first.sign_transaction(p)
        return w.first.create_transaction(outs, unspents=w.unspents(ups), fee=10, **kw)

    try:
        h = call()
    except Exception as e:
        if good:
            raise Violation('paying the valid address %r fails: %r' % (s, e), key='valid-rejected')
        ctx.obs('invalid_rejected' if role == 'out' else 'invalid_change_rejected')
        if case['o'] not in ('random', 'short', 'truncate'):
            ctx.obs('nearly_valid_rejected')
    else:
        if not good:
            raise Violation('%r is not an address, yet a transaction pays it' % s, key='invalid-accepted', hex=h)
        t = ref.Tx.parse(h)
        if role == 'out':
            if (t.outs[pos].script, t.outs[pos].value) != (script, 5000):
                raise Violation('paying %s produced %s:%d instead of script %s' % (
                    s, t.outs[pos].script.hex(), t.outs[pos].value, script.hex()), key='script', hex=h)
        elif len(t.outs) != 2 or t.outs[1].script != script:
            raise Violation('change to %s produced %s' % (s, [o.script.hex() for o in t.outs]), key='script', hex=h)
        ctx.obs('valid_paid')
    drain(W)
    ctx.shape(case['o'], role, good, len(s))
