"""C07: addresses are the standard ones for the key or contract."""
import random

from vlib import gen, ref, txlab
from vlib.core import Violation
from checks.common import offline_world, drain

LEVEL = 'exploration'
QUOTA = {'quick': 6000, 'thorough': 150000}
RULE = ('special secrets (leading zero bytes of X, Y, hash160; odd and even Y; range ends) and seeded random ones, and multisig '
        'contracts over all m, n, set/list, hex/bytes/mixed; compared with an independent derivation; distinct = (secret shape, '
        'network, compression) or (m, n, encodings, order)')
REQUIRED = ['addresses_compared', 'public_points_compared', 'contracts_compared', 'bad_contracts_rejected', 'repeated_keys', 'helpers_compared',
            'related_contracts']
ASSUMPTIONS = ['independent curve arithmetic and hashes (hashlib)']


def setup(ctx):
    global W
    W = offline_world()


def multi(rng, ctx, n=None, m=None):
    n = n or rng.choice([1, 2, 3, rng.randint(1, 15), 15])
    m = m or rng.randint(1, n)
    ks = []
    while len(ks) < n:
        k = hex(gen.key_int(rng, ctx.dic))
        if k not in ks:
            ks.append(k)
    as_set = rng.random() < 0.5
    if n > 1 and not as_set and rng.random() < 0.15:  # a key listed twice (counts twice)
        ks[rng.randrange(n)] = rng.choice(ks)
    comp = [True] * n
    if n <= 7 and rng.random() < 0.3:
        comp = [rng.random() < 0.5 for _ in ks]
    return {'t': 'multi', 'ks': ks, 'comp': comp, 'm': m, 'net': rng.choice(['main', 'test']),
            'enc': rng.choice(['hex', 'bytes', 'mix']), 'as_set': as_set, 'me': rng.randrange(n),
            'rs': rng.getrandbits(32)}


def directed(ctx):
    for k in gen.SPECIAL_KEYS + list(range(1, 60)):
        for net in ('main', 'test'):
            for comp in (True, False):
                yield {'t': 'key', 'k': hex(k), 'net': net, 'comp': comp}
    rng = random.Random('c07 %s' % ctx.seed)
    for n in range(1, 16):
        for m in range(1, n + 1):
            yield multi(rng, ctx, n, m)
    for kind in ('m<1', 'm>n', 'len', 'big', 'alien', 'type', 'net'):
        for _ in range(6):
            yield dict(multi(rng, ctx, n=3 if kind != 'big' else 1), t='bad', bad=kind)


def generate(rng, ctx):
    x = rng.random()
    if x < 0.5:
        return {'t': 'key', 'k': hex(gen.key_int(rng, ctx.dic)), 'net': rng.choice(['main', 'test']),
                'comp': rng.random() < 0.6}
    if x < 0.95:
        return multi(rng, ctx)
    return dict(multi(rng, ctx, n=rng.randint(1, 5)), t='bad', bad=rng.choice(['m<1', 'm>n', 'len', 'big', 'alien', 'type', 'net']))


def eq(what, got, want):
    if got != want:
        raise Violation('%s is %r, the standard gives %r' % (what, got, want), key=what.split()[0])


def run(case, ctx):
    import bit
    from bit import format as F
    net = case['net']
    if case['t'] == 'key':
        k, comp = int(case['k'], 16), case['comp']
        key = txlab.bit_key(k, comp, net)
        pub = ref.pubkey(k, comp)
        eq('public_key', key.public_key, pub)
        eq('pub_to_hex', key.pub_to_hex(), pub.hex())
        pt = ref.point(k)
        got = key.public_point
        eq('public_point', (got.x, got.y), (pt[0], pt[1]))
        eq('public_point tuple', tuple(got), (pt[0], pt[1]))
        ctx.obs('public_points_compared')
        eq('address', key.address, ref.p2pkh_addr(pub, net))
        eq('address (second read)', key.address, ref.p2pkh_addr(pub, net))
        eq('segwit_address', key.segwit_address, ref.np2wkh_addr(pub, net) if comp else None)
        eq('segwit_address (second read)', key.segwit_address, ref.np2wkh_addr(pub, net) if comp else None)
        ctx.obs('addresses_compared', 2)
        eq('public_key_to_address', F.public_key_to_address(pub, version=net), ref.p2pkh_addr(pub, net))
        if comp:
            eq('public_key_to_segwit_address', F.public_key_to_segwit_address(pub, version=net), ref.np2wkh_addr(pub, net))
        else:
            try:
                a = F.public_key_to_segwit_address(pub, version=net)
            except ValueError:
                pass
            else:
                raise Violation('segwit address %s for an uncompressed key (unspendable)' % a, key='segwit-uncompressed')
        eq('public_key_to_coords', tuple(F.public_key_to_coords(pub)), (pt[0], pt[1]))
        eq('coords_to_public_key', F.coords_to_public_key(pt[0], pt[1], compressed=comp), pub)
        eq('point_to_public_key', F.point_to_public_key(got, compressed=comp), pub)
        ctx.obs('helpers_compared', 4)
        ctx.shape(k.bit_length(), pt[1] & 1, pub[1] == 0, ref.hash160(pub)[0] == 0, net, comp)
        drain(W)
        return
    rng = random.Random(case['rs'])
    pubs = [ref.pubkey(int(x, 16), c) for x, c in zip(case['ks'], case['comp'])]
    m = case['m']
    me = case['me']
    cls = bit.MultiSig if net == 'main' else bit.MultiSigTestnet

    def enc(ps):
        return [p if case['enc'] == 'bytes' or case['enc'] == 'mix' and rng.random() < 0.5 else p.hex() for p in ps]

    key = txlab.bit_key(int(case['ks'][me], 16), case['comp'][me], net)
    if case['t'] == 'bad':
        b = case['bad']
        given, mm, kk = enc(pubs), m, key
        if b == 'm>n':
            mm = len(pubs) + rng.choice([1, 2, 13])
        elif b == 'm<1':
            mm = rng.choice([0, 0, -1, -2, -79, -80])  # spendable by nobody, or by anybody
        elif b == 'len':
            q = bytes(pubs[0][:-1]) if rng.random() < 0.5 else pubs[0] + b'\x01'
            given = given + [q if rng.random() < 0.5 else q.hex()]
        elif b == 'big':
            have = [ref.pubkey(1000 + j, j % 3 != 0 or j < 12) for j in range(16)]
            given = enc(pubs + have)
        elif b == 'alien':
            kk = txlab.bit_key(int(case['ks'][me], 16) % (ref.N - 1) + 1, True, net)
            if kk.public_key in pubs:
                return
        elif b == 'type':
            given = tuple(given)
        else:
            kk = txlab.bit_key(int(case['ks'][me], 16), case['comp'][me], 'test' if net == 'main' else 'main')
        try:
            w = cls(kk, given, mm)
            a = w.address
        except Exception:
            ctx.obs('bad_contracts_rejected')
            ctx.shape('bad', b)
            return
        raise Violation('an impossible contract (%s) yields address %s' % (b, a), key='bad-contract')
    order = sorted(pubs) if case['as_set'] else pubs
    given = enc(pubs)
    if case['as_set']:
        rng.shuffle(given)
        given = set(given)
    w = cls(key, given, m)
    redeem = ref.multisig_script(order, m)
    eq('redeemscript', w.redeemscript, redeem)
    eq('address', w.address, ref.p2sh_addr(redeem, net))
    comp = all(case['comp'])
    eq('segwit_address', w.segwit_address, ref.np2wsh_addr(redeem, net) if comp else None)
    eq('multisig_to_redeemscript', F.multisig_to_redeemscript(order, m), redeem)
    eq('multisig_to_address', F.multisig_to_address(order, m, version=net), ref.p2sh_addr(redeem, net))
    if comp:
        eq('multisig_to_segwit_address', F.multisig_to_segwit_address(order, m, version=net), ref.np2wsh_addr(redeem, net))
    # another cosigner, other encoding, gets the same contract
    j = rng.randrange(len(pubs))
    g2 = enc(pubs)
    if case['as_set']:
        g2 = set(g2)
    w2 = cls(txlab.bit_key(int(case['ks'][j], 16), case['comp'][j], net), g2, m)
    eq('cosigner address', w2.address, w.address)
    eq('cosigner segwit address', w2.segwit_address, w.segwit_address)
    # contracts that resemble this one have addresses of their own, and this one keeps its
    def contract(what, k_, given_, m_, order_, net_):
        x = (bit.MultiSig if net_ == 'main' else bit.MultiSigTestnet)(k_, given_, m_)
        red = ref.multisig_script(order_, m_)
        eq('redeemscript of ' + what, x.redeemscript, red)
        eq('address of ' + what, x.address, ref.p2sh_addr(red, net_))
        eq('segwit_address of ' + what, x.segwit_address, ref.np2wsh_addr(red, net_) if comp else None)
        ctx.obs('related_contracts')

    n = len(pubs)
    if n > 1:
        contract('the same keys with another m', key, set(enc(pubs)) if case['as_set'] else enc(pubs), m % n + 1, order, net)
        contract('the keys in reverse', key, enc(order[::-1]), m, order[::-1], net)
    if n > 1 and len(set(pubs)) == n:
        contract('the keys as ' + ('a list' if case['as_set'] else 'a set'), key, enc(pubs) if case['as_set'] else set(enc(pubs)), m,
                 pubs if case['as_set'] else sorted(pubs), net)
    other = 'test' if net == 'main' else 'main'
    contract('the other network', txlab.bit_key(int(case['ks'][me], 16), case['comp'][me], other),
             set(enc(pubs)) if case['as_set'] else enc(pubs), m, order, other)
    contract('the same contract once more', key, set(enc(pubs)) if case['as_set'] else enc(pubs), m, order, net)
    ctx.obs('contracts_compared')
    if len(set(pubs)) < len(pubs):
        ctx.obs('repeated_keys')
    ctx.shape(m, len(pubs), case['enc'], case['as_set'], case['comp'], net, pubs == order)
    drain(W)
