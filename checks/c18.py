"""C18: signatures are canonical, deterministic and verified correctly."""
import random

from vlib import gen, ref, txlab
from vlib.core import Violation
from checks.common import offline_world

LEVEL = 'exploration'
QUOTA = {'quick': 8000, 'thorough': 120000}
RULE = ('seeded keys (all key classes, boundary scalars) and data; each signature is compared with an independent RFC 6979 signer, '
        'its DER and S checked, and verified through the key and through verify_sig; then alterations: every byte or bit of the '
        'signature, the data, the key, truncations, extensions, wrong DER, zero and overflowing scalars, random bytes; '
        'distinct = (key class, data size, alteration, position)')
REQUIRED = ['signatures', 'accepted', 'altered_data_rejected', 'other_key_rejected', 'altered_signature_rejected',
            'malformed_rejected', 'other_encoding_of_key', 'multisig_signers', 'foreign_valid_accepted', 'extreme_valid_accepted']
ASSUMPTIONS = ['whether a valid but high-S signature verifies is left open', 'data is bytes']


def setup(ctx):
    offline_world()


KINDS = ['main', 'test', 'mainu', 'testu', 'multi', 'multitest']


def directed(ctx):
    rng = random.Random('c18 %s' % ctx.seed)
    for k in gen.SPECIAL_KEYS:
        for kind in KINDS:
            yield {'k': hex(k), 'kind': kind, 'd': b'data', 'rs': rng.getrandbits(32)}
    for n in (0, 1, 31, 32, 33, 55, 56, 63, 64, 65, 127, 128, 1000, 10 ** 5):
        yield {'k': hex(9999), 'kind': 'main', 'd': bytes(n), 'rs': rng.getrandbits(32)}
    # unusually short signatures (found by search: 67 and 68 bytes)
    for k, d in ((7005, b'1837570'), (7000, b'10523'), (7000, b'44679'), (7001, b'50661'), (7001, b'130007')):
        for kind in KINDS:
            yield {'k': hex(k), 'kind': kind, 'd': d, 'rs': rng.getrandbits(32)}
    # one key and datum, every single bit of the signature and every truncation
    yield {'k': hex(0xABCDEF), 'kind': 'main', 'd': b'exhaustive', 'rs': 1, 'all': True}
    yield {'k': hex(ref.N - 2), 'kind': 'testu', 'd': b'', 'rs': 2, 'all': True}


def generate(rng, ctx):
    n = rng.choice([0, 1, 32, 32, 33, 64, rng.randint(0, 300), ctx.dic.pick(rng, 0, 5000)])
    return {'k': hex(gen.key_int(rng, ctx.dic)), 'kind': rng.choice(KINDS), 'd': rng.getrandbits(8 * n).to_bytes(n, 'big') if n else b'',
            'rs': rng.getrandbits(32)}


def malformed(rng, sig, r, s):
    out = []
    out.append(('empty', b''))
    out.append(('short', sig[:rng.randrange(len(sig))]))
    out.append(('trail', sig + bytes([rng.randrange(256)])))
    out.append(('sighash', sig + b'\x01'))
    out.append(('tag', b'\x31' + sig[1:]))
    out.append(('len', sig[:1] + bytes([(sig[1] + rng.choice([1, 2, 255])) % 256]) + sig[2:]))
    out.append(('zero-r', ref.encode_der(0, s)))
    out.append(('zero-s', ref.encode_der(r, 0)))
    out.append(('big-r', ref.encode_der(r + ref.N, s)))
    out.append(('big-s', ref.encode_der(r, s + ref.N)))
    out.append(('swap', ref.encode_der(s, r)))
    out.append(('one', ref.encode_der(1, 1)))
    out.append(('max', ref.encode_der(2 ** 256 - 1, 2 ** 256 - 1)))
    rb = r.to_bytes(33, 'big')
    out.append(('raw64', r.to_bytes(32, 'big') + s.to_bytes(32, 'big')))
    out.append(('random', rng.getrandbits(8 * 71).to_bytes(71, 'big')))
    out.append(('long', b'\x30' + b'\xff' * 200))
    out.append(('nul', bytes(72)))
    out.append(('pad-r', b'\x30' + bytes([sig[1] + 1]) + b'\x02' + bytes([sig[3] + 1]) + b'\x00' + sig[4:] if rb else b''))
    return out


def run(case, ctx):
    import bit
    from bit.format import verify_sig
    rng = random.Random(case['rs'])
    k, kind, data = int(case['k'], 16), case['kind'], case['d']
    net = 'test' if 'test' in kind else 'main'
    comp = not kind.endswith('u')
    key = txlab.bit_key(k, comp, net)
    signer = key
    if kind.startswith('multi'):
        cls = bit.MultiSig if net == 'main' else bit.MultiSigTestnet
        other = k
        while other == k:
            other = gen.key_int(rng)
        signer = cls(key, [ref.pubkey(k, True).hex(), ref.pubkey(other, True).hex()], rng.choice([1, 2]))
        ctx.obs('multisig_signers')
    sig = signer.sign(data)
    digest = ref.sha256(data)
    want = ref.rfc6979_sign(k, digest)
    try:
        r, s = ref.parse_der(sig)
    except ref.RefError as e:
        raise Violation('signature %s is not strict DER: %s' % (sig.hex(), e), key='der')
    if s > ref.N // 2:
        raise Violation('signature %s has a high S' % sig.hex(), key='high-s')
    if sig != want or signer.sign(data) != sig:
        raise Violation('signature %s differs from the deterministic one %s' % (sig.hex(), want.hex()), key='determinism')
    near = []
    if data:
        i = rng.randrange(len(data))
        near.append(data[:i] + bytes([data[i] ^ (1 << rng.randrange(8))]) + data[i + 1:])
    near += [data + b'\0', data + bytes(rng.getrandbits(8) for _ in range(rng.randint(1, 40))), data[:-1], b'\0' + data]
    for d in near:
        # what was signed before does not matter
        w_ = ref.rfc6979_sign(k, ref.sha256(d))
        if signer.sign(d) != w_:
            raise Violation('after signing %s, signing %s gives another signature than the deterministic one' % (
                data.hex()[:200], d.hex()[:200]), key='determinism')
        ctx.obs('neighbours_signed')
    ctx.obs('signatures')
    pubs = [ref.pubkey(k, True), ref.pubkey(k, False)]

    def verdict(what, sig_, data_, pub_k, expect):
        """The answer of both verification routes."""
        kk = txlab.bit_key(pub_k, comp, net) if pub_k != k else key
        for route, v in (('verify', lambda: kk.verify(sig_, data_)),
                         ('verify_sig', lambda: verify_sig(sig_, data_, rng.choice([ref.pubkey(pub_k, True),
                                                                                  ref.pubkey(pub_k, False)])))):
            got = v()
            if bool(got) != expect:
                raise Violation('%s answers %r for %s (signature %s, %d data bytes), expected %s' % (
                    route, got, what, sig_.hex()[:300], len(data_), expect), key='verify-' + what.split()[0])

    verdict('the-signature', sig, data, k, True)
    ctx.obs('accepted')
    for p in pubs:
        if verify_sig(sig, data, p) is not True:
            raise Violation('verify_sig rejects the signature for key encoding %s' % p.hex(), key='verify-encoding')
        ctx.obs('other_encoding_of_key')
    # a valid signature with another nonce is valid too
    n = rng.randint(1, ref.N - 1)
    r2 = ref.point(n)[0] % ref.N
    s2 = pow(n, -1, ref.N) * (int.from_bytes(digest, 'big') + r2 * k) % ref.N
    s2 = min(s2, ref.N - s2)
    if r2 and s2:
        verdict('foreign signature', ref.encode_der(r2, s2), data, k, True)
        ctx.obs('foreign_valid_accepted')
    # valid signatures of extreme size: the key is chosen to fit nonce and S
    n = rng.choice([1, 2, pow(2, -1, ref.N), rng.randint(1, ref.N - 1)])
    r3 = ref.point(n)[0] % ref.N
    s3 = rng.choice([1, 2, 127, 128, 255, 256, ref.N // 2, rng.getrandbits(rng.randint(1, 254)) | 1])
    k3 = (s3 * n - int.from_bytes(digest, 'big')) * pow(r3, -1, ref.N) % ref.N
    if r3 and k3:
        sig3 = ref.encode_der(r3, s3)
        verdict('extreme signature', sig3, data, k3, True)
        verdict('extreme signature of other data', sig3, data + b'\0', k3, False)
        ctx.obs('extreme_valid_accepted')
        ctx.shape('extreme', len(sig3))
    # data
    alts = [data + b'\0', data + b'x', b'\0' + data, digest, data.upper() if data.upper() != data else data + b' ']
    if data:
        i = rng.randrange(len(data))
        alts += [data[:-1], data[1:], data[:i] + bytes([data[i] ^ 1 << rng.randrange(8)]) + data[i + 1:], b'']
    for a in alts:
        if a != data:
            verdict('altered data', sig, a, k, False)
            ctx.obs('altered_data_rejected')
    # key
    for k2 in {ref.N - k, k + 1 if k + 1 < ref.N else 1, rng.randint(1, ref.N - 1)} - {k}:
        verdict('other key', sig, data, k2, False)
        ctx.obs('other_key_rejected')
    # signature
    muts = []
    if case.get('all'):
        muts = [(i, b) for i in range(len(sig)) for b in range(8)]
    else:
        muts = [(rng.randrange(len(sig)), rng.randrange(8)) for _ in range(6)] + [(0, 0), (1, 0), (2, 1), (3, 0)]
    for i, b in muts:
        m = sig[:i] + bytes([sig[i] ^ 1 << b]) + sig[i + 1:]
        try:
            rr, ss = ref.parse_der(m)
            ok = ref.ecdsa_verify(pubs[0], digest, rr, ss)
            if ok:
                continue
        except ref.RefError:
            pass
        verdict('altered signature', m, data, k, False)
        ctx.obs('altered_signature_rejected')
        ctx.shape(kind, i, b)
    for name, m in malformed(rng, sig, r, s):
        if m == sig:
            continue
        try:
            rr, ss = ref.parse_der(m)
            if ref.ecdsa_verify(pubs[0], digest, rr, ss):
                continue
        except ref.RefError:
            pass
        verdict('malformed %s' % name, m, data, k, False)
        ctx.obs('malformed_rejected')
        ctx.shape(kind, name, len(data))
    if case.get('all'):
        for n in range(len(sig)):
            verdict('truncated', sig[:n], data, k, False)
