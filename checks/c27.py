"""C27: equality of keys, unspents and parsed transactions reflects their content."""
import random

from vlib import gen, ref, txlab
from vlib.core import Violation
from checks import c17

LEVEL = 'exploration'
QUOTA = {'quick': 12000, 'thorough': 200000}
RULE = ('pairs of keys, unspents and parsed transactions built from equal content by different routes, and pairs differing in exactly '
        'one part (any byte of a secret, any field of an unspent, any part of a transaction); distinct = (kind, part that differs, '
        'class of the value)')
REQUIRED = ['equal_keys', 'different_keys', 'equal_unspents', 'different_unspents', 'equal_transactions', 'different_transactions',
            'list_membership', 'witness_differs', 'sequence_differs']
ASSUMPTIONS = ['what counts as content: the secret for keys; amount, script, txid, index, segwit flag and sequence for unspents; every '
               'serialised byte for transactions']
PARTS = ('amount', 'script', 'txid', 'txindex', 'segwit', 'sequence')
NETS = ('main', 'test')


def setup(ctx):
    pass


def directed(ctx):
    for k in gen.SPECIAL_KEYS:
        for bit in (0, 1, 7, 8, 31, 32, 63, 64, 127, 128, 200, 248, 254, 255):
            yield {'t': 'key', 'k': hex(k), 'bit': bit, 'rs': bit}
    for p in PARTS:
        for rs in range(40):
            yield {'t': 'unspent', 'part': p, 'rs': rs}
    for c in c17.directed(ctx):
        if c['ni'] <= 300 and c['no'] <= 300 and max(c['ss'] + c['os'] + [n for w in c['w'] for n in w[:20]] + [0]) < 70000 and \
                max(len(w) for w in c['w']) < 1000:
            yield {'t': 'tx', 'c': c, 'rs': c['rs']}


def generate(rng, ctx):
    x = rng.random()
    if x < 0.25:
        return {'t': 'key', 'k': hex(gen.key_int(rng, ctx.dic)), 'bit': rng.randrange(256), 'rs': rng.getrandbits(32)}
    if x < 0.55:
        return {'t': 'unspent', 'part': rng.choice(PARTS), 'rs': rng.getrandbits(32)}
    return {'t': 'tx', 'c': c17.generate(rng, ctx), 'rs': rng.getrandbits(32)}


def judge(a, b, want, what, ctx, counter):
    for x, y in ((a, b), (b, a)):
        if bool(x == y) != want or bool(x != y) == want:
            raise Violation('%s compare as %s' % (what, 'different' if want else 'equal'), key=counter)
    if (a in [b]) != want or [b].count(a) != int(want):
        raise Violation('%s: membership in a list disagrees' % what, key=counter)
    ctx.obs(counter)
    ctx.obs('list_membership')


def key_forms(k, rng):
    import bit
    out = []
    for net in NETS:
        cls = bit.PrivateKey if net == 'main' else bit.PrivateKeyTestnet
        out += [cls.from_int(k), cls(ref.wif(k, net, True)), cls(ref.wif(k, net, False)), cls.from_hex('%064x' % k),
                cls.from_bytes(k.to_bytes(32, 'big'))]
    out.append(bit.PrivateKey.from_pem(out[0].to_pem()))
    out.append(bit.PrivateKey.from_der(out[0].to_der()))
    return rng.sample(out, 4)


def run(case, ctx):
    rng = random.Random(case['rs'])
    {'key': run_key, 'unspent': run_unspent, 'tx': run_tx}[case['t']](case, ctx, rng)


def run_key(case, ctx, rng):
    k = int(case['k'], 16)
    o = k ^ (1 << case['bit'])
    if rng.random() < 0.2:
        o = ref.N - k  # same x coordinate
    fa = key_forms(k, rng)
    judge(fa[0], fa[1], True, 'two forms of the key %#x' % k, ctx, 'equal_keys')
    judge(fa[2], fa[3], True, 'two forms of the key %#x' % k, ctx, 'equal_keys')
    if 0 < o < ref.N and o != k:
        fb = key_forms(o, rng)
        for a, b in zip(fa, fb):
            judge(a, b, False, 'the keys %#x and %#x' % (k, o), ctx, 'different_keys')
    ctx.shape('key', case['bit'], k.bit_length(), o == ref.N - k)


def run_unspent(case, ctx, rng):
    from bit.network.meta import Unspent
    part = case['part']
    kinds = {False: ['p2pkh', 'p2pkh-uncompressed', 'p2sh'], True: ['np2wkh', 'np2wsh', 'p2wkh', 'p2wsh'], None: ['unknown', 'p2something']}
    seg = rng.choice([True, True, False, False, None])
    f = {'amount': rng.choice([1, 546, 10 ** 8, 2 ** 32, rng.randint(1, 21 * 10 ** 14)]), 'conf': rng.choice([0, 1, 6, rng.randint(0, 10 ** 6)]),
         'script': rng.getrandbits(8 * 25).to_bytes(25, 'big').hex(), 'txid': gen.txid(rng),
         'txindex': rng.choice([0, 1, 2, 255, 256, rng.getrandbits(32)]), 'seq': rng.choice([0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFFFD, 0, 1,
                                                                                          rng.getrandbits(32)]), 'seg': seg}
    make = lambda d: Unspent(d['amount'], d['conf'], d['script'], d['txid'], d['txindex'], rng.choice(kinds[d['seg']]), sequence=d['seq'])
    a = make(f)
    # confirmations grow with time: the same unspent
    judge(a, make(dict(f, conf=f['conf'] + rng.choice([0, 1, 6, 144]))), True, 'two unspents with the content %r' % f, ctx, 'equal_unspents')
    judge(a, Unspent.from_dict(a.to_dict()), True, 'an unspent and its copy through a dictionary, %r' % f, ctx, 'equal_unspents')
    g = dict(f)
    flip = lambda h: (lambda i: h[:i] + ('%x' % (int(h[i], 16) ^ rng.randint(1, 15))) + h[i + 1:])(rng.randrange(len(h)))
    if part == 'amount':
        g['amount'] += rng.choice([1, -1, 256, 2 ** 32, 10 ** 8]) if g['amount'] > 1 else 1
    elif part in ('script', 'txid'):
        g[part] = flip(g[part])
    elif part == 'txindex':
        g['txindex'] = g['txindex'] + rng.choice([1, 256, 65536]) if rng.random() < 0.7 else g['txindex'] ^ 1
    elif part == 'segwit':
        g['seg'] = rng.choice([x for x in kinds if x is not g['seg']])
    else:
        g['seq'] = g['seq'] ^ rng.choice([1, 2, 3, 1 << rng.randrange(32)])
        ctx.obs('sequence_differs')
    judge(a, make(g), False, 'the unspents %r and %r' % (f, g), ctx, 'different_unspents')
    ctx.shape('unspent', part, f['amount'].bit_length(), f['seq'].bit_length(), seg)


def run_tx(case, ctx, rng):
    from bit.transaction import deserialize
    t, _ = c17.build(case['c'])
    raw = t.ser()
    a = deserialize(raw.hex())
    judge(a, deserialize(raw), True, 'two parses of %s' % raw.hex()[:400], ctx, 'equal_transactions')
    u = ref.Tx.parse(raw.hex())
    seg = any(i.wit for i in u.ins)
    what = rng.choice(['version', 'lock', 'txid', 'vout', 'script', 'seq', 'value', 'oscript', 'drop_in', 'drop_out', 'swap'] +
                      ['wit'] * 4 * seg)
    i, o = rng.choice(u.ins), rng.choice(u.outs)
    mutb = lambda b: (lambda j: b[:j] + bytes([b[j] ^ rng.randint(1, 255)]) + b[j + 1:])(rng.randrange(len(b))) if b else b'\x01'
    if what == 'version':
        u.version ^= 1 << rng.randrange(32)
    elif what == 'lock':
        u.lock ^= 1 << rng.randrange(32)
    elif what == 'txid':
        i.txid = mutb(bytes.fromhex(i.txid)).hex()
    elif what == 'vout':
        i.vout ^= 1 << rng.randrange(32)
    elif what == 'script':
        i.script = mutb(i.script)
    elif what == 'seq':
        i.seq ^= 1 << rng.randrange(32)
        ctx.obs('sequence_differs')
    elif what == 'value':
        o.value ^= 1 << rng.randrange(64)
    elif what == 'oscript':
        o.script = mutb(o.script)
    elif what == 'drop_in':
        if len(u.ins) < 2:
            u.ins.append(u.ins[0])
        else:
            u.ins.remove(i)
    elif what == 'drop_out':
        if len(u.outs) < 2:
            u.outs.append(u.outs[0])
        else:
            u.outs.remove(o)
    elif what == 'swap':
        u.outs.reverse()
        u.ins.reverse()
    else:
        i = rng.choice([x for x in u.ins if x.wit])
        j = rng.randrange(len(i.wit))
        i.wit[j] = mutb(i.wit[j])
        ctx.obs('witness_differs')
    raw2 = u.ser()
    if raw2 != raw:
        judge(a, deserialize(raw2.hex()), False, 'transactions differing in %s: %s and %s' % (what, raw.hex()[:400], raw2.hex()[:400]), ctx,
              'different_transactions')
        # part by part, as a caller comparing inputs or outputs would
        b = deserialize(raw2.hex())
        if what in ('txid', 'vout', 'script', 'seq', 'wit'):
            if list(a.TxIn) == list(b.TxIn) or list(a.TxOut) != list(b.TxOut):
                raise Violation('differing in %s, but inputs equal: %s, outputs equal: %s' % (what, list(a.TxIn) == list(b.TxIn), list(a.TxOut)
                                                                                           == list(b.TxOut)), key='parts')
        if what in ('value', 'oscript'):
            if list(a.TxIn) != list(b.TxIn) or list(a.TxOut) == list(b.TxOut):
                raise Violation('differing in %s, but inputs equal: %s, outputs equal: %s' % (what, list(a.TxIn) == list(b.TxIn), list(a.TxOut)
                                                                                           == list(b.TxOut)), key='parts')
    ctx.shape('tx', what, seg, len(u.ins), len(u.outs))
