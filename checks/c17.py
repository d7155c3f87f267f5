"""C17: transactions parse and re-serialise losslessly."""
import random

from vlib import ref, world
from vlib.core import Violation

LEVEL = 'exploration'
QUOTA = {'quick': 16000, 'thorough': 250000}
RULE = ('seeded well-formed transactions built by an independent serialiser: part counts and sizes at and around every varint '
        'boundary, arbitrary field bytes, any witness structure, plus every transaction the library itself signs; parsed fields, '
        're-serialisation and id compared with the source; distinct = (counts, size classes, witness structure)')
REQUIRED = ['round_trips', 'ids', 'segwit', 'legacy', 'varint3', 'varint5', 'empty_witness_beside_full', 'many_parts']
ASSUMPTIONS = ['well-formed: at least one input and output, canonical length prefixes, witness section only if some witness is non-empty']


def setup(ctx):
    pass


def blob(rng, n):
    x = rng.random()
    if n > 2000:
        return bytes([rng.randrange(256)]) * n
    if x < 0.2:
        return bytes([rng.choice([0, 1, 0xFD, 0xFE, 0xFF, 0x30, 0x4C])]) * n
    return rng.getrandbits(8 * n).to_bytes(n, 'big') if n else b''


def case_of(n_in=1, n_out=1, ssz=(0,), osz=(25,), wit=((),), rs=1, num=False):
    return {'ni': n_in, 'no': n_out, 'ss': list(ssz), 'os': list(osz), 'w': [list(x) for x in wit], 'rs': rs, 'numw': num}


EDGE = [0, 1, 2, 75, 76, 127, 128, 251, 252, 253, 254, 255, 256, 257, 258, 509, 510, 511, 512, 513, 519, 520, 521, 32767, 32768,
        65534, 65535, 65536, 65537, 65789]


def directed(ctx):
    rs = 0
    for n in EDGE:
        rs += 1
        yield case_of(ssz=(n,), rs=rs)
        yield case_of(osz=(n,), rs=rs)
        yield case_of(wit=((n,),), rs=rs)
        yield case_of(n_in=2, wit=((n, 33), ()), rs=rs)
        yield case_of(n_in=3, wit=((), (n, 0, n), ()), rs=rs, ssz=(n, 0, 23))
    for n in (1, 2, 3, 4, 251, 252, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513, 600):
        rs += 1
        yield case_of(n_in=n, rs=rs)
        yield case_of(n_out=n, rs=rs)
        yield case_of(n_in=n, n_out=n, wit=((72, 33),), rs=rs)
        yield case_of(n_in=n, wit=((72, 33), (), (0,)), rs=rs)
        yield case_of(wit=((1,) * n,), rs=rs)
        yield case_of(wit=((0,) * n, ()), n_in=2, rs=rs)
    for n in (65535, 65536):
        yield case_of(wit=((0,) * n,), rs=n)
    if ctx.thorough:
        for n in (65535, 65536):
            yield case_of(n_out=n, osz=(0,), rs=n)
            yield case_of(n_in=n, ssz=(0,), rs=n)


def size(rng, ctx, big):
    x = rng.random()
    if x < 0.4:
        return rng.choice([0, 22, 23, 25, 34, 35, 72, 107, 108])
    if x < 0.9 or not big:
        return rng.randint(0, 120) if x < 0.7 else ctx.dic.pick(rng, 0, 700)
    return ctx.dic.pick(rng, 0, 66000)


def generate(rng, ctx):
    big = rng.random() < 0.08
    n_in = rng.randint(1, 5) if rng.random() < 0.85 else ctx.dic.pick(rng, 1, 300)
    n_out = rng.randint(1, 5) if rng.random() < 0.85 else ctx.dic.pick(rng, 1, 300)
    ss = [size(rng, ctx, big) for _ in range(rng.randint(1, 4))]
    os_ = [size(rng, ctx, big) for _ in range(rng.randint(1, 4))]
    w = [()]
    if rng.random() < 0.6:
        w = [[size(rng, ctx, big and rng.random() < 0.3) for _ in range(rng.choice([0, 0, 1, 2, 3, 4, rng.randint(0, 16)]))]
             for _ in range(rng.randint(1, 4))]
    return case_of(n_in, n_out, ss, os_, w, rng.getrandbits(32))


def build(case):
    rng = random.Random(case['rs'])
    u32 = lambda: rng.choice([0, 1, 2, 0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFFFD, 500000000, rng.getrandbits(32), rng.getrandbits(31), 252,
                              253, 65535, 65536, 0x00010000, 0x0100])
    t = ref.Tx(rng.choice([1, 2, 0, 0xFFFFFFFF, 0x20000001, rng.getrandbits(32)]), lock=u32())
    for i in range(case['ni']):
        txid = rng.getrandbits(256).to_bytes(32, 'big').hex() if rng.random() < 0.95 else '00' * 32
        t.ins.append(ref.In(txid, u32(), blob(rng, case['ss'][i % len(case['ss'])]), u32(),
                            [blob(rng, n) for n in case['w'][i % len(case['w'])]]))
    for i in range(case['no']):
        v = rng.choice([0, 1, 546, 10 ** 8, 2 ** 32, 21 * 10 ** 14, rng.getrandbits(50), 2 ** 64 - 1, rng.getrandbits(63)])
        t.outs.append(ref.Out(v, blob(rng, case['os'][i % len(case['os'])])))
    return t, rng


def le(n, k):
    return n.to_bytes(k, 'little')


def run(case, ctx):
    from bit.transaction import TxObj, calc_txid, deserialize
    t, rng = build(case)
    raw = t.ser()
    h = raw.hex()
    src = [h, raw, h.upper()][rng.randrange(3)]
    obj = deserialize(src)

    def same(what, got, want):
        if bytes(got) != want:
            raise Violation('%s parsed as %s, is %s' % (what, bytes(got).hex()[:200], want.hex()[:200]), key='field')

    same('version', obj.version, le(t.version, 4))
    same('locktime', obj.locktime, le(t.lock, 4))
    if len(obj.TxIn) != len(t.ins) or len(obj.TxOut) != len(t.outs):
        raise Violation('%d inputs and %d outputs parsed, transaction has %d and %d' % (len(obj.TxIn), len(obj.TxOut), len(t.ins),
                                                                                      len(t.outs)), key='counts')
    seg = any(i.wit for i in t.ins)
    for n, (a, b) in enumerate(zip(obj.TxIn, t.ins)):
        same('txid of input %d' % n, a.txid, bytes.fromhex(b.txid)[::-1])
        same('index of input %d' % n, a.txindex, le(b.vout, 4))
        same('script of input %d' % n, a.script_sig, b.script)
        same('sequence of input %d' % n, a.sequence, le(b.seq, 4))
        if b.wit:
            same('witness of input %d' % n, a.witness, ref.varint(len(b.wit)) + b''.join(ref.varint(len(x)) + x for x in b.wit))
        elif a.witness not in (b'', b'\x00', None):
            raise Violation('input %d has no witness but one was parsed: %r' % (n, a.witness), key='field')
    for n, (a, b) in enumerate(zip(obj.TxOut, t.outs)):
        same('amount of output %d' % n, a.amount, le(b.value, 8))
        same('script of output %d' % n, a.script_pubkey, b.script)
    if bytes(obj) != raw or obj.to_hex() != h:
        raise Violation('re-serialised to %s..., was %s...' % (bytes(obj).hex()[:300], h[:300]), key='reserialise')
    if obj.legacy_repr() != t.base():
        raise Violation('witness-free form differs: %s' % obj.legacy_repr().hex()[:300], key='legacy')
    if bool(TxObj.is_segwit(obj)) != seg or bool(TxObj.is_segwit(h)) != seg:
        raise Violation('is_segwit() wrong, witness present: %s' % seg, key='segwit')
    if calc_txid(h) != t.txid():
        raise Violation('id given as %s, is %s' % (calc_txid(h), t.txid()), key='txid')
    if deserialize(bytes(obj)) != obj:
        raise Violation('parsing twice gives different objects', key='reparse')
    ctx.obs('round_trips')
    ctx.obs('ids')
    ctx.obs('segwit' if seg else 'legacy')
    if seg and not all(i.wit for i in t.ins):
        ctx.obs('empty_witness_beside_full')
    sizes = [case['ni'], case['no']] + case['ss'] + case['os'] + [x for w in case['w'] for x in w] + [len(w) for w in case['w']]
    if any(253 <= x < 65536 for x in sizes):
        ctx.obs('varint3')
    if any(x >= 65536 for x in sizes):
        ctx.obs('varint5')
    if max(case['ni'], case['no']) > 252:
        ctx.obs('many_parts')
    cl = lambda n: n if n in EDGE else n.bit_length() + 100
    ctx.shape(cl(case['ni']), cl(case['no']), sorted(map(cl, case['ss'])), sorted(map(cl, case['os'])),
              [sorted({cl(x) for x in w}) for w in case['w']], [cl(len(w)) for w in case['w']])
