"""C01: every signed single-key transaction is valid on the network."""
from vlib import gen, txlab, ref
from vlib.core import Violation
from checks.common import offline_world, drain

LEVEL = 'exploration'
QUOTA = {'quick': 3200, 'thorough': 60000}
RULE = ('seeded random and boundary transaction requests (key kinds, input mixes, counts incl. 252-257, output indexes, '
        'amounts, sequences, address kinds, literals of the current code) executed by the real library; distinct = distinct '
        'shape of wallet, input mix, counts, magnitudes, options; non-trivial = a transaction was produced and every input verified')
REQUIRED = ['transactions_verified', 'inputs_verified']
ASSUMPTIONS = ['OpenSSL ECDSA (cross-checked against pure Python)', 'unspent data given to the library is truthful']


def setup(ctx):
    global W
    W = offline_world()


def base(k=12345, comp=True, net='main', kinds='l', n=1, nout=1, fee=1, vout=0, amt=10 ** 6, addrs=None):
    rng = __import__('random').Random('%s%s%s%s%s' % (k, n, nout, vout, kinds))
    ups = [[amt, gen.txid(rng), vout, kinds[i % len(kinds)], 6, 0xFFFFFFFF] for i in range(n)]
    outs = [[gen.address(rng, net), 600 + i, 'satoshi', 600 + i] for i in range(nout)]
    return {'w': {'kind': 'single', 'net': net, 'k': hex(k), 'comp': comp}, 'ups': ups, 'outs': outs, 'fee': fee,
            'abs': False, 'leftover': None, 'combine': True, 'msg': None, 'rbf': False, 'mode': 'direct', 'rs': 1}


def directed(ctx):
    counts = [1, 2, 3, 252, 253, 254, 255, 256]
    for kinds in ('l', 's', 'ls', 'sl', 'lls'):
        for n in counts if ctx.thorough or kinds in ('ls', 's') else [1, 2, 3, 253]:
            yield base(n=n, kinds=kinds, k=777 + n)
    for no in (1, 2, 251, 252, 253, 254, 255, 256, 257):
        for kinds in 'ls':
            yield base(nout=no, kinds=kinds, k=99 + no, amt=10 ** 8)
    for k in gen.SPECIAL_KEYS:
        for net in ('main', 'test'):
            yield base(k=k, net=net, kinds='l')
            yield base(k=k, net=net, kinds='sl', n=2)
            yield base(k=k, net=net, kinds='l', comp=False, n=2)
    for v in (0, 1, 127, 128, 252, 253, 255, 256, 65535, 65536, 2 ** 24, 2 ** 31, 2 ** 32 - 1):
        yield base(vout=v, kinds='s', k=4242)
        yield base(vout=v, kinds='l', k=4243)
    for a in (10 ** 5, 2 ** 16, 2 ** 24, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 40, 21 * 10 ** 14):
        yield base(amt=a, kinds='s', k=5)
        yield base(amt=a, kinds='l', k=6)


def generate(rng, ctx):
    return gen.tx_case(rng, ctx, kind='single', mode=rng.choice(['direct', 'direct', 'cold']), msg=0.1)


def run(case, ctx):
    r = txlab.execute(case, W)
    drain(W)
    if r.exc is not None:
        ctx.obs('insufficient_funds')
        return
    txlab.mon_valid(r, ctx)
    ctx.shape(txlab.shape_of(case))
