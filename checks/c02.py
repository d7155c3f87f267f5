"""C02: recipients get exactly the requested amounts; change goes to its owner."""
from vlib import gen, txlab, ref
from vlib.core import Violation
from checks.common import offline_world, drain
from checks import c01

LEVEL = 'exploration'
QUOTA = {'quick': 4000, 'thorough': 80000}
RULE = ('seeded random and boundary transaction requests over single-key and multisig wallets, all address kinds, units, leftovers, '
        'selection modes; the parsed transaction is compared with the request by the reference; distinct = distinct shape')
REQUIRED = ['outputs_matched', 'change_outputs', 'without_change', 'unpayable_amounts']
ASSUMPTIONS = ['amounts of zero or less may be refused']


def setup(ctx):
    global W
    W = offline_world()


def directed(ctx):
    for no in (1, 2, 251, 252, 253, 254, 256, 257):
        for kinds in ('l', 's'):
            yield c01.base(nout=no, kinds=kinds, k=1000 + no, amt=10 ** 8)
    for kinds in ('l', 's', 'ls', 'sl'):
        for net in ('main', 'test'):
            yield c01.base(kinds=kinds, n=2, net=net, k=31337)
            c = c01.base(kinds=kinds, n=3, net=net, k=31338)
            c['outs'] = [[c['outs'][0][0], 7, 'satoshi', 7]] * 3
            yield c
    for a in ctx.dic.within(1, 10 ** 13):
        c = c01.base(k=31339, amt=2 * 10 ** 13, kinds='s')
        c['outs'] = [[c['outs'][0][0], a, 'satoshi', a]]
        yield c


UNPAYABLE = [-1, '-1', -0.5, '-600', 'nan', 'inf', '-inf', 'abc', '', '1,5', None, 0, '0', '0.4', 0.9, '-0']


def generate(rng, ctx):
    if rng.random() < 0.03:
        c = gen.tx_case(rng, ctx, mode=rng.choice(['direct', 'cold']), big=False)
        if c['outs']:
            i = rng.randrange(len(c['outs']))
            v = rng.choice(UNPAYABLE + [-c['outs'][i][3]])
            c['outs'][i] = [c['outs'][i][0], v, rng.choice(['satoshi', 'satoshi', c['outs'][i][2]]), 0]
            c['unpayable'] = i
        return c
    return gen.tx_case(rng, ctx, mode=rng.choice(['direct', 'direct', 'direct', 'cold']),
                       units=('satoshi', 'satoshi', 'ubtc', 'mbtc', 'btc'))


def run(case, ctx):
    if 'unpayable' in case:
        # an amount that is not one: refused, unless it is zero and paid as such
        v = case['outs'][case['unpayable']][1]
        try:
            r = txlab.execute(case, W)
        except Violation:
            raise
        except Exception:
            r = None
        drain(W)
        ctx.obs('unpayable_amounts')
        ctx.shape('unpayable', str(v)[:5], len(case['outs']))
        if r is None or r.exc is not None:
            return
        if v not in (0, '0', '0.4', 0.9, '-0'):
            raise Violation('an output of %r was accepted: %s' % (v, r.hex), key='unpayable-amount')
        vals = [(o.script, o.value) for o in r.tx.outs]
        want = [(ref.script_for(o[0]), o[3]) for o in case['outs']]
        if vals[:len(want)] != want:
            raise Violation('a request with an output of %r gave the outputs %s' % (v, vals[:8]), key='outputs', hex=r.hex)
        return
    r = txlab.execute(case, W)
    drain(W)
    if r.exc is not None:
        ctx.obs('insufficient_funds')
        return
    txlab.mon_outputs(r, ctx)
    ctx.shape(txlab.shape_of(case))
