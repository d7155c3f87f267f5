"""C03: the fee paid is the fee asked for."""
import copy
from vlib import gen, txlab, world
from vlib.core import Violation
from checks.common import offline_world, drain
from checks import c01

LEVEL = 'exploration'
QUOTA = {'quick': 4000, 'thorough': 80000}
RULE = ('seeded random and boundary transaction requests with fee rates, absolute fees or the default fee, over all wallet kinds, '
        'selection modes and messages; fee = inputs minus outputs of the signed transaction judged against its real vsize; distinct = distinct shape')
REQUIRED = ['fee_rates_checked', 'sizes_estimated_from_network', 'absolute_fees_exact', 'default_fee_used', 'default_fee_prepared', 'zero_fees']
ASSUMPTIONS = ['unspents carry their true type (as the library itself fetches them)']


def setup(ctx):
    global W
    W = offline_world()
    W.saved = dict(W.faults)
    W.fee_fault = None
    from bit.network.fees import set_fee_cache_time
    set_fee_cache_time(-1)  # the served fee changes with every request here


def directed(ctx):
    for no in (1, 2, 250, 251, 252, 253, 254, 255, 256, 257):
        for kinds in ('l', 's'):
            yield c01.base(nout=no, kinds=kinds, k=1000 + no, amt=10 ** 8, fee=3)
    for n in (1, 2, 3, 4, 5, 8, 252, 253, 255, 256, 257):
        for kinds in ('l', 's', 'ls', 'llls'):
            if n < 200 or kinds in ('l', 'llls') or ctx.thorough:
                yield c01.base(n=n, kinds=kinds, k=2000 + n, fee=2)
    for n in (1, 2, 5):
        yield c01.base(n=n, comp=False, k=3000 + n, fee=7)
    for ln in (1, 40, 74, 75, 76, 77, 79, 80, 81, 155, 156, 160, 161, 240, 400):
        for kinds in 'ls':
            c = c01.base(k=4000 + ln, fee=11, kinds=kinds)
            c['msg'] = {'bytes': b'm' * ln}
            yield c
            c = copy.deepcopy(c)
            c['combine'] = False
            c['outs'][0][1] = c['outs'][0][3] = 10 ** 6 - 11 * (148 + 60 + ln + 14)
            yield c


    for kind in ('l', 's', 'ls'):
        for absolute in (True, False):
            for mode in ('direct', 'cold'):
                c = c01.base(k=5000, n=2, fee=0, kinds=kind)
                c['abs'], c['mode'] = absolute, mode
                yield c


def generate(rng, ctx):
    if rng.random() < 0.1:
        c = gen.tx_case(rng, ctx, absolute=False, mode=rng.choice(['direct', 'cold']))
        c['default_fee'] = rng.choice([[40, 20], [20, 20], [7, 90], [1, 2], [99, 3]])
        total = sum(u[0] for u in c['ups'])
        if total < 100 * 40000:
            for u in c['ups']:
                u[0] += 4 * 10 ** 6
        return c
    c = gen.tx_case(rng, ctx, mode=rng.choice(['direct', 'direct', 'direct', 'cold', 'net']), edge=0.4, msg=0.3)
    if c['mode'] == 'net':
        c['rbf'] = False
        for u in c['ups']:
            u[5] = 0xFFFFFFFF
    return c


def run(case, ctx):
    rate = None
    if case.get('default_fee'):
        rate, hour = case['default_fee']
        W.fee = {'fastestFee': rate, 'halfHourFee': hour, 'hourFee': hour, 'minimumFee': 1}
        case = dict(case, fee=None)
    if case['mode'] == 'net':
        # the library fetches the unspents and estimates their sizes itself
        W.faults = {}
        wal = txlab.Wallet(case['w'])
        led = W.led[wal.net] = world.Ledger(wal.net)
        for a, t, v, kind, conf, _ in case['ups']:
            led.fund(wal.script[kind], a, t, v, conf)
    try:
        r = txlab.execute(case, W)
    finally:
        W.faults = dict(W.saved)
        W.log.clear()
    drain(W)
    if case['mode'] == 'net':
        ctx.obs('sizes_estimated_from_network')
    if r.exc is not None:
        ctx.obs('insufficient_funds')
        return
    if rate is not None:
        ctx.obs('default_fee_used')
        if case['mode'] == 'cold':
            ctx.obs('default_fee_prepared')
        case['fee'] = rate
    change = len([o for o in r.tx.outs if o.script[:1] != b'\x6a']) > len(case['outs'])
    txlab.mon_fee(r, ctx, change, rate)
    if case['fee'] == 0:
        ctx.obs('zero_fees')
    ctx.obs('with_change' if change else 'no_change')
    ctx.shape(txlab.shape_of(dict(case, fee=case['fee'] or 0)))
