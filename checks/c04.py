"""C04: coin selection - enough funds means success, too little means refusal."""
import json
import random

from vlib import gen, ref, txlab, world
from vlib.core import Violation
from checks.common import offline_world, drain
from checks import c01

LEVEL = 'exploration'
QUOTA = {'quick': 5000, 'thorough': 100000}
RULE = ('seeded requests concentrated around the affordability boundary, combining or selecting subsets with many different '
        'random draws (the module-level PRNG is reseeded per execution); distinct = distinct shape')
REQUIRED = ['combined', 'subset_selected', 'proper_subsets', 'refusals', 'empty_offers_refused', 'negative_fees_refused']
ASSUMPTIONS = ['refusal near the boundary (within the documented size estimate) is accepted either way for fee rates; '
               'for absolute fees the boundary is exact']


def setup(ctx):
    global W
    W = offline_world()
    W.saved = dict(W.faults)


def directed(ctx):
    # exact boundary with absolute fees
    for total in (10000, 2 ** 32, 10 ** 10):
        for fee in (1, 100, 9999):
            for d in (-1, 0, 1):
                for combine in (True, False):
                    for kinds in ('l', 's'):
                        c = c01.base(k=total % 999 + fee, amt=total, kinds=kinds, fee=fee)
                        c['abs'], c['combine'] = True, combine
                        a = total - fee - d
                        if a <= 0:
                            continue
                        c['outs'][0][1] = c['outs'][0][3] = a
                        yield c
    # nothing offered, although the wallet owns coins
    rng = random.Random('c04 %s' % ctx.seed)
    for i in range(24):
        c = gen.tx_case(rng, ctx, net=('main', 'test')[i % 2], kind=('single', 'multi')[i // 2 % 2], big=False, msg=0)
        if c['outs']:
            yield dict(c, t='none', how=('create', 'send', 'prepare')[i // 4 % 3])
    # fees below zero
    for i in range(60):
        c = gen.tx_case(rng, ctx, net=('main', 'test')[i % 2], kind=('single', 'multi')[i // 2 % 2], big=False, msg=0.1)
        c['abs'] = bool(i % 3)
        c['fee'] = -rng.choice([1, 1, 2, 50, 100000])
        yield dict(c, t='negative', how=('create', 'send', 'prepare')[i // 4 % 3])
    # wallets with more unspents than any literal of the code
    counts = {300, 700, 1100} | {n + 1 for n in ctx.consts['ints'] if 252 <= n <= 4000}
    for n in sorted(counts)[-10:]:
        for combine in (True, False):
            c = c01.base(k=n, n=n, kinds='s', amt=10 ** 5 + n % 7, fee=1)
            c['combine'] = combine
            c['outs'][0][1] = c['outs'][0][3] = n * 95000
            yield c


def generate(rng, ctx):
    c = gen.tx_case(rng, ctx, mode='direct', edge=0.45, msg=0.1, combine=rng.random() < 0.4,
                    absolute=rng.random() < 0.4)
    y = rng.random()
    if y < 0.1 and c['outs'] and not c['combine'] and not c['abs']:
        # an amount that would match exactly if one of the coins could be spent twice
        w = c['w']
        sub = rng.sample(c['ups'], rng.randint(1, min(len(c['ups']), 4)))
        sub.append(rng.choice(sub))
        size = sum(gen.in_size(w, u[3]) for u in sub) + 10 + sum(len(ref.script_for(o[0])) + 9 for o in c['outs'])
        goal = int(sum(u[0] for u in sub) - c['fee'] * size - rng.choice([2, 20, 90]) * c['fee'])
        others = sum(o[3] for o in c['outs'][1:])
        if goal - others > 0:
            c['outs'][0][1] = c['outs'][0][3] = goal - others
            c['outs'][0][2] = 'satoshi'
            c['msg'] = None
    elif y < 0.35 and c['outs']:
        # just around what is affordable
        total = sum(u[0] for u in c['ups'])
        w = txlab.Wallet(c['w'])
        lo, hi = txlab.min_max_need(c, w)
        t = sum(o[3] for o in c['outs'])
        need = rng.choice([lo, hi]) - t
        goal = int(total - need + rng.choice([-1000, -10, -1, 0, 1, 2, 10, 1000]))
        others = t - c['outs'][0][3]
        if goal - others > 0:
            c['outs'][0][1] = c['outs'][0][3] = goal - others
            c['outs'][0][2] = 'satoshi'
    return c


def run_none(case, ctx):
    w = txlab.Wallet(case['w'])
    led = W.led[w.net] = world.Ledger(w.net)
    for a, t, v, kind, conf, _ in case['ups']:
        led.fund(w.script[kind], a, t, v, conf)
    W.faults = {}
    W.log.clear()
    kw = txlab.kwargs(dict(case, leftover=case['leftover'] or w.addr['l']))
    try:
        if case['rs'] & 1:
            w.first.get_unspents()
        if case['how'] == 'prepare':
            got = type(w.first).prepare_transaction(w.addr['l'], txlab.outputs(case), unspents=[], **kw)
        elif case['how'] == 'send':
            got = w.first.send(txlab.outputs(case), unspents=[], **kw)
        else:
            got = w.first.create_transaction(txlab.outputs(case), unspents=[], **kw)
    except Exception:
        ctx.obs('empty_offers_refused')
        ctx.shape('none', case['how'], w.net, case['w']['kind'])
        return
    finally:
        W.faults = dict(W.saved)
        W.log.clear()
        drain(W)
    raise Violation('asked to spend none of the unspents (unspents=[]), %s spends the wallet\'s: %s' % (
        case['how'], got[:300]), key='foreign-input')


def run_negative(case, ctx):
    w = txlab.Wallet(case['w'])
    kw = txlab.kwargs(dict(case, leftover=case['leftover'] or w.addr['l']))
    ups = w.unspents(case['ups'])
    how = case['how'] if case['w']['kind'] == 'single' or case['how'] == 'prepare' else 'create'
    paid = got = None
    W.log.clear()
    try:
        if how == 'prepare':
            d = json.loads(type(w.first).prepare_transaction(w.addr['l'], txlab.outputs(case), unspents=ups, **kw))
            paid = sum(u['amount'] for u in d['unspents']), sum(o[1] for o in d['outputs'])
        elif how == 'send':
            w.first.send(txlab.outputs(case), unspents=ups, **kw)
        else:
            got = w.first.create_transaction(txlab.outputs(case), unspents=ups, **kw)
    except Exception:
        pass
    if got:
        t = ref.Tx.parse(got)
        spent = {(i.txid, i.vout) for i in t.ins}
        paid = sum(u.amount for u in ups if (u.txid, u.txindex) in spent), sum(o.value for o in t.outs)
    if how == 'send' and any(x['op'] == 'broadcast' for x in W.log):
        raise Violation('asked for a fee of %s, a transaction is broadcast' % case['fee'], key='negative')
    W.log.clear()
    drain(W)
    if paid and paid[0] < paid[1]:
        raise Violation('asked for a fee of %s, the transaction spends %d with inputs of %d' % (case['fee'], paid[1], paid[0]), key='negative')
    ctx.obs('negative_fees_refused')
    ctx.shape('negative', how, w.net, case['w']['kind'], case['abs'])


def run(case, ctx):
    if case.get('t') == 'negative':
        return run_negative(case, ctx)
    if case.get('t') == 'none':
        return run_none(case, ctx)
    r = txlab.execute(case, W)
    drain(W)
    txlab.mon_selection(r, ctx)
    ctx.shape(txlab.shape_of(case), r.exc is not None)
