"""C15: replace-by-fee signalling is exactly what was asked."""
from vlib import gen, txlab
from checks.common import offline_world, drain
from checks import c01

LEVEL = 'exploration'
QUOTA = {'quick': 3000, 'thorough': 60000}
RULE = ('requests with and without replace-by-fee over all wallet kinds, direct and prepared, with boundary sequence numbers; '
        'the sequence of every input of the signed transaction is compared with the rule; distinct = distinct (sequences, shape)')
REQUIRED = ['sequences_checked', 'rbf_requested', 'rbf_not_requested']


def setup(ctx):
    global W
    W = offline_world()


def directed(ctx):
    for rbf in (True, False):
        for s in ctx.dic.within(0, 2 ** 32 - 1):
            for kinds in ('l', 's'):
                c = c01.base(k=60, n=2, kinds=kinds)
                c['ups'][s % 2][5] = s
                c['rbf'] = rbf
                yield c
    for rbf in (True, False):
        for n in (40, 253, 260, 400):
            for mode in ('direct', 'cold'):
                c = c01.base(k=61, n=n, kinds='ls' if n < 100 else 's')
                c['rbf'], c['mode'] = rbf, mode
                yield c


def generate(rng, ctx):
    c = gen.tx_case(rng, ctx, mode=rng.choice(['direct', 'cold']), rbf=0.6, big=False)
    for u in c['ups']:
        if rng.random() < 0.4:
            u[5] = rng.choice([0, 1, 2, 0xFFFFFFFC, 0xFFFFFFFD, 0xFFFFFFFE, 0xFFFFFFFF, ctx.dic.pick(rng, 0, 2 ** 32 - 1)])
    return c


def run(case, ctx):
    r = txlab.execute(case, W)
    drain(W)
    if r.exc is not None:
        ctx.obs('insufficient_funds')
        return
    txlab.mon_sequences(r, ctx)
    ctx.obs('rbf_requested' if case['rbf'] else 'rbf_not_requested')
    ctx.shape(txlab.shape_of(case), sorted(set(u[5] for u in case['ups']))[:6])
