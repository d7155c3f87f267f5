"""C14: messages are stored verbatim in data outputs."""
from vlib import gen, txlab
from checks.common import offline_world, drain
from checks import c01

LEVEL = 'exploration'
QUOTA = {'quick': 3000, 'thorough': 60000}
RULE = ('text and byte messages of every length 1..330 plus random ones (multi-byte text, zero bytes, opcode bytes) on random '
        'requests; data outputs parsed by the reference script parser; distinct = distinct (length, kind, shape)')
REQUIRED = ['data_outputs_parsed', 'without_message']
ASSUMPTIONS = ['a binary message is passed as bytes']


def setup(ctx):
    global W
    W = offline_world()


def directed(ctx):
    for ln in range(1, 331):
        c = c01.base(k=50 + ln, amt=10 ** 7)
        c['msg'] = {'bytes': bytes((7 * ln + i) % 256 for i in range(ln))}
        yield c
        c = dict(c, msg={'text': 'ab€'[ln % 3] * max(1, ln // (3 if ln % 3 == 2 else 1))})
        yield c
    for ln in (800, 1000, 4000, 8000, 20400):
        c = c01.base(k=51 + ln, amt=10 ** 8)
        c['msg'] = {'bytes': bytes(i % 251 for i in range(ln))}
        yield c


def generate(rng, ctx):
    return gen.tx_case(rng, ctx, mode=rng.choice(['direct', 'direct', 'cold']), msg=0.9, big=False)


def run(case, ctx):
    r = txlab.execute(case, W)
    drain(W)
    if r.exc is not None:
        ctx.obs('insufficient_funds')
        return
    txlab.mon_messages(r, ctx)
    if not case['msg']:
        ctx.obs('without_message')
    ctx.shape(txlab.shape_of(case))
