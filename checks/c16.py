"""C16: cold-storage signing equals online signing and needs no network."""
import json
import random

from vlib import gen, ref, txlab, world
from vlib.core import Violation
from checks import c01, c14
from checks.common import drain, offline_world

LEVEL = 'exploration'
QUOTA = {'quick': 2200, 'thorough': 40000}
RULE = ('seeded requests of all wallet kinds prepared as text, carried over as text, signed with every service down and logged, and '
        'compared with the transaction created directly from the same request (byte for byte when all unspents are combined) and '
        'with the request (outputs, change, messages, sequences, fee, validity); Unspent dictionaries are round-tripped, also '
        'through JSON; distinct = shape of the request')
REQUIRED = ['cold_signatures', 'compared_with_direct', 'subset_cold', 'messages_cold', 'dict_round_trips', 'prepared_over_network', 'segwit_over_network',
            'uncompressed_over_network', 'default_change', 'multisig_cold', 'single_draws_compared']
ASSUMPTIONS = ['preparing without unspents is decided for the P2PKH and segwit addresses of single keys: that a P2SH address is a multisig script cannot be told from the address']
FIELDS = ('amount', 'confirmations', 'script', 'txid', 'txindex', 'type', 'vsize', 'segwit', 'sequence')


def setup(ctx):
    global W
    W = offline_world()
    W.saved = dict(W.faults)


def directed(ctx):
    for k in (7, 8):
        for kinds in ('l', 's', 'ls'):
            for net in ('main', 'test'):
                for extra in ({}, {'rbf': True}, {'msg': {'text': 'hi'}}, {'msg': {'bytes': b'\x01'}}, {'msg': {'bytes': b'\x00' * 81}},
                              {'combine': False}, {'abs': True, 'fee': 777}, {'leftover': 'A'}, {'keepleft': True}):
                    c = c01.base(k=k, n=3, nout=2, kinds=kinds, net=net, amt=10 ** 5)
                    c.update(extra, kind='offline')
                    if c['leftover']:
                        c['leftover'] = gen.address(random.Random(k), net)
                    yield c
    for n in (1, 2, 3):
        for net in ('main', 'test'):
            for comp in (True, False):
                c = c01.base(k=n, n=n, net=net, amt=10 ** 6, comp=comp)
                c['kind'] = 'online'
                yield c
                if comp:
                    c = c01.base(k=n + 90, n=n, net=net, amt=10 ** 6, kinds='s')
                    c['kind'] = 'online'
                    yield c
    for d in c14.directed(ctx):
        d['kind'] = 'offline'
        yield d


def generate(rng, ctx):
    c = gen.tx_case(rng, ctx, msg=0.35, rbf=0.3, big=rng.random() < 0.1)
    c['kind'] = 'offline'
    c['keepleft'] = rng.random() < 0.3
    if rng.random() < 0.12:
        # any one of the unspents suffices
        c['combine'] = False
        while len(c['ups']) < 3:
            c['ups'].append([0, gen.txid(rng), rng.randint(0, 3), c['ups'][0][3], 1, 0xFFFFFFFF])
        del c['ups'][40:]
        for u in c['ups']:
            u[0] = max_need(c) + rng.randint(0, 10 ** 6)
    if c['w']['kind'] == 'single' and len({u[3] for u in c['ups']}) == 1 and rng.random() < 0.4:
        c['kind'] = 'online'
        c['keepleft'] = False
        for u in c['ups']:
            u[5] = 0xFFFFFFFF
    return c


def max_need(c):
    """More than any of the unspents could leave unmatched or insufficient."""
    size = 2000 + sum(len(ref.script_for(o[0])) + 20 for o in c['outs']) + 2 * len(txlab.msg_bytes(c)) + 20
    return sum(o[3] for o in c['outs']) + (c['fee'] if c['abs'] else c['fee'] * size)


def dicts(w, case, ctx):
    from bit.network.meta import Unspent
    for u in w.unspents(case['ups']):
        d = u.to_dict()
        for e in (Unspent.from_dict(d), Unspent.from_dict(json.loads(json.dumps(d)))):
            for f in FIELDS:
                if getattr(e, f) != getattr(u, f) or type(getattr(e, f)) is not type(getattr(u, f)):
                    raise Violation('%s of an unspent becomes %r after a round trip through a dictionary, was %r' % (
                        f, getattr(e, f), getattr(u, f)), key='dict')
            if e != u:
                raise Violation('an unspent differs from its round trip', key='dict-eq')
        ctx.obs('dict_round_trips')


def run(case, ctx):
    from bit.exceptions import InsufficientFunds
    case = dict(case, mode='cold')
    w = txlab.Wallet(case['w'])
    dicts(w, case, ctx)
    cls = type(w.first)
    kw = txlab.kwargs(case)
    online = case['kind'] == 'online'
    source = w.addr[case['ups'][0][3] if online else 'l']
    if online:
        # the unspents come from the network at preparation time
        led = W.led[w.net] = world.Ledger(w.net)
        W.faults = {}
        for a, t, v, kind, conf, seq in case['ups']:
            led.fund(w.script[kind], a, t, v, conf)
            case = dict(case)
        order = None
    else:
        kw['unspents'] = w.unspents(case['ups'])
    if case.get('keepleft') or (online and 'leftover' not in kw):
        # default: change returns to the address sent from
        kw.pop('leftover', None)
        case['leftover'] = source
        ctx.obs('default_change')
    elif 'leftover' not in kw:
        kw['leftover'] = case['leftover'] = w.default_change(case['ups'])
    if case['w']['kind'] == 'single' and not (case['w']['comp'] and case['rs'] & 32):
        kw['compressed'] = case['w']['comp']
    random.seed(case['rs'] + 1)  # another draw than the direct one below
    exc = None
    try:
        text = cls.prepare_transaction(source, txlab.outputs(case), **kw)
    except InsufficientFunds as e:
        exc = e
    drain(W)
    W.faults = dict(W.saved)
    W.log.clear()
    # the same request online
    direct = dict(case, mode='direct')
    rd = None
    if not online or len(case['ups']) == 1:
        try:
            rd = txlab.execute(direct)
        except InsufficientFunds:
            pass
    W.log.clear()
    if exc is not None:
        if rd is not None and rd.exc is None and case['combine']:
            raise Violation('preparing fails (%s), creating directly does not' % exc, key='prepare-refused')
        ctx.obs('insufficient_funds')
        return
    if rd is not None and rd.exc is not None and case['combine']:
        raise Violation('preparing succeeds, creating directly fails: %s' % rd.exc, key='direct-refused')
    if not isinstance(text, str):
        raise Violation('the prepared transaction is not text: %r' % type(text), key='text')
    text = text.encode().decode()
    from bit.exceptions import InsufficientFunds  # noqa
    r = txlab.Rec()
    r.case, r.wallet, r.prev, r.prepared = case, w, w.prevouts(case['ups']), text
    # a fresh wallet object on the machine without network
    w2 = txlab.Wallet(case['w'])
    h = w2.first.sign_transaction(text)
    if W.log:
        raise Violation('signing contacted %s' % [(e['service'], e['op']) for e in W.log][:5], key='network')
    r.steps.append(h)
    again = w2.first.sign_transaction(text)
    if again != h:
        raise Violation('signing twice gives different transactions', key='unstable')
    for other in w2.bits[1:]:
        h = other.sign_transaction(h, unspents=w2.unspents(case['ups']))
        r.steps.append(h)
    if W.log:
        raise Violation('co-signing contacted %s' % [(e['service'], e['op']) for e in W.log][:5], key='network')
    r.hex = h
    try:
        r.tx = ref.Tx.parse(h)
        r.fee = sum(r.prev[(i.txid, i.vout)][0] for i in r.tx.ins) - sum(o.value for o in r.tx.outs)
    except ref.RefError as e:
        raise Violation('malformed: %s' % e, key='malformed', hex=h)
    except KeyError as e:
        raise Violation('spends %s, which was not offered' % e, key='foreign-input', hex=h)
    r.vsize = r.tx.vsize()
    txlab.mon_valid(r, ctx)
    change = txlab.mon_outputs(r, ctx)
    txlab.mon_messages(r, ctx)
    txlab.mon_sequences(r, ctx)
    txlab.mon_fee(r, ctx, change)
    if case['combine'] and {(i.txid, i.vout) for i in r.tx.ins} != set(r.prev):
        raise Violation('not all unspents are spent', key='combine', hex=h)
    ctx.obs('cold_signatures')
    if w.spec['kind'] == 'multi':
        ctx.obs('multisig_cold')
    if case['msg']:
        ctx.obs('messages_cold')
    if online:
        ctx.obs('prepared_over_network')
        if source != w.addr['l']:
            ctx.obs('segwit_over_network')
        if not w.spec['comp']:
            ctx.obs('uncompressed_over_network')
    if not case['combine']:
        ctx.obs('subset_cold')
    if rd is not None and rd.hex is not None and not case['combine'] and len(rd.tx.ins) == 1 and \
            all(u[0] >= max_need(case) for u in case['ups']):
        if len(r.tx.ins) != 1:
            raise Violation('creating directly spends one unspent, which suffices; the prepared one spends %d' % len(r.tx.ins),
                            key='selection-differs', hex=h)
        ctx.obs('single_draws_compared')
    if rd is not None and rd.hex is not None and case['combine']:
        if rd.hex != h:
            raise Violation('cold: %s\ndirect: %s' % (h, rd.hex), key='differs')
        ctx.obs('compared_with_direct')
    ctx.shape(txlab.shape_of(case), case['kind'], bool(case.get('keepleft')))
