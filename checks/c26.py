"""C26: requests leave the caller's data alone, so earlier requests do not change later ones."""
import random

from vlib import gen, ref, txlab, world
from vlib.core import Violation
from checks import c01
from checks.common import drain, offline_world

LEVEL = 'exploration'
QUOTA = {'quick': 1500, 'thorough': 30000}
RULE = ('seeded histories of 2-6 requests (create, prepare, sign, co-sign, send, refused ones) with varying options made with the same '
        'wallet and the same lists, unspents given, taken from the wallet or fetched from simulated services; every object passed is '
        'photographed field by field before and after each request, wallet attributes are compared with what was last read from the '
        'network, and every result with the same request made with fresh objects; distinct = (wallet, source, sequence of options)')
REQUIRED = ['requests', 'photographs', 'compared_with_fresh', 'refused_requests', 'rbf_then_plain', 'subset_then_all', 'net_requests',
            'own_list_requests', 'cosigned', 'sent', 'prepared', 'wallet_states', 'uncompressed', 'output_lists', 'multisig']
ASSUMPTIONS = ['coin selection depends on nothing but the request and the state of random (checked: a request that differs between two '
               'fresh runs is not compared)']
FIELDS = ('amount', 'confirmations', 'script', 'txid', 'txindex', 'type', 'vsize', 'segwit', 'sequence')


def setup(ctx):
    global W
    W = offline_world()
    W.saved = dict(W.faults)


def photo_u(us):
    return [tuple((f, type(getattr(u, f)).__name__, getattr(u, f)) for f in FIELDS) for u in us]


def photo_o(os_):
    return [(type(o).__name__, [(type(x).__name__, x) for x in o]) for o in os_]


def steps_of(rng, c, n):
    out = []
    for _ in range(n):
        op = rng.choice(['create', 'create', 'create', 'prepare', 'refused', 'cosign'])
        s = {'op': op, 'rbf': rng.random() < 0.4, 'combine': rng.random() < 0.5, 'leftover': rng.random() < 0.4,
             'msg': rng.random() < 0.3, 'fee': rng.choice([c['fee'], c['fee'], 1]), 'part': rng.random() < 0.15}
        if op == 'refused':
            s['why'] = rng.choice(['funds', 'network', 'garbage', 'currency', 'leftover', 'nosat'])
        out.append(s)
    out.append({'op': 'create', 'rbf': False, 'combine': True, 'leftover': False, 'msg': False, 'fee': c['fee'], 'part': False})
    return out


def directed(ctx):
    rng = random.Random(26)
    for src in ('given', 'net', 'own'):
        for net in ('main', 'test'):
            for spec in ('comp', 'uncomp', 'multi'):
                for kinds in ('l', 's', 'ls'):
                    if spec == 'uncomp' and kinds != 'l':
                        continue
                    c = c01.base(k=70, n=6, nout=2, kinds=kinds, net=net, amt=10 ** 6, comp=spec == 'comp' or spec == 'multi')
                    if spec == 'multi':
                        c['w'] = {'kind': 'multi', 'net': net, 'ks': ['0x5', '0x6', '0x7'], 'm': 2, 'comp': [True] * 3,
                                  'signers': [0, 2], 'as_set': False}
                    c['outs'][0][1] = c['outs'][0][3] = 900000
                    c['src'], c['oform'] = src, 'tuple'
                    z = dict(rbf=False, combine=True, leftover=False, msg=False, fee=3, part=False)
                    c['steps'] = [dict(z, op='create', rbf=True), dict(z, op='create'), dict(z, op='create', combine=False),
                                  dict(z, op='create'), dict(z, op='prepare', rbf=True, combine=False, msg=True), dict(z, op='create'),
                                  dict(z, op='cosign'), dict(z, op='refused', why='funds'), dict(z, op='create')]
                    c['steps'].append(dict(z, op='send', combine=False, rbf=True) if src != 'given' and spec != 'multi' else
                                      dict(z, op='create', combine=False, part=True))
                    yield c


def generate(rng, ctx):
    c = gen.tx_case(rng, ctx, msg=0.5, rbf=0, big=rng.random() < 0.04)
    c['src'] = rng.choice(['given', 'given', 'net', 'own'])
    if c['src'] != 'given':
        for u in c['ups']:
            u[5] = 0xFFFFFFFF
    del c['ups'][60:]
    c['oform'] = rng.choice(['tuple', 'tuple', 'list', 'named'])
    c['steps'] = steps_of(rng, c, rng.randint(1, 5))
    if c['src'] != 'given' and c['w']['kind'] == 'single' and rng.random() < 0.3:
        c['steps'].append({'op': 'send', 'rbf': rng.random() < 0.5, 'combine': rng.random() < 0.3, 'leftover': False, 'msg': False,
                           'fee': c['fee'], 'part': False})
    return c


def outputs(case):
    from bit.transaction import Output
    f = {'tuple': tuple, 'list': list, 'named': lambda o: Output(*o)}[case['oform']]
    return [f(o) for o in txlab.outputs(case)]


def state(w):
    return w.balance, photo_u(w.unspents), list(w.transactions)


def request(w, s, case, outs, ups):
    """Performs one step on the first signer; returns (result, exception)."""
    from bit.exceptions import InsufficientFunds
    first = w.first
    kw = {'fee': s['fee'], 'absolute_fee': case['abs'], 'combine': s['combine'], 'replace_by_fee': s['rbf']}
    if case['rs'] & 1:
        kw = {k: v for k, v in kw.items() if v != {'absolute_fee': False, 'combine': True, 'replace_by_fee': False}.get(k, '')}
    if s['leftover']:
        kw['leftover'] = case['alt']
    if s['msg'] and case['msg']:
        kw.update({k: v for k, v in txlab.kwargs(case).items() if k.startswith('message')})
    if ups is not None:
        kw['unspents'] = ups
    random.seed(case['rs'])
    op = s['op']
    if op == 'refused':
        bad = {'network': (gen.address(random.Random(1), 'test' if w.net == 'main' else 'main'), 1000, 'satoshi'),
               'garbage': (case['alt'][:-1] + ('1' if case['alt'][-1] != '1' else '2'), 1000, 'satoshi'),
               'funds': (case['alt'], 21 * 10 ** 14, 'satoshi'), 'currency': (case['alt'], 1, 'nothing'),
               'nosat': (case['alt'], 'abc', 'btc')}.get(s['why'])
        if bad:
            outs.append(bad)
        if s['why'] == 'leftover':
            kw['leftover'] = 'nowhere'
    try:
        if op == 'send':
            return first.send(outs, **kw), None
        if op == 'prepare':
            kw.setdefault('leftover', w.addr['l'])
            if w.spec['kind'] == 'single':
                kw['compressed'] = w.spec['comp']
            return type(first).prepare_transaction(w.addr['l'], outs, **kw), None
        h = first.create_transaction(outs, **kw)
        if op == 'cosign':
            for other in w.bits[1:]:
                h = other.sign_transaction(h, unspents=ups) if ups is not None else other.sign_transaction(h)
            if w.spec['kind'] == 'single':
                kw2 = {'unspents': ups} if ups is not None else {}
                h = first.sign_transaction(h, **kw2)
        return h, None
    except Exception as e:
        if op != 'refused' and not isinstance(e, InsufficientFunds):
            raise
        return None, type(e).__name__


def run(case, ctx):
    case = dict(case)
    src = case['src']
    w = txlab.Wallet(case['w'])
    case['alt'] = case['leftover'] or gen.address(random.Random(case['rs']), w.net)
    W.faults = {} if src != 'given' else dict(W.saved)
    led = W.led[w.net] = world.Ledger(w.net)
    for a, t, v, kind, conf, seq in case['ups']:
        led.fund(w.script[kind], a, t, v, conf)
    want_all = sorted((u[0], u[1], u[2], w.script[u[3]].hex(), 0xFFFFFFFF, w.types[u[3]][0]) for u in case['ups'])
    if not (w.spec['kind'] == 'single'):
        ctx.obs('multisig')
    elif not w.spec['comp']:
        ctx.obs('uncompressed')
    if src == 'own':
        for b in w.bits:
            b.get_unspents()
        mine = w.first.unspents
    elif src == 'given':
        mine = w.unspents(case['ups'])
    else:
        mine = None
    outs = outputs(case)
    ref_state = [state(b) for b in w.bits]
    if src != 'given':
        ctx.obs('net_requests' if src == 'net' else 'own_list_requests')
    if case['oform'] == 'list':
        ctx.obs('output_lists')
    prev = None
    for n, s in enumerate(case['steps']):
        ups = mine
        if s['op'] == 'prepare' and src == 'net' and (w.spec['kind'] != 'single' or any(u[3] == 's' for u in case['ups']) or
                                                      not w.spec['comp']):
            ups = w.unspents(case['ups'])
        if s['part'] and ups is not None and len(ups) > 1:
            ups = ups[:len(ups) // 2 + 1]
        given = list(outs)
        before_u, ids_u = (photo_u(ups), [id(u) for u in ups]) if ups is not None else (None, None)
        if s['op'] == 'send':
            # compared with the ledger instead of a second run
            got, exc = request(w, s, case, given, ups)
            fresh = None
        else:
            before_o = photo_o(outs)
            got, exc = request(w, s, case, given, ups)
        drain(W)
        what = 'request %d (%s, rbf=%s, combine=%s)' % (n, s['op'], s['rbf'], s['combine'])
        extra = 1 if s['op'] == 'refused' and s['why'] != 'leftover' else 0
        if len(given) != len(outs) + extra or any(a is not b for a, b in zip(given, outs)):
            raise Violation('%s changed the list of outputs it was given' % what, key='outputs-list')
        if s['op'] != 'send' and photo_o(outs) != before_o:
            raise Violation('%s changed the outputs it was given' % what, key='outputs')
        if ups is not None:
            if [id(u) for u in ups] != ids_u:
                raise Violation('%s changed the list of unspents it was given: %d before, %d after' % (what, len(ids_u), len(ups)),
                                key='unspents-list')
            after = photo_u(ups)
            if after != before_u:
                d = next((a, b) for x, y in zip(before_u, after) for a, b in zip(x, y) if a != b)
                raise Violation('%s changed an unspent it was given: %r became %r' % (what, d[0], d[1]), key='unspent')
            ctx.obs('photographs', len(after))
        # the wallets
        for b, st in zip(w.bits, ref_state):
            now = state(b)
            if now == st:
                continue
            if src == 'given' or ups is not None and src == 'own':
                raise Violation('%s changed what the wallet holds: balance %r to %r, %d to %d unspents, %d to %d transactions' % (
                    what, st[0], now[0], len(st[1]), len(now[1]), len(st[2]), len(now[2])), key='wallet')
            got_all = sorted((u.amount, u.txid, u.txindex, u.script, u.sequence, u.type) for u in b.unspents)
            if got_all != want_all or b.balance != sum(x[0] for x in want_all):
                raise Violation('after %s the wallet holds %s (balance %r), the network has %s' % (what, got_all[:4], b.balance,
                                                                                                want_all[:4]), key='wallet-net')
            if now[2] != st[2]:
                raise Violation('%s changed the transactions of the wallet' % what, key='wallet')
            ctx.obs('wallet_states')
        if src == 'given':
            ctx.obs('wallet_states')
        ctx.obs('requests')
        if s['op'] == 'refused':
            ctx.obs('refused_requests')
            if exc is None:
                ctx.obs('unexpectedly_accepted')
        # the same with fresh objects
        if s['op'] == 'send':
            if got is not None:
                ctx.obs('sent')
                t = ref.Tx.parse(led.accepted[-1])
                want = 0xFFFFFFFD if s['rbf'] else 0xFFFFFFFF
                if any(i.seq != want for i in t.ins):
                    raise Violation('%s sent sequences %s' % (what, [hex(i.seq) for i in t.ins]), key='sent-sequence')
                if s['combine'] and len(t.ins) != len(case['ups']):
                    raise Violation('%s spent %d of %d unspents' % (what, len(t.ins), len(case['ups'])), key='sent-inputs')
            break

        def again():
            w2 = txlab.Wallet(case['w'])
            u2 = None
            if src == 'own':
                u2 = w2.first.get_unspents()
            elif ups is not None:
                u2 = w2.unspents(case['ups'])
            if s['part'] and u2 is not None and len(u2) > 1:
                u2 = u2[:len(u2) // 2 + 1]
            r = request(w2, s, case, outputs(case), u2)
            drain(W)
            return r
        fresh = again()
        if fresh != (got, exc):
            if again() == fresh:
                raise Violation('%s gives %s after %s, and %s with fresh objects' % (
                    what, str(got)[:1500] if exc is None else exc, [(x['op'], x['rbf'], x['combine']) for x in case['steps'][:n]],
                    str(fresh[0])[:1500] if fresh[1] is None else fresh[1]), key='differs')
            ctx.obs('not_repeatable')
        else:
            ctx.obs('compared_with_fresh')
            if exc is None and s['op'] == 'cosign':
                ctx.obs('cosigned')
            if s['op'] == 'prepare' and exc is None:
                ctx.obs('prepared')
        if prev and prev['rbf'] and not s['rbf']:
            ctx.obs('rbf_then_plain')
        if prev and not prev['combine'] and s['combine']:
            ctx.obs('subset_then_all')
        if s['op'] != 'refused':
            prev = s
    ctx.shape(w.spec['kind'], w.net, src, case['oform'], [(s['op'], s['rbf'], s['combine'], s['leftover'], s['msg'], s['part'],
                                                           s.get('why')) for s in case['steps']])
