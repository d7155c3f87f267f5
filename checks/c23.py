"""C23: signing a shared transaction touches only one's own inputs."""
import random

from vlib import gen, ref, txlab, world
from vlib.core import Violation
from checks.common import drain

LEVEL = 'exploration'
QUOTA = {'quick': 2400, 'thorough': 50000}
RULE = ('seeded signing histories of transactions that spend outputs of 1-5 owners (single keys with and without compression, multisig '
        'contracts) in mixed legacy and segwit inputs, created by one owner or as a raw unsigned transaction with any version, lock '
        'time and sequences, signed in any order, with bystanders, repeated signers and partial or fetched lists of unspents; the transaction is parsed '
        'strictly around every step and compared field by field; distinct = (owner kinds, input mix, signing order, start, lists)')
REQUIRED = ['empty_offers', 'unknown_amounts_refused', 'steps_checked', 'foreign_inputs_unchanged', 'own_inputs_valid', 'complete_valid', 'bystander_steps', 'partial_lists',
            'raw_start', 'created_start', 'resignings', 'fetched_lists', 'amended_valid']
ASSUMPTIONS = ['unspents are described with their true type, amount and script',
               'before any segwit input is signed, an encoding with an empty witness section is tolerated']


def setup(ctx):
    global W
    W = world.World()
    W.install()


def owner(rng, ctx, net, used):
    while True:
        w = gen.wallet(rng, ctx, net, rng.choice(['single', 'single', 'single', 'multi']), maxn=4)
        ks = tuple(w.get('ks') or [w['k']])
        if not used & set(ks):
            used |= set(ks)
            return w


def case_of(rng, ctx, nown, **kw):
    net = kw.pop('net', None) or rng.choice(['main', 'test'])
    used = set()
    owners = [owner(rng, ctx, net, used) for _ in range(nown)]
    by = owner(rng, ctx, net, used)
    nin = max(nown, rng.choice([1, 2, 3, 4, 6, 10, rng.randint(1, 14)]))
    ins, shared = [], gen.txid(rng)
    seen = set()
    for i in range(nin):
        o = i if i < nown else rng.randrange(nown)
        w = owners[o]
        seg = all(w['comp']) if w['kind'] == 'multi' else w['comp']
        t = shared if rng.random() < 0.35 else gen.txid(rng)
        v = rng.randint(0, 5) if rng.random() < 0.5 else ctx.dic.pick(rng, 0, 2 ** 32 - 1)
        while (t, v) in seen:
            v = rng.randint(0, 2 ** 24)
        seen.add((t, v))
        ins.append([o, rng.choice('ls' if seg else 'l'), rng.randint(10 ** 5, 10 ** rng.randint(6, 13)), t, v,
                    0xFFFFFFFF if rng.random() < 0.6 else ctx.dic.pick(rng, 0, 2 ** 32 - 1)])
    rng.shuffle(ins)
    steps = []
    for o, w in enumerate(owners):
        if w['kind'] == 'multi':
            steps += [[o, j] for j in range(w['m'])]
        else:
            steps.append([o, 0])
    rng.shuffle(steps)
    if rng.random() < 0.4:
        steps.insert(rng.randint(0, len(steps)), [-1, 0])
    if rng.random() < 0.3:
        j = rng.randint(1, len(steps))
        prev = [s for s in steps[:j] if s[0] >= 0]
        if prev:
            steps.insert(j, rng.choice(prev))
    return {'net': net, 'owners': owners, 'by': by, 'ins': ins, 'steps': steps, 'start': rng.choice(['create', 'raw']),
            'lists': [rng.choice(['all', 'own', 'shuffled', 'half', 'net']) for _ in steps], 'ver': rng.choice([1, 2, 2, 0xFFFFFFFF]),
            'lock': rng.choice([0, 0, 1, 699999, 0xFFFFFFFF, rng.getrandbits(32)]),
            'outs': [[gen.address(rng, net), rng.randint(600, 9999)] for _ in range(rng.randint(1, 4))],
            'redo': rng.choice([None, None, 'outs', 'seq', 'lock']), 'upper': rng.random() < 0.15, 'rs': rng.getrandbits(32), **kw}


def directed(ctx):
    rng = random.Random('c23 %s' % ctx.seed)
    for n in (1, 2, 3, 4, 5):
        for start in ('create', 'raw'):
            for net in ('main', 'test'):
                for _ in range(4):
                    yield case_of(rng, ctx, n, start=start, net=net)


def generate(rng, ctx):
    return case_of(rng, ctx, rng.choice([1, 2, 2, 3, 3, 4, 5]))


def frame(t):
    return (t.version, t.lock, [(i.txid, i.vout, i.seq) for i in t.ins], [(o.value, o.script) for o in t.outs])


def parse(h, what):
    try:
        return ref.Tx.parse(h, superfluous=True)
    except ref.RefError as e:
        raise Violation('%s the transaction is malformed: %s' % (what, e), key='malformed', hex=h)


def run(case, ctx):
    rng = random.Random(case['rs'])
    ws = [txlab.Wallet(w) for w in case['owners']]
    bystander = txlab.Wallet(case['by'])
    _, Unspent = txlab.bits()
    ins = case['ins']
    prev = {(i[3], i[4]): (i[2], ws[i[0]].script[i[1]]) for i in ins}
    own = {(i[3], i[4]): i[0] for i in ins}

    def unspents(which):
        out = []
        for o, kind, a, t, v, seq in which:
            ty, vs = ws[o].types[kind]
            out.append(Unspent(a, 3, ws[o].script[kind].hex(), t, v, ty, vs or None, sequence=seq))
        return out

    led = W.led[case['net']] = world.Ledger(case['net'])
    for key, (a, sc) in prev.items():
        led.fund(sc, a, key[0], key[1], 5)
    W.log.clear()
    pending = {}  # (txid, vout) -> cosigners still missing
    for i in ins:
        w = ws[i[0]]
        pending[(i[3], i[4])] = set(range(w.m))
    h = None
    if case['start'] == 'raw':
        t = ref.Tx(case['ver'], [ref.In(i[3], i[4], b'', i[5]) for i in ins],
                   [ref.Out(v, ref.script_for(a)) for a, v in case['outs']], case['lock'])
        h = t.ser().hex()
        ctx.obs('raw_start')
    done = set()
    for n, (o, j) in enumerate(case['steps']):
        w = bystander if o < 0 else ws[o]
        signer = w.bits[j] if o >= 0 else w.first
        mine = [i for i in ins if i[0] == o]
        how = case['lists'][n]
        if h is None:
            if o < 0:
                continue
            h = signer.create_transaction([(a, v, 'satoshi') for a, v in case['outs']], fee=777, absolute_fee=True,
                                          leftover=case['outs'][0][0], unspents=unspents(ins))
            before = None
            covered = mine
            ctx.obs('created_start')
        else:
            complete = o >= 0 and w.spec['kind'] == 'multi' and any(not pending[(i[3], i[4])] for i in mine)
            if complete:
                continue  # refused by design, see C05
            before = parse(h, 'before step %d' % n)
            given = list(ins)
            covered = mine
            if how == 'own':
                given = mine or list(ins)
            elif how == 'shuffled':
                rng.shuffle(given)
            elif how == 'half' and len(mine) > 1 and w.spec['kind'] == 'single':
                covered = rng.sample(mine, len(mine) // 2)
                given = [i for i in ins if i[0] != o] + covered if rng.random() < 0.5 else covered
                ctx.obs('partial_lists')
            if (o, j) in done:
                ctx.obs('resignings')
            kw = {'unspents': unspents(given)}
            if how == 'net' and mine:
                kw = {}
                ctx.obs('fetched_lists')
            if rng.random() < 0.15 and any(u.segwit for u in unspents(mine)):
                us = unspents(mine)
                for u in us:
                    if u.segwit:
                        u.amount = None
                try:
                    bad = signer.sign_transaction(h, unspents=us)
                except ValueError:
                    ctx.obs('unknown_amounts_refused')
                else:
                    raise Violation('a segwit input of unknown amount was signed', key='unknown-amount', before=h, hex=bad)
            if rng.random() < 0.3:
                same = signer.sign_transaction(h, unspents=[])
                if parse(same, 'with nothing offered').ser() != before.ser():
                    raise Violation('signing with nothing offered changed the transaction', key='foreign', before=h, hex=same)
                ctx.obs('empty_offers')
            h = signer.sign_transaction(h.upper() if case['upper'] else h, **kw)
        drain(W)
        done.add((o, j))
        t = parse(h, 'after step %d' % n)
        if before is not None:
            if frame(t) != frame(before):
                raise Violation('signing by owner %d changed version, lock time, inputs, sequences or outputs' % o,
                                key='frame', before=before.ser().hex(), hex=h)
        else:
            if sorted((x.txid, x.vout) for x in t.ins) != sorted(prev):
                raise Violation('the created transaction does not spend exactly the offered unspents', key='inputs', hex=h)
            seqs = {(i[3], i[4]): i[5] for i in ins}
            if any(x.seq != seqs[(x.txid, x.vout)] for x in t.ins):
                raise Violation('the created transaction changes sequences', key='frame', hex=h)
        cov = {(i[3], i[4]) for i in covered} if o >= 0 else set()
        for k, x in enumerate(t.ins):
            key = (x.txid, x.vout)
            if key not in cov:
                old = (before.ins[k].script, before.ins[k].wit) if before is not None else (b'', [])
                if (x.script, x.wit) != old:
                    raise Violation('step %d by owner %d changed input %d of owner %d (%s): script %s -> %s, witness %s -> %s' % (
                        n, o, k, own[key], 'own, not offered' if own[key] == o else 'foreign', old[0].hex(), x.script.hex(),
                        [y.hex() for y in old[1]], [y.hex() for y in x.wit]), key='foreign', hex=h)
                ctx.obs('foreign_inputs_unchanged')
                continue
            pending[key].discard(j)
            if not pending[key]:
                try:
                    ref.verify_input(t, k, prev[key][1], prev[key][0])
                except ref.RefError as e:
                    raise Violation('step %d: owner %d (%s) signed input %d, which is not valid: %s' % (
                        n, o, w.spec['kind'], k, e), key='invalid', hex=h)
                ctx.obs('own_inputs_valid')
        if o < 0:
            ctx.obs('bystander_steps')
        ctx.obs('steps_checked')
    # owners that offered only a part complete their share
    if h is None:
        return
    for o, w in enumerate(ws):
        for j in range(w.m):
            rest = [i for i in ins if i[0] == o and j in pending[(i[3], i[4])]]
            if rest:
                h = w.bits[j].sign_transaction(h, unspents=unspents(rest))
                for i in rest:
                    pending[(i[3], i[4])].discard(j)
    drain(W)
    try:
        ref.verify_tx(ref.Tx.parse(h), prev)
    except ref.RefError as e:
        raise Violation('everybody signed and the transaction is invalid: %s' % e, key='final', hex=h)
    ctx.obs('complete_valid')
    if case['redo']:
        # the finished transaction is amended, so every signature in it is stale: all sign anew
        t = ref.Tx.parse(h)
        if case['redo'] == 'outs':
            t.outs[rng.randrange(len(t.outs))].value -= rng.randint(1, 50)
        elif case['redo'] == 'seq':
            t.ins[rng.randrange(len(t.ins))].seq ^= 1 << rng.randrange(32)
        else:
            t.lock ^= 1 << rng.randrange(32)
        want = frame(t)
        h = t.ser().hex()
        order = [(o, j) for o, w in enumerate(ws) for j in range(w.m)]
        rng.shuffle(order)
        for o, j in order:
            h = ws[o].bits[j].sign_transaction(h, unspents=unspents(ins))
        drain(W)
        t = parse(h, 'after amending and signing anew')
        if frame(t) != want:
            raise Violation('signing changed version, lock time, inputs, sequences or outputs', key='frame', hex=h)
        try:
            ref.verify_tx(t, prev)
        except ref.RefError as e:
            raise Violation('the amended transaction was signed by everybody and is invalid: %s' % e, key='final', hex=h)
        ctx.obs('amended_valid')
    ctx.shape([(w['kind'], w.get('m'), len(w.get('ks', 'x'))) for w in case['owners']], [i[:2] for i in ins], case['steps'],
              case['start'], case['lists'])
