"""C05: m-of-n multisig - any m cosigners complete a valid spend, fewer never do."""
import random

from vlib import gen, ref, txlab
from vlib.core import Violation
from checks.common import offline_world, drain

LEVEL = 'exploration'
QUOTA = {'quick': 1600, 'thorough': 30000}
RULE = ('seeded signing histories: contract (m, n up to 15, set or list, hex or bytes, compressed or not), unspent mix, any '
        'order of signers with repeats, direct or prepared start, partial transactions passed on in Bitcoin Core\'s layout or signed by other software in between; every intermediate transaction is parsed strictly, every '
        'signature in it attributed to its key; distinct = (m, n, encodings, signer order as ranks, repeats, input mix, start)')
REQUIRED = ['steps_checked', 'signatures_attributed', 'incomplete_refused_by_network', 'complete_valid', 'oversigning_refused',
            'repeat_signings', 'relayed_core', 'relayed_bare', 'relayed_alien',
            'relayed_slots']
ASSUMPTIONS = ['OpenSSL ECDSA (cross-checked against pure Python)', 'cosigners build the same contract']


def setup(ctx):
    global W
    W = offline_world()


def case_of(rng, ctx, m, n, comp=None, kinds=None, history=None, **kw):
    ks = []
    while len(ks) < n:
        k = hex(gen.key_int(rng, ctx.dic))
        if k not in ks:
            ks.append(k)
    comp = comp or [True] * n
    while sum(34 if c else 66 for c in comp) + 3 > 520:
        comp[comp.index(False)] = True
    kinds = kinds or rng.choice(['l', 's', 'ls', 'sl', 'ssl'])
    if not all(comp):
        kinds = 'l'
    nin = rng.choice([1, 1, 2, 3, 5])
    ups = []
    for i in range(nin):
        ups.append([rng.randint(10 ** 6, 10 ** rng.randint(7, 12)), gen.txid(rng),
                    ctx.dic.pick(rng, 0, 2 ** 32 - 1) if rng.random() < 0.3 else rng.randint(0, 9), kinds[i % len(kinds)],
                    6, 0xFFFFFFFF if rng.random() < 0.8 else rng.getrandbits(32)])
    net = rng.choice(['main', 'test'])
    if history is None:
        order = list(range(n))
        rng.shuffle(order)
        history = order[:m]
        for _ in range(rng.choice([0, 0, 1, 2])):
            # somebody already in the list signs again
            if len(history) > 1:
                j = rng.randint(1, len(history) - 1)
                history.insert(j, rng.choice(history[:j]))
    return {'net': net, 'ks': ks, 'comp': comp, 'm': m, 'as_set': rng.random() < 0.4, 'ups': ups, 'history': history,
            'enc': [rng.choice(['hex', 'bytes', 'mix']) for _ in range(n)], 'start': rng.choice(['direct', 'cold']),
            'amt': rng.randint(1000, 3 * 10 ** 5), 'dest': gen.address(rng, net), 'nout': rng.randint(1, 3),
            'relay': rng.choice([None, None, 'core', 'bare', 'slots', 'alien', 'alien']), 'extra': rng.randrange(n), 'rs': rng.getrandbits(32), 'lazy': rng.random() < 0.2, **kw}


def directed(ctx):
    rng = random.Random('c05 %s' % ctx.seed)
    for n in range(1, 6):
        for m in range(1, n + 1):
            for kinds in ('l', 's', 'ls'):
                yield case_of(rng, ctx, m, n, kinds=kinds)
    for n in (6, 7, 8, 12, 15):
        for m in sorted({1, 2, n // 2, n - 1, n}):
            for kinds in ('l', 's'):
                yield case_of(rng, ctx, m, n, kinds=kinds)
    for n in (2, 3, 7):
        for m in (2, n):
            yield case_of(rng, ctx, m, n, comp=[False] * n, kinds='l')
            yield case_of(rng, ctx, m, n, comp=[i % 2 == 0 for i in range(n)], kinds='l')
    import itertools
    for n in (3, 4):
        for m in (2, 3):
            for hist in itertools.permutations(range(n), m):
                yield case_of(rng, ctx, m, n, kinds=rng.choice(['l', 's', 'ls']), history=list(hist))
    for style in ('core', 'bare', 'slots', 'alien'):
        for n, m in ((2, 2), (3, 2), (3, 3), (5, 4), (15, 3), (15, 15)):
            for kinds in ('l', 's', 'ls'):
                yield dict(case_of(rng, ctx, m, n, kinds=kinds), relay=style)
    for hist in ([0, 0, 1], [1, 1, 1, 0], [0, 1, 0, 2], [2, 1, 1, 2, 0]):
        for kinds in ('l', 's', 'ls'):
            yield case_of(rng, ctx, max(hist) + 1, 3, kinds=kinds, history=hist)


def generate(rng, ctx):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, rng.randint(1, 15)])
    m = rng.randint(1, n)
    comp = None
    if rng.random() < 0.15 and n <= 7:
        comp = [rng.random() < 0.6 for _ in range(n)]
    return case_of(rng, ctx, m, n, comp)


def pubs_of(case):
    pubs = [ref.pubkey(int(k, 16), c) for k, c in zip(case['ks'], case['comp'])]
    return pubs, (sorted(pubs) if case['as_set'] else pubs)


def bit_wallet(case, i, pubs):
    import bit
    enc = case['enc'][i]
    rng = random.Random(case['rs'] + i)
    given = [p if enc == 'bytes' or enc == 'mix' and rng.random() < 0.5 else p.hex() for p in pubs]
    if case['as_set']:
        rng.shuffle(given)
        given = set(given)
    cls = bit.MultiSig if case['net'] == 'main' else bit.MultiSigTestnet
    return cls(txlab.bit_key(int(case['ks'][i], 16), case['comp'][i], case['net']), given, case['m'])


def signers_in(tx, idx, kind, value, redeem, order, hexs):
    """Attributes each signature of the input to a key; -> set of public keys."""
    i = tx.ins[idx]
    if kind == 's':
        if i.script != b'\x22\0\x20' + ref.sha256(redeem):
            raise Violation('segwit multisig input carries scriptSig %s' % i.script.hex(), key='scriptsig', hex=hexs)
        items = i.wit
        dig = tx.sighash_v0(idx, redeem, value)
    else:
        if i.wit:
            raise Violation('legacy multisig input carries a witness', key='witness', hex=hexs)
        try:
            toks = ref.parse_script(i.script)
        except ref.RefError as e:
            raise Violation('partial scriptSig malformed: %s' % e, key='scriptsig', hex=hexs)
        if any(d is None for _, d in toks):
            raise Violation('partial scriptSig is not push only', key='scriptsig', hex=hexs)
        items = [d for _, d in toks]
        dig = tx.sighash_legacy(idx, redeem)
    if len(items) < 3 or items[0] != b'' or items[-1] != redeem:
        raise Violation('partial input %d is not <empty> <signatures> <script>: %s' % (
            idx, [x.hex() for x in items]), key='partial-form', hex=hexs)
    out = []
    for s in items[1:-1]:
        if not s:
            continue
        try:
            r, ss = ref.parse_der(s[:-1])
        except ref.RefError as e:
            raise Violation('partial input %d holds a non-signature %s: %s' % (idx, s.hex(), e), key='partial-sig',
                            hex=hexs)
        who = [p for p in order if ref.ecdsa_verify(p, dig, r, ss)]
        if not who or s[-1] != 1:
            raise Violation('input %d holds a signature that belongs to no cosigner' % idx, key='alien-sig', hex=hexs)
        out.append(who[0])
    if len(set(out)) != len(out):
        raise Violation('input %d holds two signatures of one key' % idx, key='dup-sig', hex=hexs)
    if [order.index(p) for p in out] != sorted(order.index(p) for p in out):
        raise Violation('signatures of input %d are not in contract order' % idx, key='sig-order', hex=hexs)
    return set(out)


def push(b):
    if not b:
        return b'\0'
    n = len(b)
    return (bytes([n]) if n < 76 else b'\x4c' + bytes([n]) if n < 256 else b'\x4d' + n.to_bytes(2, 'little')) + b


def alien_signature(k, digest, rng):
    """As another implementation would sign: any nonce, low S."""
    while True:
        n = rng.randrange(1, ref.N)
        r = ref.point(n)[0] % ref.N
        s = (int.from_bytes(digest, 'big') + r * k) * pow(n, -1, ref.N) % ref.N
        if r and s:
            return ref.encode_der(r, min(s, ref.N - s)) + b'\1'


def relay(t, case, kinds, prev, redeem, pubs, order):
    """The partial transaction as Bitcoin Core (or an older tool) passes it on; the cosigner may have used other software."""
    style, m = case['relay'], case['m']
    rng = random.Random(case['rs'])
    for idx, i in enumerate(t.ins):
        seg = kinds[(i.txid, i.vout)] == 's'
        items = i.wit if seg else [d for _, d in ref.parse_script(i.script)]
        sigs = [x for x in items[1:-1] if x]
        if style == 'alien':
            dig = t.sighash_v0(idx, redeem, prev[(i.txid, i.vout)][0]) if seg else t.sighash_legacy(idx, redeem)
            for n, x in enumerate(sigs):
                who = [p for p in order if ref.ecdsa_verify(p, dig, *ref.parse_der(x[:-1]))]
                if who and rng.random() < 0.7:
                    sigs[n] = alien_signature(int(case['ks'][pubs.index(who[0])], 16), dig, rng)
        if style == 'slots':
            # one place for every public key
            dig = t.sighash_v0(idx, redeem, prev[(i.txid, i.vout)][0]) if seg else t.sighash_legacy(idx, redeem)
            sigs = [next((x for x in sigs if ref.ecdsa_verify(p, dig, *ref.parse_der(x[:-1]))), b'') for p in order]
        elif style != 'bare':
            sigs += [b''] * (m - len(sigs))
        items = [b''] + sigs + [redeem]
        if seg:
            i.wit = items
        else:
            i.script = b''.join(map(push, items))
    return t.ser().hex()


def frame(t):
    return (t.version, t.lock, [(i.txid, i.vout, i.seq) for i in t.ins], [(o.value, o.script) for o in t.outs])


def run(case, ctx):
    pubs, order = pubs_of(case)
    m = case['m']
    redeem = ref.multisig_script(order, m)
    net = case['net']
    addr = {'l': ref.p2sh_addr(redeem, net)}
    if all(case['comp']):
        addr['s'] = ref.np2wsh_addr(redeem, net)
    scr = {k: ref.script_for(a) for k, a in addr.items()}
    ups = case['ups']
    prev = {(u[1], u[2]): (u[0], scr[u[3]]) for u in ups}
    _, Unspent = txlab.bits()
    spec = {'kind': 'multi', 'ks': case['ks'], 'comp': case['comp'], 'm': m}

    def unspents():
        if case.get('lazy'):
            return [Unspent(u[0], u[4], scr[u[3]].hex(), u[1], u[2], {'l': 'p2sh', 's': 'np2wsh'}[u[3]], sequence=u[5])
                    for u in ups]
        return [Unspent(u[0], u[4], scr[u[3]].hex(), u[1], u[2], {'l': 'p2sh', 's': 'np2wsh'}[u[3]],
                        gen.in_size(spec, u[3]), sequence=u[5]) for u in ups]

    wallets = {i: bit_wallet(case, i, pubs) for i in set(case['history'] + [case['extra']])}
    outs = [(case['dest'], case['amt'] + j, 'satoshi') for j in range(case['nout'])]
    kw = dict(fee=1000, absolute_fee=True, leftover=addr['l'])
    first = wallets[case['history'][0]]
    if case['start'] == 'cold':
        prep = type(first).prepare_transaction(addr['l'], outs, unspents=unspents(), **kw)
        h = first.sign_transaction(prep)
    else:
        h = first.create_transaction(outs, unspents=unspents(), **kw)
    drain(W)
    seen, base = set(), None
    kinds = {(u[1], u[2]): u[3] for u in ups}
    for step, i in enumerate(case['history']):
        if step:
            if i in seen:
                ctx.obs('repeat_signings')
            if len(seen) >= m:
                # complete: refusal expected
                try:
                    wallets[i].sign_transaction(h, unspents=unspents())
                except ValueError:
                    ctx.obs('oversigning_refused')
                    continue
                raise Violation('a complete transaction was signed again without an error', key='oversign', hex=h)
            h = wallets[i].sign_transaction(h, unspents=unspents())
        seen.add(i)
        try:
            t = ref.Tx.parse(h)
        except ref.RefError as e:
            raise Violation('after signer %d the transaction is malformed: %s' % (i, e), key='malformed', hex=h)
        if base is None:
            base = frame(t)
            if sorted((x.txid, x.vout) for x in t.ins) != sorted(prev):
                raise Violation('inputs differ from the offered unspents', key='inputs', hex=h)
        elif frame(t) != base:
            raise Violation('signing changed outputs, inputs, sequences, version or lock time', key='frame', hex=h)
        want = {pubs[j] for j in seen}
        for idx, x in enumerate(t.ins):
            kind = kinds[(x.txid, x.vout)]
            got = signers_in(t, idx, kind, prev[(x.txid, x.vout)][0], redeem, order, h)
            ctx.obs('signatures_attributed', len(got))
            if got != want:
                raise Violation('after signers %s (m=%d) input %d (%s) holds signatures of %s' % (
                    sorted(seen), m, idx, kind, sorted(pubs.index(p) for p in got)), key='signers', hex=h)
        try:
            ref.verify_tx(t, prev)
            ok = True
        except ref.RefError as e:
            ok, why = False, str(e)
        if ok and len(seen) < m:
            raise Violation('valid with %d of %d signers' % (len(seen), m), key='too-few', hex=h)
        if not ok and len(seen) >= m:
            raise Violation('all %d signers signed and the transaction is invalid: %s' % (m, why), key='invalid', hex=h)
        if not ok and case.get('relay'):
            h = relay(t, case, kinds, prev, redeem, pubs, order)
            ctx.obs('relayed_' + case['relay'])
        ctx.obs('complete_valid' if ok else 'incomplete_refused_by_network')
        ctx.obs('steps_checked')
    if len(seen) >= m:
        try:
            wallets[case['extra']].sign_transaction(h, unspents=unspents())
        except ValueError:
            ctx.obs('oversigning_refused')
        else:
            raise Violation('a complete transaction was signed again without an error', key='oversign', hex=h)
    drain(W)
    ranks = [order.index(pubs[i]) for i in case['history']]
    ctx.shape(m, len(pubs), case['as_set'], case['comp'], ranks, [u[3] for u in ups], case['start'])
