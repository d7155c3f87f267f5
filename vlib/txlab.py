"""Runs transaction requests through the real library and records what came out."""
import json
import random

from . import ref
from .core import Violation, HarnessError

TYPE = {'l': 'p2pkh', 's': 'np2wkh'}


def bits():
    import bit
    from bit.network.meta import Unspent
    return bit, Unspent


def bit_key(k, comp, net):
    bit, _ = bits()
    cls = bit.PrivateKey if net == 'main' else bit.PrivateKeyTestnet
    if comp:
        return cls.from_int(k)
    return cls(ref.wif(k, net, False))


class Wallet:
    """A wallet of the library next to the reference's idea of it."""

    def __init__(self, spec):
        self.spec = spec
        self.net = spec['net']
        bit, _ = bits()
        if spec['kind'] == 'single':
            k = int(spec['k'], 16)
            self.m = 1
            self.keys = [k]
            self.pub = ref.pubkey(k, spec['comp'])
            self.script = {'l': ref.script_for(ref.p2pkh_addr(self.pub, self.net))}
            self.addr = {'l': ref.p2pkh_addr(self.pub, self.net)}
            if spec['comp']:
                self.addr['s'] = ref.np2wkh_addr(self.pub, self.net)
                self.script['s'] = ref.script_for(self.addr['s'])
            self.bits = [bit_key(k, spec['comp'], self.net)]
            self.first = self.bits[0]
            self.types = {'l': ('p2pkh' if spec['comp'] else 'p2pkh-uncompressed', 0), 's': ('np2wkh', 0)}
        else:
            self.keys = [int(k, 16) for k in spec['ks']]
            self.m = spec['m']
            pubs = [ref.pubkey(k, c) for k, c in zip(self.keys, spec['comp'])]
            given = set(p.hex() for p in pubs) if spec.get('as_set') else [p.hex() for p in pubs]
            if spec.get('as_set'):
                order = sorted(pubs)
            else:
                order = pubs
            self.pubs = order
            self.redeem = ref.multisig_script(order, self.m)
            self.addr = {'l': ref.p2sh_addr(self.redeem, self.net)}
            if all(spec['comp']):
                self.addr['s'] = ref.np2wsh_addr(self.redeem, self.net)
            self.script = {k: ref.script_for(a) for k, a in self.addr.items()}
            cls = bit.MultiSig if self.net == 'main' else bit.MultiSigTestnet
            self.bits = [cls(bit_key(self.keys[i], spec['comp'][i], self.net), given, self.m)
                         for i in spec['signers']]
            self.first = self.bits[0]
            from .gen import in_size
            self.types = {'l': ('p2sh', in_size(spec, 'l')), 's': ('np2wsh', in_size(spec, 's'))}

    def secrets(self):
        return self.keys

    def unspents(self, ups):
        _, Unspent = bits()
        out = []
        for a, t, v, kind, conf, seq in ups:
            ty, vs = self.types[kind]
            u = Unspent(a, conf, self.script[kind].hex(), t, v, ty, vs or None, sequence=seq) if seq != 0xFFFFFFFF \
                else Unspent(a, conf, self.script[kind].hex(), t, v, ty, vs or None)
            out.append(u)
        return out

    def prevouts(self, ups):
        return {(u[1], u[2]): (u[0], self.script[u[3]]) for u in ups}

    def default_change(self, ups):
        return self.addr['s'] if any(u[3] == 's' for u in ups) else self.addr['l']


class Rec:
    """What one request produced."""
    __slots__ = ('case', 'wallet', 'hex', 'tx', 'exc', 'fee', 'vsize', 'prev', 'steps', 'prepared')

    def __init__(self):
        self.hex = self.tx = self.exc = self.fee = self.vsize = self.prepared = None
        self.steps = []


def kwargs(case):
    # what equals the documented default is passed or left out
    rs = case.get('rs', 0)
    kw = dict(fee=case['fee'])
    if case['abs'] or rs & 1:
        kw['absolute_fee'] = case['abs']
    if not case['combine'] or rs & 2:
        kw['combine'] = case['combine']
    if not case.get('rbf') and rs & 12 == 4:
        kw['replace_by_fee'] = False
    if case.get('leftover'):
        kw['leftover'] = case['leftover']
    if case.get('rbf'):
        kw['replace_by_fee'] = True
    m = case.get('msg')
    if m:
        if 'text' in m:
            kw['message'] = m['text']
            if rs & 16:
                kw['message_is_hex'] = False
        else:
            kw['message'] = m['bytes']
            kw['message_is_hex'] = True
    return kw


def outputs(case):
    return [(a, v, u) for a, v, u, _ in case['outs']]


def msg_bytes(case):
    m = case.get('msg')
    if not m:
        return b''
    return m['text'].encode('utf-8') if 'text' in m else m['bytes']


class Sink:
    """A ledger that takes (and keeps) whatever is broadcast."""

    def __init__(self):
        self.accepted = []

    def accept(self, raw):
        self.accepted.append(raw)
        return True, ref.Tx.parse(raw).txid()


def send(w, case, world):
    """wallet.send with every query failing and every broadcast accepted -> the raw transaction."""
    sink = Sink()
    faults, led = world.faults, world.led[w.net]
    world.faults = {k: (lambda op, n, f=f: None if op == 'broadcast' else f(op, n)) for k, f in faults.items()}
    world.led[w.net] = sink
    n = len(world.log)
    try:
        got = w.first.send(outputs(case), unspents=w.unspents(case['ups']), **kwargs(case))
        raws = [e['raw'] for e in world.log[n:] if e['op'] == 'broadcast']
        del world.log[n:]
    finally:
        world.faults, world.led[w.net] = faults, led
    if len(raws) != 1 or sink.accepted != raws:
        raise Violation('send broadcast %d transactions, %d were accepted' % (len(raws), len(sink.accepted)), key='send-count')
    try:
        want = ref.Tx.parse(raws[0]).txid()
    except ref.RefError as e:
        raise Violation('the broadcast transaction is not well-formed: %s' % e, key='malformed', hex=raws[0])
    if got != want:
        raise Violation('send returned %r, the transaction broadcast is %s' % (got, want), key='send-txid', hex=raws[0])
    return raws[0]


def execute(case, world=None, wallet=None):
    """Create + fully sign.  InsufficientFunds is recorded, other exceptions propagate.

    With a world, part of the direct requests go through send().
    """
    from bit.exceptions import InsufficientFunds
    r = Rec()
    r.case = case
    w = r.wallet = wallet or Wallet(case['w'])
    r.prev = w.prevouts(case['ups'])
    random.seed(case['rs'])
    mode = case['mode']
    try:
        if mode == 'send' or mode == 'direct' and world and case['w']['kind'] == 'single' and case['rs'] % 6 == 3:
            h = send(w, case, world)
        elif mode == 'direct':
            h = w.first.create_transaction(outputs(case), unspents=w.unspents(case['ups']), **kwargs(case))
        elif mode == 'net':
            h = w.first.create_transaction(outputs(case), **kwargs(case))
        elif mode == 'cold':
            kw = kwargs(case)
            if 'leftover' not in kw:
                kw['leftover'] = w.default_change(case['ups'])
            if case['w']['kind'] == 'single' and not (case['w']['comp'] and case['rs'] & 32):
                kw['compressed'] = case['w']['comp']
            r.prepared = type(w.first).prepare_transaction(w.addr['l'], outputs(case),
                                                           unspents=w.unspents(case['ups']), **kw)
            h = w.first.sign_transaction(r.prepared)
        else:
            raise HarnessError('mode ' + mode)
    except InsufficientFunds as e:
        r.exc = e
        return r
    r.steps.append(h)
    for other in w.bits[1:]:
        h = other.sign_transaction(h, unspents=w.unspents(case['ups']))
        r.steps.append(h)
    r.hex = h
    try:
        r.tx = ref.Tx.parse(h)
    except ref.RefError as e:
        raise Violation('the returned hex is not a well-formed transaction: %s' % e, key='malformed', hex=h)
    try:
        r.fee = sum(r.prev[(i.txid, i.vout)][0] for i in r.tx.ins) - sum(o.value for o in r.tx.outs)
    except KeyError as e:
        raise Violation('transaction spends %s, which was not offered' % (e,), key='foreign-input', hex=h)
    r.vsize = r.tx.vsize()
    return r


# ------------------------------------------------------------------ monitors over one record
def mon_valid(r, ctx):
    try:
        ref.verify_tx(r.tx, r.prev)
    except ref.RefError as e:
        raise Violation('the signed transaction is invalid: %s' % e, key='invalid', hex=r.hex)
    if r.tx.lock != 0:
        raise Violation('lock time is %d, transaction is not final' % r.tx.lock, key='locktime', hex=r.hex)
    if r.tx.ser().hex() != r.hex.lower():
        raise Violation('non canonical serialisation', key='canonical', hex=r.hex)
    ctx.obs('inputs_verified', len(r.tx.ins))
    ctx.obs('transactions_verified')


def split_outputs(r):
    """-> (value outputs, data outputs)."""
    vals = [o for o in r.tx.outs if o.script[:1] != b'\x6a']
    data = [o for o in r.tx.outs if o.script[:1] == b'\x6a']
    return vals, data


def mon_outputs(r, ctx):
    vals, data = split_outputs(r)
    case = r.case
    want = [(ref.script_for(a), v) for a, _, _, v in case['outs']]
    left = ref.script_for(case['leftover'] or r.wallet.default_change(case['ups']))
    got = [(o.script, o.value) for o in vals]
    change = None
    if got == want:
        change = 0
    elif len(got) == len(want) + 1:
        for i in range(len(got) - 1, -1, -1):
            if got[i][0] == left and got[:i] + got[i + 1:] == want:
                change = got[i][1]
                break
    if change is None:
        raise Violation('outputs differ from the request: wanted %s plus optional change to %s, got %s' % (
            [(s.hex(), v) for s, v in want][:8], left.hex(), [(s.hex(), v) for s, v in got][:9]),
            key='outputs', hex=r.hex)
    keys = [(i.txid, i.vout) for i in r.tx.ins]
    if len(set(keys)) != len(keys):
        raise Violation('an unspent is used twice', key='dup-input', hex=r.hex)
    for o in data:
        if o.value:
            raise Violation('data output carries value', key='data-value', hex=r.hex)
    if data and not case.get('msg'):
        raise Violation('data output without a message', key='data-uninvited', hex=r.hex)
    if r.fee < 0:
        raise Violation('outputs exceed inputs by %d' % -r.fee, key='negative-fee', hex=r.hex)
    ctx.obs('outputs_matched', len(want))
    ctx.obs('change_outputs' if change else 'without_change')
    return change


def mon_messages(r, ctx):
    _, data = split_outputs(r)
    got = b''
    for o in data:
        if o.value:
            raise Violation('data output carries value %d' % o.value, key='data-value', hex=r.hex)
        try:
            d = ref.op_return_data(o.script)
            toks = ref.parse_script(o.script[1:])
        except ref.RefError as e:
            raise Violation('data output %s is not a push-only script: %s' % (o.script.hex(), e), key='data-script',
                            hex=r.hex)
        if len(d) > 80 or len(o.script) > 83:
            raise Violation('data output carries %d bytes (script %d), limit 80 (83)' % (len(d), len(o.script)),
                            key='data-size', hex=r.hex)
        if not d or len(toks) != 1:
            raise Violation('data output %s does not hold exactly one push' % o.script.hex(), key='data-empty',
                            hex=r.hex)
        got += d
        ctx.obs('data_outputs_parsed')
    if got != msg_bytes(r.case):
        raise Violation('message stored as %s, requested %s' % (got.hex(), msg_bytes(r.case).hex()),
                        key='data-content', hex=r.hex)
    if data:
        k = [i for i, o in enumerate(r.tx.outs) if o.script[:1] == b'\x6a']
        if k != list(range(len(r.tx.outs) - len(k), len(r.tx.outs))):
            raise Violation('data outputs do not follow the payments', key='data-order', hex=r.hex)


def mon_sequences(r, ctx):
    seqs = {(u[1], u[2]): u[5] for u in r.case['ups']}
    for i in r.tx.ins:
        s = seqs[(i.txid, i.vout)]
        want = min(s, 0xFFFFFFFD) if r.case.get('rbf') else s
        if i.seq != want:
            raise Violation('input %s:%d has sequence %#x, expected %#x (rbf=%s, unspent %#x)' % (
                i.txid, i.vout, i.seq, want, r.case.get('rbf'), s), key='sequence', hex=r.hex)
        ctx.obs('sequences_checked')


def worst_size(r, with_change):
    """Largest virtual size the chosen inputs and outputs can have."""
    case = r.case
    kinds = {(u[1], u[2]): u[3] for u in case['ups']}
    from .gen import in_size
    s = sum(in_size(case['w'], kinds[(i.txid, i.vout)]) for i in r.tx.ins)
    any_seg = any(kinds[(i.txid, i.vout)] == 's' for i in r.tx.ins)
    if any_seg:
        s += 0.5 + 0.25 * sum(kinds[(i.txid, i.vout)] == 'l' for i in r.tx.ins)
    nout = len(r.tx.outs) + (0 if with_change else 1)
    s += 8 + len(ref.varint(len(r.tx.ins))) + len(ref.varint(nout))
    s += sum(len(o.script) + 8 + len(ref.varint(len(o.script))) for o in r.tx.outs)
    left = ref.script_for(case['leftover'] or r.wallet.default_change(case['ups']))
    if not with_change:
        s += len(left) + 9
    return s


def mon_fee(r, ctx, change, rate=None):
    case = r.case
    if case['abs']:
        if r.fee != case['fee']:
            raise Violation('absolute fee of %d asked for, %d paid' % (case['fee'], r.fee), key='fee-absolute',
                            hex=r.hex)
        ctx.obs('absolute_fees_exact')
        return
    rate = case['fee'] if rate is None else rate
    if r.fee < rate * r.vsize:
        kinds = ''.join(sorted(set(u[3] for u in case['ups'])))
        raise Violation('fee rate %d asked for but %d paid for %d vbytes (%.3f)' % (rate, r.fee, r.vsize,
                        r.fee / r.vsize), key='fee-low', hex=r.hex, kinds=kinds, n_in=len(r.tx.ins),
                        n_out=len(r.tx.outs))
    hi = worst_size(r, bool(change))
    n = len(r.tx.ins)
    slack = 6 + n  # rounding, count estimates
    if not change:
        slack += 148 + 34
    if r.fee > rate * (hi + slack):
        raise Violation('fee rate %d asked for but %d paid; worst-case size is %.2f vbytes%s' % (
            rate, r.fee, hi, '' if change else ' plus one input and output'), key='fee-high', hex=r.hex)
    ctx.obs('fee_rates_checked')
    ctx.obs('fee_sat_per_vb_min', 0)


def min_max_need(case, w):
    """Bounds on what the outputs plus fee need when all unspents are spent: (lo, hi)."""
    from .gen import in_size
    target = sum(o[3] for o in case['outs'])
    if case['abs']:
        return target + case['fee'], target + case['fee']
    sz = sum(in_size(case['w'], u[3]) for u in case['ups'])
    if any(u[3] == 's' for u in case['ups']):
        sz += 0.5 + 0.25 * len(case['ups'])
    nm = -(-len(msg_bytes(case)) // 80)
    sz += 8 + len(ref.varint(len(case['ups']))) + len(ref.varint(len(case['outs']) + nm + 1))
    sz += sum(len(ref.script_for(a)) + 9 for a, _, _, _ in case['outs'])
    mb = len(msg_bytes(case))
    sz_lo = sz + mb + 9 * nm
    sz_hi = sz + 92 * nm
    left = len(ref.script_for(case['leftover'] or w.default_change(case['ups']))) + 9
    n = len(case['ups'])
    return target + case['fee'] * (sz_lo - 3 - n * 8 * case['w'].get('m', 1)), target + case['fee'] * (sz_hi + left + 6)


def mon_selection(r, ctx):
    """InsufficientFunds iff funds are insufficient; inputs as documented."""
    case, w = r.case, r.wallet
    total = sum(u[0] for u in case['ups'])
    lo, hi = min_max_need(case, w)
    rate = case['fee']
    from .gen import in_size
    if r.exc is not None:
        ctx.obs('refusals')
        economic = case['abs'] or case['combine'] or all(u[0] > rate * (in_size(case['w'], u[3]) + 1)
                                                         for u in case['ups'])
        if total >= hi and economic:
            raise Violation('insufficient funds reported although %d is available and at most %d needed (%s)' % (
                total, hi, r.exc), key='false-refusal')
        return
    if case['abs'] and total < lo:
        raise Violation('transaction created with %d available and %d needed' % (total, lo), key='overspend',
                        hex=r.hex)
    keys = [(i.txid, i.vout) for i in r.tx.ins]
    offered = [(u[1], u[2]) for u in case['ups']]
    if len(set(keys)) != len(keys):
        raise Violation('an unspent is used twice', key='dup-input', hex=r.hex)
    if not set(keys) <= set(offered):
        raise Violation('foreign input', key='foreign-input', hex=r.hex)
    if case['combine'] and sorted(keys) != sorted(offered):
        raise Violation('combining uses %d of %d unspents' % (len(keys), len(offered)), key='combine', hex=r.hex)
    if r.fee < 0:
        raise Violation('outputs exceed inputs', key='overspend', hex=r.hex)
    ctx.obs('combined' if case['combine'] else 'subset_selected')
    if not case['combine'] and len(keys) < len(offered):
        ctx.obs('proper_subsets')


def shape_of(case):
    ups = case['ups']
    w = case['w']
    kind = w['kind'] if w['kind'] == 'single' else 'multi%d/%d' % (w['m'], len(w['ks']))
    b = lambda n: n if n < 5 else (n.bit_length() + 100 if n < 250 else n)
    return [kind, w['net'], str(w['comp']), b(len(ups)), ''.join(sorted(set(u[3] for u in ups))), b(len(case['outs'])),
            max(u[0] for u in ups).bit_length(), max(u[2] for u in ups).bit_length(), case['abs'], case['combine'],
            bool(case['leftover']), len(msg_bytes(case)), case['rbf'], case['mode'],
            sorted(set(len(ref.script_for(o[0])) for o in case['outs'])), int(case['fee']).bit_length()]
