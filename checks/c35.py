"""C35: equivalent requests give the same transaction."""
import copy
import json
import random
import sys
import time
from decimal import Decimal as D

from vlib import gen, ref, txlab, world
from vlib.core import Violation
from checks.c13 import FIAT, newprices
from checks.common import drain

LEVEL = 'exploration'
QUOTA = {'quick': 1800, 'thorough': 50000}
RULE = ('a request is made as is and then again in other words - amounts in other exact units and types, defaults given or left out, positional or by keyword, unspents '
        'through to_dict and JSON, text or its bytes, wallets from any import or encoding, upper-case segwit addresses, prepared and signed or sent, from a fresh or a used '
        'wallet, on any of these at once - with the same randomness; all the transactions are equal, or all are refused; distinct = (wallet kind, rewordings applied, '
        'refusal, ways of the base)')
WORDS = ['amounts', 'output-forms', 'dict', 'json', 'bytes', 'leftover', 'fee', 'defaults', 'positional', 'wallet', 'cold', 'send', 'upper', 'used', 'again', 'spelled', 'copies', 'hex-case']
REQUIRED = ['reworded:' + w for w in WORDS] + ['same', 'refused_alike', 'multisig', 'segwit', 'uncompressed', 'fiat', 'cosigned', 'combined_rewordings']
ASSUMPTIONS = ['outputs and unspents are lists as documented', 'the same state of the random module']
UNITS = {'satoshi': 0, 'ubtc': 2, 'mbtc': 5, 'btc': 8}
ORDER = ['fee', 'absolute_fee', 'leftover', 'combine', 'message', 'unspents', 'message_is_hex', 'replace_by_fee']
DEFAULT = {'fee': None, 'absolute_fee': False, 'leftover': None, 'combine': True, 'message': None, 'message_is_hex': False, 'replace_by_fee': False}


class Clock:
    now = 1.6e9


def setup(ctx):
    global W
    time.time = lambda: Clock.now
    time.monotonic = lambda: Clock.now - 1.5e9
    time.time_ns = lambda: int(Clock.now * 10 ** 9)
    time.monotonic_ns = lambda: int((Clock.now - 1.5e9) * 10 ** 9)
    W = world.World().install()
    for m in [m for m in sys.modules if m == 'bit' or m.startswith('bit.')]:
        del sys.modules[m]
    import bit  # noqa


def make(rng, ctx, words=None):
    c = gen.tx_case(rng, ctx, big=False, units=('satoshi', 'satoshi', 'btc', 'mbtc', 'ubtc'), rbf=0.3, msg=0.35, edge=0.15)
    c['fiat'] = [rng.choice(FIAT), str(rng.randint(1, 20))] if rng.random() < 0.12 else None
    c['words'] = words or [[w for w in WORDS if rng.random() < p] or [rng.choice(WORDS)] for p in (0, rng.choice([0, 0.15]), rng.choice([0.15, 0.4]))]
    return c


def directed(ctx):
    rng = random.Random('c35 %s' % ctx.seed)
    for w in WORDS:
        for _ in range(8):
            yield make(rng, ctx, [[w]])


def generate(rng, ctx):
    return make(rng, ctx)


def amount(rng, v, u):
    """The same amount in other words."""
    if u in UNITS:
        sat = D(str(v)).scaleb(UNITS[u])
        u = rng.choice(list(UNITS))
        x = sat.scaleb(-UNITS[u])
    else:
        x = D(str(v))
    how = rng.randrange(5)
    if how == 0 and x == x.to_integral_value():
        return int(x), u
    if how == 1:
        return x, u
    if how == 2:
        return '%f' % x if x == D('%f' % x) else format(x, 'f'), u
    if how == 3:
        return str(x.normalize()), u  # possibly with an exponent
    f = float(x)
    return (f, u) if D(str(f)) == x else (format(x, 'f'), u)


class Request:
    """One way of asking."""

    def __init__(self, case, words, rng):
        c = self.c = copy.deepcopy(case)
        self.words = words
        self.done = []
        self.rng = rng
        spec = c['w']
        self.w = txlab.Wallet(spec)
        self.single = spec['kind'] == 'single'
        self.outs = txlab.outputs(c)
        if c['fiat']:
            self.outs.append((gen.address(random.Random(c['rs']), spec['net']), c['fiat'][1], c['fiat'][0]))
        self.kw = dict(DEFAULT, fee=c['fee'], absolute_fee=c['abs'], combine=c['combine'], leftover=c.get('leftover') or None, replace_by_fee=bool(c.get('rbf')))
        m = c.get('msg')
        if m:
            self.kw['message'] = m['text'] if 'text' in m else m['bytes']
            self.kw['message_is_hex'] = 'text' not in m
        self.left_out = {k for k, v in self.kw.items() if v == DEFAULT[k] and type(v) is type(DEFAULT[k])}
        self.ups = self.w.unspents(c['ups'])
        self.mode = 'direct'
        self.bit = self.w.first
        self.positional = False
        for w in words:
            getattr(self, 'w_' + w.replace('-', '_'))()

    def did(self, w):
        self.done.append(w)

    def w_amounts(self):
        self.outs = [(a,) + amount(self.rng, v, u) for a, v, u in self.outs]
        if self.outs:
            self.did('amounts')

    def w_output_forms(self):
        from bit.transaction import Output
        form = self.rng.choice([lambda o: Output(*o), list, lambda o: Output(address=o[0], amount=o[1], currency=o[2])])
        self.outs = [form(o) for o in self.outs]
        self.did('output-forms')

    def w_upper(self):
        for i, o in enumerate(self.outs):
            if o[0][:3] in ('bc1', 'tb1'):
                self.outs[i] = (o[0].upper(),) + tuple(o[1:])
                self.did('upper')
        if (self.kw['leftover'] or '')[:3] in ('bc1', 'tb1'):
            self.kw['leftover'] = self.kw['leftover'].upper()

    def w_dict(self):
        from bit.network.meta import Unspent
        self.ups = [Unspent.from_dict(u.to_dict()) for u in self.ups]
        self.did('dict')

    def w_json(self):
        from bit.network.meta import Unspent
        self.ups = [Unspent.from_dict(json.loads(json.dumps(u.to_dict()))) for u in self.ups]
        self.did('json')

    def w_copies(self):
        self.ups = copy.deepcopy(self.ups) if self.rng.random() < 0.5 else [copy.copy(u) for u in self.ups]
        self.did('copies')

    def w_hex_case(self):
        for u in self.ups:
            k = self.rng.randrange(3)
            u.txid = u.txid.upper() if k else u.txid
            u.script = u.script.upper() if k < 2 else u.script
        self.did('hex-case')

    def w_spelled(self):
        # the constructor's arguments as keywords, the optional ones left out where they are the defaults
        from bit.network.meta import Unspent
        self.ups = [Unspent(txindex=u.txindex, txid=u.txid, script=u.script, confirmations=u.confirmations, amount=u.amount, type=u.type,
                            **dict({'vsize': u.vsize} if 'sh' in u.type and u.type not in ('np2wkh',) else {}, **({} if u.sequence == 0xFFFFFFFF and self.rng.random() < 0.5 else
                                                                                                     {'sequence': u.sequence})),
                            **({} if self.rng.random() < 0.5 else {'segwit': u.segwit})) for u in self.ups]
        self.did('spelled')

    def w_bytes(self):
        m = self.c.get('msg')
        if m and 'text' in m:
            self.kw.update(message=m['text'].encode('utf-8'), message_is_hex=True)
            self.left_out -= {'message_is_hex'}
            self.did('bytes')
        elif m:
            try:
                t = m['bytes'].decode('utf-8')
            except UnicodeDecodeError:
                return
            self.kw.update(message=t, message_is_hex=False)
            self.did('bytes')

    def w_leftover(self):
        if not self.kw['leftover']:
            self.kw['leftover'] = self.w.default_change(self.c['ups'])
            self.left_out -= {'leftover'}
            self.did('leftover')

    def w_fee(self):
        if self.kw['fee']:
            W.fee = dict.fromkeys(W.fee, self.kw['fee'])
            Clock.now += 7200
            self.kw['fee'] = None
            if self.rng.random() < 0.5:
                self.left_out.add('fee')
            self.did('fee')

    def w_defaults(self):
        if self.left_out:
            self.left_out = set()
            self.did('defaults')

    def w_positional(self):
        self.positional = True
        self.did('positional')

    def w_wallet(self):
        rng, spec, w = self.rng, self.c['w'], self.w
        import bit
        from bit.wallet import wif_to_key
        if self.single:
            self.bit = self.key(w.first)
        else:
            pubs = [p for p in w.pubs]
            forms = [lambda: [p.hex() for p in pubs], lambda: list(pubs), lambda: [p if rng.random() < 0.5 else p.hex() for p in pubs],
                     lambda: [p.hex().upper() for p in pubs]]
            if pubs == sorted(pubs):
                forms += [lambda: {p.hex() for p in pubs}, lambda: set(pubs), lambda: {p if rng.random() < 0.5 else p.hex() for p in pubs}]
            given = rng.choice(forms)()
            i = spec['signers'][0]
            key = self.key(txlab.bit_key(w.keys[i], spec['comp'][i], w.net))
            cls = type(w.first)
            self.bit = rng.choice([lambda: cls(key, given, w.m), lambda: cls(private_key=key, public_keys=given, m=w.m)])()
        self.did('wallet')

    def key(self, k):
        from bit.wallet import wif_to_key
        cls = type(k)
        ways = [lambda: cls(k.to_wif()), lambda: wif_to_key(k.to_wif()), lambda: cls(wif=k.to_wif()),
                # the version byte of the WIF is disregarded by the classes
                lambda: cls(ref.wif(k.to_int(), self.rng.choice(['main', 'test']), k.is_compressed()))]
        if k.is_compressed():
            ways += [lambda: cls.from_hex(k.to_hex()), lambda: cls.from_bytes(k.to_bytes()), lambda: cls.from_int(k.to_int()), lambda: cls.from_der(k.to_der()),
                     lambda: cls.from_pem(k.to_pem()), lambda: cls.from_hex(k.to_hex().upper())]
        return self.rng.choice(ways)()

    def w_cold(self):
        self.mode = 'cold'
        self.did('cold')

    def w_send(self):
        self.mode = 'send'

    def w_again(self):
        self.did('again')

    def w_used(self):
        self.use = True
        self.did('used')

    use = False

    def ask(self):
        """-> ('ok', hex) or ('refused', class)."""
        b, kw = self.bit, {k: v for k, v in self.kw.items() if k not in self.left_out}
        if self.use:
            # requests that leave nothing behind
            random.seed(7)
            for f in (lambda: b.create_transaction([(self.w.addr['l'], 600, 'satoshi')], fee=3, unspents=self.w.unspents([[10 ** 6, 'ab' * 32, 1, 'l', 3, 5]]), message='used',
                                                   replace_by_fee=True, combine=False),
                      lambda: b.create_transaction(self.outs, unspents=self.ups, **dict(kw, fee=2, absolute_fee=False, message=None, message_is_hex=False)),
                      lambda: b.create_transaction([('nobody', 1, 'satoshi')], unspents=self.ups, fee=1), lambda: b.sign(b'used'), lambda: repr(b)):
                try:
                    f()
                except Exception:
                    pass
        mode = self.mode
        if mode == 'send' and not (self.single and self.c['w']['comp']) and not self.single:
            mode = 'direct'
        random.seed(self.c['rs'])
        try:
            if mode == 'direct':
                if self.positional:
                    args = dict(self.kw, unspents=self.ups)
                    h = b.create_transaction(self.outs, *[args[k] for k in ORDER])
                else:
                    h = b.create_transaction(self.outs, unspents=self.ups, **kw)
            elif mode == 'send':
                sink = txlab.Sink()
                led = W.led[self.w.net]
                W.led[self.w.net] = sink
                try:
                    if self.positional:
                        args = dict(self.kw, unspents=self.ups)
                        t = b.send(self.outs, *[args[k] for k in ORDER])
                    else:
                        t = b.send(self.outs, unspents=self.ups, **kw)
                finally:
                    W.led[self.w.net] = led
                self.did('send')
                if len(sink.accepted) != 1:
                    raise Violation('send broadcast %d transactions' % len(sink.accepted), key='send-count')
                h = sink.accepted[0]
                if ref.Tx.parse(h).txid() != t:
                    raise Violation('send returned %s for the transaction %s' % (t, h), key='send-txid')
            else:
                comp = self.c['w']['comp']
                kw.setdefault('leftover', None)
                if not kw['leftover']:
                    kw['leftover'] = self.w.default_change(self.c['ups'])
                if self.positional:
                    args = dict(self.kw, unspents=self.ups, leftover=kw['leftover'])
                    p = type(b).prepare_transaction(self.w.addr['l'], self.outs, comp if self.single else True, *[args[k] for k in ORDER])
                else:
                    if self.single and not (comp and 'compressed' in self.left_out):
                        kw['compressed'] = comp
                    p = type(b).prepare_transaction(self.w.addr['l'], self.outs, unspents=self.ups, **kw)
                if self.rng.random() < 0.3:
                    p = json.dumps(json.loads(p), indent=1)
                h = b.sign_transaction(p)
        except Violation:
            raise
        except Exception as e:
            return 'refused', type(e).__name__
        for o in self.w.bits[1:]:
            h = o.sign_transaction(h, unspents=self.w.unspents(self.c['ups']))
            self.steps = True
        return 'ok', h

    steps = False


def run(case, ctx):
    rng = random.Random(case['rs'])
    W.log.clear()
    W.rates = newprices(rng)
    Clock.now += 7200
    base = Request(case, [], rng)
    want = base.ask()
    if not case['combine'] and want[0] == 'ok' and Request(case, [], rng).ask() != want:
        ctx.obs('other_randomness')  # selections that do not depend on the random module alone cannot be compared
        drain(W)
        return
    for words in case['words']:
        q = Request(case, words, rng)
        got = q.ask()
        if got != want and not got[0] == want[0] == 'refused':
            raise Violation('the same request in other words (%s) gives %s instead of %s' % (', '.join(words), str(got)[:600], str(want)[:600]), key='differ:' + words[0])
        for w in q.done:
            ctx.obs('reworded:' + w)
        ctx.obs('same' if want[0] == 'ok' else 'refused_alike')
        ctx.obs('combined_rewordings', len(set(q.done)) > 1)
        ctx.obs('cosigned', q.steps)
        ctx.shape(case['w']['kind'], sorted(set(q.done)), want[0], case['combine'], case['abs'], bool(case['msg']))
    drain(W)
    if want[0] == 'ok':
        ctx.obs('multisig', not base.single)
        ctx.obs('segwit', any(u[3] == 's' for u in case['ups']))
        ctx.obs('uncompressed', base.single and not case['w']['comp'])
        ctx.obs('fiat', bool(case['fiat']))
