"""C32: an interrupted request does no lasting harm."""
import random
import sys
import time

from vlib import core, gen, ref, txlab, world
from vlib.core import HarnessError, Violation
from checks import netlab
from checks.c13 import FIAT, Clock, fresh, newfees, newprices
from checks.c26 import photo_u
from checks.c30 import settings
from checks.common import drain

LEVEL = 'exploration'
QUOTA = {'quick': 700, 'thorough': 12000}
RULE = ('one request per case (creating, preparing, signing, sending, synchronising, converting, asking fees, exporting, building contracts), '
        'interrupted by KeyboardInterrupt or MemoryError before the n-th line of the library, or before or after the n-th answer of the network, for '
        'several n spread over the whole request; afterwards every kind of request is made with the same objects and compared with '
        'those of an undisturbed run, the ledger and the current prices; distinct = (wallet, request, interrupt, where, outcome)')
REQUIRED = ['interrupts', 'line_interrupts', 'network_interrupts', 'memory_errors', 'probes_compared', 'views_compared', 'prices_compared', 'multisig',
            'warm_caches', 'expired_caches', 'after_answer', 'settings_compared', 'arguments_compared', 'create', 'cold', 'cosign', 'sync', 'send', 'convert',
            'fee', 'key', 'contract', 'parse']
ASSUMPTIONS = ['connecting to a node is not interrupted', 'balance and unspents may be of different age until the next synchronisation',
               'interrupted in the midst of storing a price, the former one may be used for one more cache time', 'an interrupt may be answered by another exception, or come too late']
OPS = ['create', 'create', 'default', 'fiat', 'cold', 'cosign', 'sync', 'balance', 'txs', 'send', 'convert', 'fee', 'key', 'contract', 'parse']
TOOL = 3
WALL = 90


def setup(ctx):
    global W
    time.time = lambda: Clock.now
    time.monotonic = lambda: Clock.now - 1.5e9
    W = world.World().install()
    fresh()


def base_case(rng, ctx, op):
    kind = 'multi' if op in ('cosign', 'contract') else None
    c = gen.tx_case(rng, ctx, msg=0.3, rbf=0.2, big=False, kind=kind, mode='direct')
    del c['ups'][20:]
    c.update(op=op, exc=rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError']), where=rng.choice(['line', 'line', 'line', 'before', 'after']),
             at=[rng.random() for _ in range(6)], warm=rng.random() < 0.5, pause=rng.choice([0, 10, 61, 601, 10 ** 5]), synced=rng.random() < 0.5,
             cur=rng.choice(FIAT), fail=rng.random() < 0.1)
    return c


def directed(ctx):
    rng = random.Random('c32 %s' % ctx.seed)
    for op in sorted(set(OPS)):
        for where in ('line', 'before', 'after'):
            for warm, pause in ((True, 61), (True, 601), (False, 0)):
                n = 24 if where == 'line' else 8
                yield dict(base_case(rng, ctx, op), where=where, warm=warm, pause=pause, at=[(i + rng.random()) / n for i in range(n)],
                           exc='KeyboardInterrupt')
    for op in ('convert', 'fee', 'sync', 'balance', 'txs'):
        for warm in (True, False):
            # every line
            yield dict(base_case(rng, ctx, op), where='line', warm=warm, pause=601, at=[i / 60 for i in range(60)], fail=False)


def generate(rng, ctx):
    return base_case(rng, ctx, rng.choice(OPS))


class Interrupter:
    """Counts the lines of the library that are executed; raises before the n-th."""

    def __init__(self, at=None, exc=KeyboardInterrupt):
        self.at, self.exc, self.n, self.hit = at, exc, 0, None

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(TOOL, 'interrupts')
        m.register_callback(TOOL, m.events.LINE, self.line)
        m.set_events(TOOL, m.events.LINE)
        return self

    def line(self, code, line):
        if code.co_filename.startswith(core.BITDIR):
            self.n += 1
            if self.at is not None and self.n == self.at + 1:
                self.hit = '%s:%d' % (code.co_filename[len(core.BITDIR) + 1:], line)
                raise self.exc('interrupted')

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(TOOL, 0)
        m.register_callback(TOOL, m.events.LINE, None)
        m.free_tool_id(TOOL)


class Setup:
    """Everything one run needs; built the same way every time."""

    def __init__(self, case):
        Clock.now = 1.6e9
        fresh()
        from bit.network import get_fee_cached, currency_to_satoshi_cached
        self.case = case
        rng = random.Random(case['rs'])
        W.led = {'main': world.Ledger('main'), 'test': world.Ledger('test')}
        W.faults, W.nodes, W.fee_fault, W.rate_fault, W.barrier = {}, {}, None, {}, None
        W.reset_counters()
        W.rates, W.fee = newprices(rng), newfees(rng)
        self.w = w = txlab.Wallet(case['w'])
        self.net = w.net
        self.led = W.led[w.net]
        for a, t, v, kind, conf, seq in case['ups']:
            self.led.fund(w.script[kind], a, t, v, conf)
        netlab.populate(self.led, w.script['l'], rng, 3, 1, 2, 0)
        self.b = w.first
        self.ups = w.unspents(case['ups'])
        self.outs = txlab.outputs(case)
        if case['synced']:
            self.b.get_unspents()
            self.b.get_transactions()
        if case['warm']:
            currency_to_satoshi_cached(1, case['cur']), get_fee_cached(), get_fee_cached(False)
        Clock.now += case['pause']
        W.rates, W.fee = newprices(rng), newfees(rng)
        self.rng = rng
        self.half = None
        if case['op'] == 'cosign':
            random.seed(case['rs'])
            self.half = self.attempt(lambda: self.w.bits[0].create_transaction(self.outs, unspents=self.ups, **txlab.kwargs(case)))[1]
        self.whole = self.prepared = None
        if case['op'] in ('parse', 'cold'):
            from bit.exceptions import InsufficientFunds
            kw = txlab.kwargs(case)
            kw.setdefault('leftover', w.default_change(case['ups']))
            if not case['w']['kind'] == 'multi':
                kw['compressed'] = case['w']['comp']
            try:
                random.seed(case['rs'])
                self.prepared = type(self.b).prepare_transaction(w.addr['l'], self.outs, unspents=self.ups, **kw)
                self.whole = self.b.sign_transaction(self.prepared)
            except InsufficientFunds:
                pass
        if case['fail']:
            down = world.Fault('conn')
            for s in netlab.SERVICES[:3]:
                W.faults[s, w.net] = lambda op, k: down
        W.log.clear()

    def photo(self):
        return [photo_u(self.ups), list(self.outs)]

    @staticmethod
    def attempt(f):
        try:
            return ['ok', f()]
        except Exception as e:
            if isinstance(e, (Violation, HarnessError)) or not core.from_bit(e):
                raise
            return ['refused', type(e).__name__]

    def perform(self):
        case, b, w = self.case, self.b, self.w
        from bit.network import get_fee_cached, currency_to_satoshi_cached, satoshi_to_currency_cached
        op, kw = case['op'], txlab.kwargs(case)
        random.seed(case['rs'])
        if op == 'send' and not hasattr(b, 'send'):
            op = 'default'
        if op == 'create':
            return b.create_transaction(self.outs, unspents=self.ups, **kw)
        if op == 'default':
            kw.pop('fee'), kw.pop('absolute_fee', None)
            return b.create_transaction(self.outs, unspents=self.ups, **kw)
        if op == 'fiat':
            return b.create_transaction(self.outs + [(w.addr['l'], '0.5', case['cur'])], unspents=self.ups, **kw)
        if op == 'cold':
            kw.setdefault('leftover', w.default_change(case['ups']))
            if case['w']['kind'] != 'multi':
                kw['compressed'] = case['w']['comp']
            p = type(b).prepare_transaction(w.addr['l'], self.outs, unspents=self.ups, **kw)
            return p, b.sign_transaction(p)
        if op == 'cosign':
            if self.half is None or len(w.bits) < 2 or not isinstance(self.half, str):
                return None
            return w.bits[1].sign_transaction(self.half, unspents=self.ups)
        if op == 'sync':
            return b.get_unspents() and None
        if op == 'balance':
            return b.get_balance(case['cur']) and None
        if op == 'txs':
            return b.get_transactions() and None
        if op == 'send':
            return b.send([(w.addr['l'], 1000, 'satoshi')], unspents=None if case['synced'] else self.ups, fee=300, absolute_fee=True)
        if op == 'convert':
            return currency_to_satoshi_cached(5, case['cur']), satoshi_to_currency_cached(10 ** 8, case['cur']), b.balance_as(case['cur']) and None
        if op == 'fee':
            return get_fee_cached(), get_fee_cached(False)
        if op == 'key':
            return self.keys(txlab.Wallet(case['w']).first)
        if op == 'contract':
            x = txlab.Wallet(case['w'])
            return [(o.address, o.segwit_address, o.redeemscript) for o in x.bits]
        if op == 'parse':
            from bit.transaction import calc_txid, deserialize
            return self.whole and (calc_txid(self.whole), repr(deserialize(self.whole)), deserialize(self.whole).to_hex())
        raise HarnessError(op)

    def keys(self, b):
        out = [b.address, b.segwit_address, repr(b), b.public_key]
        if hasattr(b, 'to_wif'):
            s = b.sign(b'data' * 8)
            out += [b.to_wif(), b.to_hex(), b.to_int(), b.to_der(), b.to_pem(), s, b.verify(s, b'data' * 8), b.verify(s, b'other'), b.is_compressed(),
                    type(b)(b.to_wif()) == b]
        return out

    def probe(self):
        """Everything one may ask for afterwards, with the same objects."""
        from bit.network import get_fee_cached, currency_to_satoshi_cached, satoshi_to_currency_cached, currency_to_satoshi
        case, b, w = self.case, self.b, self.w
        out = []

        def note(what, f):
            random.seed(case['rs'] + 1)
            out.append((what, self.attempt(f)))

        def sign():
            h = [b.create_transaction(self.outs, unspents=self.ups, **txlab.kwargs(case))]
            for o in w.bits[1:]:
                h.append(o.sign_transaction(h[-1], unspents=self.ups))
            return h

        note('creating and signing', sign)
        kw = txlab.kwargs(case)
        kw.pop('fee'), kw.pop('absolute_fee', None)
        note('creating with the default fee', lambda: b.create_transaction(self.outs[:1], unspents=self.ups, **kw))
        note('a fiat amount', lambda: b.create_transaction([(w.addr['l'], 1, case['cur'])], unspents=self.ups, fee=300, absolute_fee=True))
        if case['op'] != 'cosign' or self.half is not None:
            note('co-signing', lambda: [o.sign_transaction(self.half, unspents=self.ups) for o in w.bits[1:2] if isinstance(self.half, str)])
        if self.prepared:
            note('signing what was prepared', lambda: b.sign_transaction(self.prepared))
        note('keys', lambda: self.keys(b))
        other = 'usd' if case['cur'] != 'usd' else 'jpy'
        for c in (case['cur'], other, 'btc'):
            note('rate ' + c, lambda: (currency_to_satoshi_cached(7, c), currency_to_satoshi(7, c), satoshi_to_currency_cached(10 ** 9, c)))
        note('fees', lambda: (get_fee_cached(), get_fee_cached(False)))
        Clock.now += 700
        W.rates, W.fee = newprices(random.Random(case['rs'] + 5)), newfees(random.Random(case['rs'] + 6))
        W.faults = {}
        for c in (case['cur'], other):
            note('later rate ' + c, lambda: currency_to_satoshi_cached(7, c))
        note('later fees', lambda: (get_fee_cached(), get_fee_cached(False)))
        note('another key', lambda: self.keys(txlab.Wallet(case['w']).first))
        return out

    def views(self, what, ctx):
        b, w, led = self.b, self.w, self.led
        us = sorted(x for sc in w.script.values() for x in netlab.truth_unspents(led, sc))
        ts = set(h for sc in w.script.values() for h, _ in led.hist.get(sc, []))
        b.get_unspents()
        got = netlab.got_unspents(b.unspents)
        if got != us or b.balance != sum(u[0] for u in us):
            raise Violation('%s: the next synchronisation gives %d unspents, balance %r; ledger %d, %r' % (
                what, len(got), b.balance, len(us), sum(u[0] for u in us)), key='view')
        b.get_transactions()
        if set(b.transactions) != ts:
            raise Violation('%s: the next synchronisation gives %d transactions; ledger %d' % (what, len(b.transactions), len(ts)), key='view')
        if b.get_balance() != str(sum(u[0] for u in us)):
            raise Violation('%s: get_balance gives %s, ledger %d' % (what, b.get_balance(), sum(u[0] for u in us)), key='view')
        for e in W.log:
            if e['service'] in netlab.SERVICES and e['timeout'] not in (10, (10, 10)):
                raise Violation('%s: %s was asked with timeout %r' % (what, e['service'], e['timeout']), key='timeout')
        ctx.obs('views_compared')


def run(case, ctx):
    exc = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[case['exc']]
    op, where = case['op'], case['where']
    # undisturbed
    s = Setup(case)
    with Interrupter() as i:
        want = s.attempt(s.perform)
    total = i.n if where == 'line' else len(W.log)
    calm = s.probe()
    drain(W)
    s.views('undisturbed', ctx)
    if not total:
        ctx.obs('nothing_to_interrupt')
        return
    for at in sorted(set(int(x * total) for x in case['at'])):
        s = Setup(case)
        photo, before = s.photo(), settings()
        fired = []

        def answer(ev, n=[0]):
            n[0] += 1
            if n[0] == at + 1:
                fired.append('request %d' % n[0])
                raise exc('interrupted')

        got = None
        if where == 'line':
            it = Interrupter(at, exc)
            try:
                with it:
                    got = s.attempt(s.perform)
            except exc:
                pass
            if it.hit:
                fired.append(it.hit)
        else:
            try:
                with Wire(answer, where == 'after'):
                    got = s.attempt(s.perform)
            except exc:
                pass
        drain(W)
        if not fired:
            raise HarnessError('%s: nothing was interrupted at %d of %d' % (op, at, total))
        what = '%s (%s wallet) interrupted by %s %s %s' % (op, case['w']['kind'], case['exc'], 'at' if where == 'line' else where, fired[0])
        if got is not None and got[0] == 'ok' and want[0] == 'ok' and got != want and op != 'send':
            raise Violation('%s gave %r instead of %r' % (what, got, want), key='result:' + op)
        after = settings()
        if after != before:
            d = next(k for k in before if before[k] != after[k])
            raise Violation('%s changed the %s from %r to %r' % (what, d, before[d], after[d]), key='setting:' + d)
        ctx.obs('settings_compared')
        if s.photo() != photo:
            raise Violation('%s changed its arguments' % what, key='arguments')
        ctx.obs('arguments_compared')
        # between the two assignments of a cache entry: one more cache time with the former price may pass
        loose = where == 'line' and fired[0].startswith(('network/rates', 'network/fees'))
        for (name, a), (_, b) in zip(s.probe(), calm):
            if loose and name.startswith(('rate', 'fees', 'a fiat', 'creating with')):
                continue
            if a != b:
                raise Violation('%s: %s afterwards gives %s instead of %s' % (what, name, str(a)[:300], str(b)[:300]), key='after:' + name)
            ctx.obs('probes_compared')
        ctx.obs('prices_compared')
        drain(W)
        s.views(what, ctx)
        drain(W)
        ctx.obs('interrupts')
        ctx.obs('line_interrupts' if where == 'line' else 'network_interrupts')
        if where == 'after':
            ctx.obs('after_answer')
        if exc is MemoryError:
            ctx.obs('memory_errors')
        ctx.obs(op if op in REQUIRED else 'other')
        if case['w']['kind'] == 'multi':
            ctx.obs('multisig')
        if case['warm']:
            ctx.obs('expired_caches' if case['pause'] > 60 else 'warm_caches')
        ctx.shape(op, case['w']['kind'], where, case['exc'], fired[0], case['warm'], got is None or got[0], case['fail'])


class Wire:
    """Interrupts before or after an answer of the network."""

    def __init__(self, hook, after):
        self.hook, self.after = hook, after

    def __enter__(self):
        import requests
        self.cls = requests.adapters.HTTPAdapter
        self.real = self.cls.send

        def send(adapter, request, *a, **k):
            if not self.after:
                self.hook(request)
            try:
                return self.real(adapter, request, *a, **k)
            finally:
                if self.after:
                    self.hook(request)

        self.cls.send = send

    def __exit__(self, *a):
        self.cls.send = self.real
