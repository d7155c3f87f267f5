"""C19: a wallet's view matches the ledger through any history."""
import random
from fractions import Fraction as F

from vlib import gen, ref, txlab, world
from vlib.core import HarnessError, Violation
from checks import netlab
from checks.c12 import UNITS
from checks.common import drain

LEVEL = 'exploration'
QUOTA = {'quick': 1400, 'thorough': 10000}
RULE = ('seeded economies of 2-5 single-key and multisig wallets on a validating ledger behind the simulated providers: deposits, '
        'payments between wallets (send, cold signing, co-signing over the network), blocks, re-imports, partial and total outages, '
        'lost replies; after each step the view of a synced wallet, every accepted transaction, and the flow of value are compared '
        'with the ledger; distinct = (step kind, wallet kinds, input mix, fault class)')
REQUIRED = ['views_compared', 'payments', 'multisig_payments', 'cold_payments', 'balances_in_units', 'histories_compared',
            'total_outages', 'partial_outages', 'lost_replies', 'reimports', 'conservation_checked', 'sweeps', 'long_histories',
            'bystanders_unchanged']
ASSUMPTIONS = ['no wallet exceeds the result limits of the providers', 'no chain reorganisation']
NONE = object()
FK = ['conn', 'timeout', 'connect_timeout', 'status:503', 'status:429', 'status:502']


def setup(ctx):
    global W
    W = world.World().install()


def directed(ctx):
    for i in range(24):
        yield {'rs': i, 'n': 25, 'net': 'main' if i % 2 else 'test', 'nw': 2 + i % 3, 'f': 0.0}


def generate(rng, ctx):
    return {'rs': rng.getrandbits(32), 'n': rng.randint(8, 30) if not ctx.thorough else rng.randint(8, 70), 'net': rng.choice(['main', 'test']),
            'nw': rng.randint(2, 5), 'f': rng.choice([0.0, 0.2, 0.5]), 'many': rng.random() < 0.06}


class Economy:
    def __init__(self, case, ctx):
        self.ctx, self.net = ctx, case['net']
        self.rng = rng = random.Random(case['rs'])
        w = self.w = W
        w.led = {'main': world.Ledger('main', min_rate=1), 'test': world.Ledger('test', 2 * 10 ** 6, min_rate=1)}
        w.log.clear()
        w.faults = {}
        w.fee_fault = None
        w.too_many = 10 ** 9
        self.led = w.led[self.net]
        self.ws = []
        for i in range(case['nw']):
            kind = 'single' if i == 0 or rng.random() < 0.6 else 'multi'
            self.ws.append(txlab.Wallet(gen.wallet(rng, ctx, self.net, kind, maxn=4 if rng.random() < 0.7 else 15)))
        self.dead = False
        self.views, self.acted = {}, set()
        if case.get('many'):
            # long histories: more than one page of everything
            for x in self.ws:
                for sc in x.script.values():
                    for j in range(rng.choice([0, 1, 24, 25, 26, 27, 49, 50, 51, 60])):
                        self.led.fund(sc, rng.randint(20000, 10 ** 6), gen.txid(rng), rng.randint(0, 3), rng.choice([1, 5, 200]))
            ctx.obs('long_histories')

    def bystanders(self, what):
        """The view of every object that took no part in the last step is what it was (nothing at first)."""
        for n, x in enumerate(self.ws):
            for o in x.bits:
                now = (o.balance, [(u.amount, u.confirmations, u.script, u.txid, u.txindex, u.type) for u in o.unspents],
                       list(o.transactions))
                if id(o) not in self.acted:
                    _, was = self.views.get(id(o), (o, (0, [], [])))
                    if now != was:
                        raise Violation('%s with another wallet changed the view of wallet %d from %s to %s' % (
                            what, n, str(was)[:300], str(now)[:300]), key='bystander')
                    self.ctx.obs('bystanders_unchanged')
                self.views[id(o)] = o, now  # the object stays alive, so ids are not reused
        self.acted.clear()

    def deposit(self):
        rng = self.rng
        x = rng.choice(self.ws)
        for _ in range(rng.randint(1, 4)):
            kind = rng.choice(sorted(x.script))
            t = gen.txid(rng)
            self.led.fund(x.script[kind], rng.choice([rng.randint(20000, 10 ** 6), rng.randint(10 ** 6, 10 ** 10), 2 ** 32]), t,
                          rng.choice([0, 1, 2, 3, rng.randint(0, 2 ** 32 - 1)]), rng.choice([0, 1, 5, 200]))
            if rng.random() < 0.2:
                # the same payload on the other network is none of this wallet's business
                self.w.led['test' if self.net == 'main' else 'main'].fund(x.script[kind], 777, gen.txid(rng), 0, 1)

    def outage(self, p):
        """Some providers fail, but one that serves everything keeps working."""
        rng = self.rng
        self.w.faults = {}
        if rng.random() >= p:
            return
        alive = rng.choice(['blockchair', 'blockstream', 'smartbit'])
        pl = {}
        for s in netlab.SERVICES:
            if s != alive and rng.random() < 0.6:
                pl[s] = [rng.choice(FK), rng.choice([0, 0, 1, 2]), rng.choice([1, 10 ** 6])]
        netlab.install_plan(self.w, pl, (self.net,))
        self.ctx.obs('partial_outages')

    def sync(self, x, obj=None):
        rng, led, ctx = self.rng, self.led, self.ctx
        obj = obj or rng.choice(x.bits)
        self.acted.add(id(obj))
        unit = rng.choice(list(UNITS))
        how = rng.random()
        if how < 0.5:
            us = obj.get_unspents()
            bal = NONE
        else:
            bal = obj.get_balance(unit) if unit != 'satoshi' or rng.random() < 0.5 else obj.get_balance()
            us = obj.unspents
        drain(self.w)
        want, ty = [], {}
        for kind, sc in x.script.items():
            want += netlab.truth_unspents(led, sc)
            ty[sc.hex()] = (x.types[kind][0], kind == 's')
        got = netlab.got_unspents(us)
        if got != sorted(want):
            raise Violation('the wallet sees %s, the ledger has %s' % (str(got)[:500], str(sorted(want))[:500]), key='view')
        for u in us:
            if (u.type, bool(u.segwit)) != ty[u.script]:
                raise Violation('unspent %s:%d has type %s segwit %s, expected %s' % (u.txid, u.txindex, u.type, u.segwit, ty[u.script]),
                                key='spend-type')
        total = sum(u[0] for u in want)
        if obj.balance != total or sum(u.amount for u in obj.unspents) != total:
            raise Violation('balance attribute %r, ledger %d' % (obj.balance, total), key='balance')
        if bal is not NONE and F(bal) * 10 ** UNITS[unit] != total:
            raise Violation('get_balance(%r) = %r, ledger has %d satoshi' % (unit, bal, total), key='balance-unit')
        for un in UNITS:
            s = obj.balance_as(un)
            if F(s) * 10 ** UNITS[un] != total:
                raise Violation('balance_as(%r) = %r, ledger has %d satoshi' % (un, s, total), key='balance-unit')
        ctx.obs('balances_in_units', 4)
        ctx.obs('views_compared')
        if rng.random() < 0.4:
            got = list(obj.get_transactions())
            drain(self.w)
            want = {t for sc in x.script.values() for t, _ in led.hist.get(sc, [])}
            if set(got) != want or set(obj.transactions) != want:
                raise Violation('transactions %s, ledger %s' % (sorted(got)[:5], sorted(want)[:5]), key='history')
            for t in want:
                # listed per address: at most once for each own address it touches
                n = sum(t in [h for h, _ in led.hist.get(sc, [])] for sc in x.script.values())
                if got.count(t) > n or list(obj.transactions).count(t) > n:
                    raise Violation('transaction %s touches %d of the addresses and is listed %d times' % (
                        t, n, max(got.count(t), list(obj.transactions).count(t))), key='history-repeats')
            ctx.obs('histories_compared')

    def request(self, x, how):
        """A payment x can afford -> case for the monitors, or None."""
        rng, led = self.rng, self.led
        ups = [[a, t, v, k, led.height - b + 1 if b is not None else 0, 0xFFFFFFFF]
               for k, sc in sorted(x.script.items()) for t, v, a, b in led.of(sc)]
        if how == 'cold':
            ups = [u for u in ups if u[3] == 'l']
        if not ups or len(ups) > 60:
            return None
        total = sum(u[0] for u in ups)
        rate = rng.choice([1, 2, 5, 20])
        absf = rng.random() < 0.2
        m = gen.message(rng, self.ctx) if rng.random() < 0.15 else None
        if m and len(m.get('bytes') or m['text'].encode()) > 200:
            m = None
        fee = rate
        need = 1500 + sum(gen.in_size(x.spec, u[3]) for u in ups)
        if absf:
            fee = max(rate, int(need * rate))
        budget = total - int(need * (rate + 1)) - 1000
        if budget < 2000:
            return None
        n = rng.choice([1, 1, 1, 2, 3])
        outs, left = [], budget
        sweep = rng.random() < 0.12
        for i in range(n):
            y = rng.choice(self.ws)
            a = y.addr[rng.choice(sorted(y.addr))] if rng.random() < 0.85 else gen.address(rng, self.net)
            v = rng.randint(600, max(601, left // n))
            u = rng.choice(list(UNITS))
            outs.append([a, gen.amount_str(rng, v, u), u, v])
        leftover = None
        y = rng.random()
        if sweep:
            outs = [] if rng.random() < 0.5 else outs[:1]
            z = rng.choice(self.ws)
            leftover = z.addr[rng.choice(sorted(z.addr))]
        elif y < 0.2:
            z = rng.choice(self.ws)
            leftover = z.addr[rng.choice(sorted(z.addr))]
        combine = True if sweep else rng.random() < 0.6 or len(ups) > 18
        return {'w': x.spec, 'ups': ups, 'outs': outs, 'fee': fee, 'abs': absf, 'leftover': leftover, 'combine': combine, 'msg': m,
                'rbf': rng.random() < 0.2, 'mode': 'net', 'rs': rng.getrandbits(32), 'sweep': sweep}

    def pay(self, p):
        from bit.network import NetworkAPI
        rng, led, ctx, w = self.rng, self.led, self.ctx, self.w
        x = rng.choice(self.ws)
        multi = x.spec['kind'] == 'multi'
        how = 'cosign' if multi else rng.choice(['send', 'send', 'send', 'cold'])
        if how == 'cold' and not x.spec['comp']:
            how = 'send'
        case = self.request(x, how)
        if case is None:
            return
        if sum(1 for h in led.hist.values() for t in h if t[1] is None) > 30:
            led.mine()
        before = {id(y): {k: led.balance(s) for k, s in y.script.items()} for y in self.ws}
        self.outage(p)
        lost = rng.random() < p / 4
        if lost:
            svc = rng.choice(netlab.PROVIDERS[('broadcast', self.net)])
            old = w.faults.get((svc, self.net))
            w.faults[(svc, self.net)] = lambda op, n: world.Fault('lost') if op == 'broadcast' else (old(op, n) if old else None)
        kw = txlab.kwargs(case)
        outs = txlab.outputs(case)
        n_acc = len(led.accepted)
        w.log.clear()
        random.seed(case['rs'])
        suffix = '' if self.net == 'main' else '_testnet'
        txid = err = None
        self.acted.update(map(id, x.bits))
        try:
            if how == 'send':
                txid = x.first.send(outs, **kw)
            elif how == 'cold':
                text = type(x.first).prepare_transaction(x.addr['l'], outs, **kw)
                if case['leftover'] is None:
                    case['leftover'] = x.addr['l']
                raw = x.first.sign_transaction(text)
                getattr(NetworkAPI, 'broadcast_tx' + suffix)(raw)
                ctx.obs('cold_payments')
            else:
                raw = x.first.create_transaction(outs, **kw)
                for other in x.bits[1:]:
                    raw = other.sign_transaction(raw)
                getattr(NetworkAPI, 'broadcast_tx' + suffix)(raw)
                ctx.obs('multisig_payments')
        except ConnectionError as e:
            err = e
        drain(w)
        w.faults = {}
        was_lost = any(e['outcome'] == 'lost' for e in w.log)
        new = led.accepted[n_acc:]
        if err is not None and not was_lost:
            raise Violation('payment failed (%s) although providers work; the node said: %s; requests %s' % (
                err, [r[1] for r in led.rejected[-1:]], [(e['service'], e['op'], e['outcome']) for e in w.log][-12:]), key='payment')
        if was_lost:
            ctx.obs('lost_replies')
        if len(new) != 1:
            raise Violation('%d transactions entered the ledger for one payment' % len(new), key='count')
        r = txlab.Rec()
        r.case, r.wallet, r.prev, r.hex = case, x, x.prevouts(case['ups']), new[0]
        r.tx = ref.Tx.parse(new[0])
        try:
            r.fee = sum(r.prev[(i.txid, i.vout)][0] for i in r.tx.ins) - sum(o.value for o in r.tx.outs)
        except KeyError as e:
            raise Violation('spends %s, not an unspent of the wallet' % e, key='foreign-input')
        r.vsize = r.tx.vsize()
        if how == 'send' and err is None and txid != r.tx.txid():
            raise Violation('send() returned %s, the ledger has %s' % (txid, r.tx.txid()), key='txid')
        change = txlab.mon_outputs(r, ctx)
        txlab.mon_messages(r, ctx)
        txlab.mon_sequences(r, ctx)
        txlab.mon_fee(r, ctx, change)
        txlab.mon_selection(r, ctx)
        # flow of value
        spent = {}
        for i in r.tx.ins:
            v, sc = r.prev[(i.txid, i.vout)]
            spent[sc] = spent.get(sc, 0) + v
        left = ref.script_for(case['leftover'] or x.default_change(case['ups']))
        gain = {}
        for a, _, _, v in case['outs']:
            s = ref.script_for(a)
            gain[s] = gain.get(s, 0) + v
        if change:
            gain[left] = gain.get(left, 0) + change
        for y in self.ws:
            for k, s in y.script.items():
                want = before[id(y)][k] - spent.get(s, 0) + gain.get(s, 0)
                if led.balance(s) != want:
                    raise Violation('balance of %s is %d after the payment, %d expected' % (y.addr[k], led.balance(s), want), key='flow')
        if led.total() + led.fees != led.minted:
            raise HarnessError('ledger does not balance')
        ctx.obs('conservation_checked')
        ctx.obs('payments')
        if case['sweep']:
            ctx.obs('sweeps')
        ctx.shape('pay', how, txlab.shape_of(case), was_lost)
        if rng.random() < 0.7:
            self.sync(x)

    def total_outage(self):
        rng, w, led = self.rng, self.w, self.led
        x = rng.choice(self.ws)
        self.acted.add(id(x.first))
        kind = rng.choice(FK)
        w.faults = {(s, self.net): (lambda op, n: world.Fault(kind)) for s in netlab.SERVICES}
        n = len(led.accepted), len(led.rejected)
        op = rng.choice(['unspents', 'balance', 'transactions', 'send'])
        dest = gen.address(rng, self.net)
        try:
            if op == 'unspents':
                r = x.first.get_unspents()
            elif op == 'balance':
                r = x.first.get_balance()
            elif op == 'transactions':
                r = x.first.get_transactions()
            else:
                r = x.first.create_transaction([(dest, 1000, 'satoshi')], fee=5)
            raise Violation('%s during a total outage (%s) answered %r' % (op, kind, r), key='outage')
        except ConnectionError:
            self.ctx.obs('total_outages')
        drain(w)
        if n != (len(led.accepted), len(led.rejected)):
            raise Violation('something reached the ledger during an outage', key='outage')
        w.faults = {}
        self.sync(x, x.first)

    def reimport(self):
        rng = self.rng
        i = rng.randrange(len(self.ws))
        self.ws[i] = txlab.Wallet(self.ws[i].spec)
        self.ctx.obs('reimports')
        self.sync(self.ws[i])


def run(case, ctx):
    e = Economy(case, ctx)
    e.deposit()
    e.bystanders('creating')
    for _ in range(case['n']):
        x = e.rng.random()
        if x < 0.15:
            e.deposit()
        elif x < 0.25:
            e.led.mine()
        elif x < 0.72:
            e.pay(case['f'])
        elif x < 0.92:
            e.outage(case['f'])
            e.sync(e.rng.choice(e.ws))
            e.w.faults = {}
        elif x < 0.96:
            e.total_outage()
        else:
            e.reimport()
        e.bystanders('a step')
    # at the end every wallet sees the truth through every one of its objects
    e.w.faults = {}
    for x in e.ws:
        for o in x.bits:
            e.sync(x, o)
            e.bystanders('synchronising')
