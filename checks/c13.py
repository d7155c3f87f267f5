"""C13: cached rates and fees are fresh enough and never mixed up."""
import random
import sys
import time
from decimal import Decimal as D
from fractions import Fraction as F

from vlib import gen, ref, world
from vlib.core import Violation
from checks.c12 import FIAT, PREC, UNITS, floors
from checks.common import drain

LEVEL = 'exploration'
QUOTA = {'quick': 2400, 'thorough': 40000}
RULE = ('seeded histories (20-120 steps) of conversions, balance displays, fee lookups, transactions without explicit fee, clock '
        'advances (exactly at, just before and just after expiry), cache-time changes, provider value changes and failures, on a '
        'virtual clock with a freshly imported library; an online checker compares every answer with the responses the providers '
        'served and their age; distinct = (answer class, key, cache-time class, history prefix class)')
REQUIRED = ['rate_fetches', 'rate_hits', 'rate_expired_refetch', 'rate_errors', 'fee_fetches', 'fee_hits', 'fee_expired_refetch',
            'fee_fallback_last', 'fee_fallback_default', 'at_exact_expiry', 'other_key_requests_interleaved', 'wallet_calls']
ASSUMPTIONS = ['the clock does not run backwards', 'fees served are at least 1', 'default cache times 60 s and 600 s, default fees 72 and 62']
FK = ['conn', 'timeout', 'connect_timeout', 'status:500', 'status:503', 'status:429', 'status:404']


class Clock:
    now = 1.6e9


def setup(ctx):
    global W
    time.time = lambda: Clock.now
    time.monotonic = lambda: Clock.now - 1.5e9
    time.time_ns = lambda: int(Clock.now * 10 ** 9)
    time.monotonic_ns = lambda: int((Clock.now - 1.5e9) * 10 ** 9)
    W = world.World().install()
    fresh()


def fresh():
    for m in [m for m in sys.modules if m == 'bit' or m.startswith('bit.')]:
        del sys.modules[m]
    import bit  # noqa

# answers of the fee provider that hold no fee
GARBAGE = ['<html>busy</html>', '', '{', '{}', '[]', 'null', '{"error": "busy"}', '{"minimumFee": 1}']


def directed(ctx):
    rng = random.Random('c13 %s' % ctx.seed)
    for cur in FIAT:
        o = 'usd' if cur != 'usd' else 'jpy'
        base = [['conv', cur, 3], ['price'], ['conv', cur, 7], ['adv', 60], ['conv', cur, 9], ['back', cur, 123456789], ['conv', o, 5],
                ['adv', 0.25], ['conv', cur, 11], ['back', o, 99999999], ['adv', 59], ['price'], ['back', cur, 55555555],
                ['adv', 1], ['rfault', 'conn', 'conn'], ['conv', cur, 2], ['adv', 0.25], ['conv', cur, 2], ['conv', o, 3],
                ['rfault', 'conn', None], ['conv', cur, 2], ['rfault', None, None], ['conv', cur, 2]]
        yield {'ops': base, 'rs': rng.getrandbits(32)}
    for fast in (True, False):
        for body in GARBAGE:
            body = 'body:' + body
            yield {'ops': [['ffault', body], ['fee', fast], ['tx', 'usd', 11], ['ffault', None], ['fee', fast], ['fees'], ['adv', 601],
                           ['ffault', body], ['fee', fast], ['tx', 'usd', 12], ['ffault', None], ['fee', fast], ['fees'], ['adv', 60],
                           ['ffault', body], ['fee', fast], ['adv', 560], ['tx', 'eur', 11], ['ffault', None], ['tx', 'eur', 13],
                           ['fee', fast], ['fees'], ['adv', 700], ['ffault', body], ['fee', fast], ['ffault', 'conn'], ['fee', fast],
                           ['ffault', None], ['fee', fast], ['fee', not fast]], 'rs': rng.getrandbits(32)}
        yield {'ops': [['ffault', 'conn'], ['fee', fast], ['fee', not fast], ['ffault', None], ['fee', fast], ['fees'], ['fee', fast],
                       ['adv', 600], ['fee', fast], ['adv', 0.25], ['ffault', 'timeout'], ['fee', fast], ['fee', not fast],
                       ['ffault', None], ['fee', not fast], ['fee', fast], ['fees'], ['fee', fast], ['fee', not fast],
                       ['adv', 599], ['fee', fast], ['fee', not fast], ['adv', 2], ['ffault', 'status:503'], ['fee', fast],
                       ['fee', not fast], ['ftime', 0], ['ffault', None], ['fee', fast], ['adv', 0.25], ['fee', fast]],
               'rs': rng.getrandbits(32)}


def generate(rng, ctx):
    n = rng.choice([20, 40, 120]) if not ctx.thorough else rng.choice([20, 60, 300])
    curs = rng.sample(FIAT, rng.choice([1, 2, 3, 5])) + (['btc'] if rng.random() < 0.3 else [])
    ops = []
    rt, ft = 60, 600
    for _ in range(n):
        x = rng.random()
        if x < 0.28:
            ops.append(['conv', rng.choice(curs), rng.randint(1, 10 ** rng.randint(1, 6))])
        elif x < 0.36:
            ops.append(['back', rng.choice(curs), rng.randint(1, 10 ** rng.randint(3, 12))])
        elif x < 0.38:
            ops.append(['bal', rng.choice(curs)])
        elif x < 0.40:
            ops.append(['tx', rng.choice(curs), rng.randint(10, 50)])
        elif x < 0.60:
            ops.append(['fee', rng.random() < 0.5])
        elif x < 0.80:
            b = rng.choice([rt, ft, 1, 10, 3600])
            ops.append(['adv', max(0, rng.choice([b, b + 0.25, b - 0.25, b / 2, b / 4, 0, 0.25, b - 1, b + 1, 1]))])
        elif x < 0.85:
            ops.append(['price'])
        elif x < 0.89:
            ops.append(['fees'])
        elif x < 0.92:
            ops.append(['rfault', rng.choice(FK + [None] * 6), rng.choice(FK + [None] * 6)])
        elif x < 0.95:
            ops.append(['ffault', rng.choice(FK + [None] * 8) if rng.random() < 0.85 else 'body:' + rng.choice(GARBAGE)])
        elif x < 0.97:
            rt = rng.choice([0, 0.25, 1, 10, 30, 60, 120, 600, 86400])
            ops.append(['rtime', rt])
        elif x < 0.985:
            ft = rng.choice([0, 0.25, 1, 10, 60, 300, 600, 3600])
            ops.append(['ftime', ft])
        else:
            ops.append(['rawfee', rng.random() < 0.5] if rng.random() < 0.5 else ['rawconv', rng.choice(curs), rng.randint(1, 999)])
    return {'ops': ops, 'rs': rng.getrandbits(32)}


def newprices(rng):
    bp, bc = {}, {}
    for c in FIAT:
        base = {'jpy': 15e6, 'krw': 1.3e8, 'clp': 9e7, 'isk': 1.3e7}.get(c, 1e5)
        bp[c] = '%.2f' % (base * (0.1 + rng.random()))
        bc[c] = '%.13f' % (1 / (base * (0.1 + rng.random())))
    return {'bitpay': bp, 'bcinfo': bc}


def newfees(rng):
    v = rng.sample(range(1, 60), 4)
    if rng.random() < 0.2:
        v[rng.randrange(4)] = rng.choice([100, 253, 500, 1000])
    return dict(zip(['fastestFee', 'halfHourFee', 'hourFee', 'minimumFee'], v))


def run(case, ctx):
    rng = random.Random(case['rs'])
    Clock.now = 1.6e9 + rng.randint(0, 1000)
    fresh()
    import bit
    from bit.network import fees as Fe, rates as R
    from bit.network import currency_to_satoshi_cached, satoshi_to_currency_cached, get_fee_cached
    w = W
    w.led = {'main': world.Ledger('main'), 'test': world.Ledger('test')}
    w.log.clear()
    w.faults = {}
    w.rates, w.fee, w.rate_fault, w.fee_fault = newprices(rng), newfees(rng), {}, None
    key = bit.Key.from_int(rng.randint(1, ref.N - 1))
    dest = ref.p2pkh_addr(ref.pubkey(rng.randint(1, ref.N - 1), True), 'main')
    bal = rng.randint(10 ** 7, 10 ** 12)
    w.led['main'].fund(ref.script_for(key.address), bal, gen.txid(rng), 1, 3)
    rt, ft = 60, 600
    served = {}  # currency -> [(time, satoshi per unit)]
    own = {}  # currency or level -> time of the last fetch made by a call for it
    fserved = {True: [], False: []}
    last_op = None

    def new_rates(evs, cur):
        out = []
        for e in evs:
            if e['op'] == 'rate:' + cur and e['outcome'] == 200:
                p = w.rates[e['service']][cur]
                out.append(F(10 ** 8) / F(p) if e['service'] == 'bitpay' else F(p) * 10 ** 8)
        return out

    def fee_events(evs):
        return [e['outcome'] == 200 and not garbage() for e in evs if e['op'] == 'fees']

    def garbage():
        return (w.fee_fault or '').startswith('body:')

    def commit(evs):
        """Take the responses of one call into the record of what was served."""
        for c in {e['op'][5:] for e in evs if e['op'].startswith('rate:')}:
            served.setdefault(c, []).extend((Clock.now, s) for s in new_rates(evs, c))
        for good in fee_events(evs):
            if good:
                fserved[True].append((Clock.now, w.fee['fastestFee']))
                fserved[False].append((Clock.now, w.fee['hourFee']))

    def judge_rate(cur, got, err, expect, evs, what):
        """expect(rate) -> set of acceptable results."""
        if cur in UNITS:
            if err or got not in expect(F(10 ** UNITS[cur])):
                raise Violation('%s gave %r (%s)' % (what, got, err), key='unit')
            return
        req = [e['op'][5:] for e in evs if e['op'].startswith('rate:')]
        if any(c != cur for c in req):
            raise Violation('%s asked for the rates of %s' % (what, req), key='rate-mixup')
        new = new_rates(evs, cur)
        t0 = own.get(cur)
        at = t0 is not None and Clock.now - t0 == rt
        before = served.get(cur, [])
        if req:
            if t0 is not None and Clock.now - t0 <= rt:
                raise Violation('%s refetched after %s s with a cache time of %s s' % (what, Clock.now - t0, rt), key='early-refetch')
            if not new:
                if err is None:
                    raise Violation('%s gave %r although no rate could be fetched and the cached one (if any) is older than %s s' % (
                        what, got, rt), key='stale-rate')
                ctx.obs('rate_errors')
                ctx.shape('rerr', cur, rt)
                return
            if err is not None:
                raise Violation('%s failed (%s) although a provider answered' % (what, err), key='rate-failed')
            cand = [new[-1]]
            ctx.obs('rate_expired_refetch' if t0 is not None else 'rate_fetches')
            own[cur] = Clock.now
        else:
            if err is not None:
                raise Violation('%s failed (%s) without asking a provider' % (what, err), key='rate-failed')
            cand = [s for t, s in before if Clock.now - t <= rt]
            ctx.obs('rate_hits')
            if at:
                ctx.obs('at_exact_expiry')
        if not any(got in expect(c) for c in cand):
            raise Violation('%s gave %r; providers served (age, satoshi per %s): %s; cache time %s s, %d rate requests made' % (
                what, got, cur, [(Clock.now - t, float(s)) for t, s in before][-4:] + [float(c) for c in new], rt, len(req)),
                key='rate-wrong')
        ctx.shape('r', cur, len(req), rt, at, len(served))

    def judge_fee(fast, good, evs, what):
        """good(candidates) -> the observed fee is one of them."""
        before = fserved[fast]
        t0 = own.get(fast)
        req = fee_events(evs)
        at = t0 is not None and Clock.now - t0 == ft
        if req and t0 is not None and Clock.now - t0 <= ft:
            raise Violation('%s refetched after %s s with a cache time of %s s' % (what, Clock.now - t0, ft), key='early-refetch-fee')
        if any(req):
            cand = [w.fee['fastestFee' if fast else 'hourFee']]
            ctx.obs('fee_expired_refetch' if t0 is not None else 'fee_fetches')
            own[fast] = Clock.now
        elif req:
            # the last known fee of this level: the one fetched for it or the one served last
            cand = [f for t, f in before if t == t0] if t0 is not None else [DEFAULTS[fast]]
            cand += [f for _, f in before[-1:]]
            ctx.obs('fee_fallback_last' if t0 is not None else 'fee_fallback_default')
        else:
            cand = [f for t, f in before if Clock.now - t <= ft]
            ctx.obs('fee_hits')
            if at:
                ctx.obs('at_exact_expiry')
        if not good(cand):
            raise Violation('%s does not match; acceptable %s, served (age, fee): %s, cache time %s s, requests (successful?) %s' % (
                what, cand, [(Clock.now - t, f) for t, f in before][-4:], ft, req), key='fee-wrong')
        ctx.shape('f', fast, req, ft, at, t0 is None)

    def attempt(call):
        k0 = len(w.log)
        err = got = None
        try:
            got = call()
        except ConnectionError as e:
            err = e
        except Exception as e:  # what the fee provider sends makes no sense
            if not garbage() or not fee_events(w.log[k0:]):
                raise
            err = e
            ctx.obs('fee_answers_not_understood')
        drain(w)
        return got, err, w.log[k0:]

    def rate_call(cur, call, expect, what):
        got, err, evs = attempt(call)
        judge_rate(cur, got, err, expect, evs, what)
        commit(evs)

    for op in case['ops']:
        k = op[0]
        if k == 'adv':
            Clock.now += op[1]
        elif k == 'price':
            w.rates = newprices(rng)
        elif k == 'fees':
            w.fee = newfees(rng)
        elif k == 'rfault':
            w.rate_fault = {'bitpay': op[1], 'bcinfo': op[2]}
        elif k == 'ffault':
            w.fee_fault = op[1]
        elif k == 'rtime':
            rt = op[1]
            R.set_rate_cache_time(rt)
        elif k == 'ftime':
            ft = op[1]
            Fe.set_fee_cache_time(ft)
        elif k == 'conv':
            rate_call(op[1], lambda: currency_to_satoshi_cached(op[2], op[1]), lambda s: floors(s * op[2], 1),
                       'currency_to_satoshi_cached(%r, %r)' % (op[2], op[1]))
        elif k == 'back':
            rate_call(op[1], lambda: F(satoshi_to_currency_cached(op[2], op[1])), lambda s: floors(op[2] / s, 10 ** PREC[op[1]]),
                       'satoshi_to_currency_cached(%r, %r)' % (op[2], op[1]))
        elif k == 'bal':
            rate_call(op[1], lambda: F(key.get_balance(op[1])), lambda s: floors(bal / s, 10 ** PREC[op[1]]),
                       'get_balance(%r)' % op[1])
            ctx.obs('wallet_calls')
        elif k == 'tx':
            # a payment in a fiat currency without an explicit fee uses the cached rate and the fast fee
            from bit.network.meta import Unspent
            ups = [Unspent(10 ** 12, 3, ref.script_for(key.address).hex(), gen.txid(rng), 0, 'p2pkh')]
            got, err, evs = attempt(lambda: key.create_transaction([(dest, op[2], op[1])], unspents=ups))
            if err and garbage() and fee_events(evs):
                if new_rates(evs, op[1]):
                    own[op[1]] = Clock.now
                commit(evs)
                continue
            t = ref.Tx.parse(got) if got else None
            judge_rate(op[1], t and t.outs[0].value, err, lambda s: floors(s * op[2], 1), evs, 'payment of %r %s' % (op[2], op[1]))
            if t:
                fee = 10 ** 12 - sum(o.value for o in t.outs)
                judge_fee(True, lambda cand: any(t.vsize() * c <= fee <= c * (t.vsize() + 8) for c in cand), evs,
                          'fee %d of a %d vbyte transaction' % (fee, t.vsize()))
            elif any(fee_events(evs)):
                own[True] = Clock.now  # the fee was looked up before the rate failed
            commit(evs)
            ctx.obs('wallet_calls')
        elif k == 'fee':
            v, err, evs = attempt(lambda: ask(get_fee_cached, op[1], rng.random()))
            if err and garbage() and fee_events(evs):
                continue  # nothing was learned
            if err:
                raise Violation('get_fee_cached failed: %s' % err, key='fee-failed')
            judge_fee(op[1], lambda cand: v in cand, evs, 'get_fee_cached(fast=%s) = %r' % (op[1], v))
            commit(evs)
        elif k == 'rawfee' and not w.fee_fault:
            k0 = len(w.log)
            v = ask(Fe.get_fee, op[1], rng.random())
            if v != w.fee['fastestFee' if op[1] else 'hourFee'] or len(w.log) == k0:
                raise Violation('get_fee(%s) = %r, provider says %r' % (op[1], v, w.fee), key='fee-uncached')
            commit(w.log[k0:])
        elif k == 'rawconv' and op[1] in FIAT and not w.rate_fault.get('bitpay'):
            k0 = len(w.log)
            v = R.currency_to_satoshi(op[2], op[1])
            if v not in floors(F(10 ** 8) / F(w.rates['bitpay'][op[1]]) * op[2], 1) or len(w.log) == k0:
                raise Violation('currency_to_satoshi(%r, %r) = %r at %s' % (op[2], op[1], v, w.rates['bitpay'][op[1]]), key='rate-uncached')
            commit(w.log[k0:])
        if k in ('conv', 'back', 'fee'):
            if last_op is not None and last_op != (k == 'fee', op[1]):
                ctx.obs('other_key_requests_interleaved')
            last_op = (k == 'fee', op[1])
        if len(w.log) > 1000:
            w.log.clear()


def ask(f, fast, how):
    if fast and how < 0.3:
        return f()
    return f(fast) if how < 0.6 else f(fast=fast)


DEFAULTS = {True: 72, False: 62}
