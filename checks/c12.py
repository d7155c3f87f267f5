"""C12: currency conversion is exact."""
import random
import re
from decimal import Decimal as D
from fractions import Fraction as F

from vlib import world
from vlib.core import Violation
from checks.common import drain

LEVEL = 'exploration'
QUOTA = {'quick': 60000, 'thorough': 1200000}
RULE = ('seeded amounts (boundary values of every unit and of the code\'s literals, all number types) through the four conversion '
        'functions for every unit and fiat currency, over simulated rate providers with distinct prices per currency and provider, '
        'and with provider faults; results compared with rational arithmetic; distinct = (function, currency, number type, '
        'magnitude, faults, outcome)')
REQUIRED = ['unit_to_satoshi', 'satoshi_to_unit', 'fiat_to_satoshi', 'satoshi_to_fiat', 'fallback_provider', 'outage_reported',
            'low_value_currency']
ASSUMPTIONS = ['the default decimal context (28 digits)', 'rates carry at most 15 significant digits (JSON doubles)',
               'a result may differ from exact rational arithmetic only where that lies within 1e-20 of a rounding boundary']
UNITS = {'satoshi': 0, 'ubtc': 2, 'mbtc': 5, 'btc': 8}
FIAT = ['usd', 'eur', 'gbp', 'jpy', 'cny', 'cad', 'aud', 'nzd', 'rub', 'brl', 'chf', 'sek', 'dkk', 'isk', 'pln', 'hkd', 'krw',
        'sgd', 'thb', 'twd', 'clp']
PREC = {**UNITS, **{c: 2 for c in FIAT}, 'jpy': 0, 'krw': 0, 'clp': 0}
FAULTS = ['conn', 'timeout', 'connect_timeout', 'proxy', 'ssl', 'status:404', 'status:429', 'status:500', 'status:503', 'status:403']
LOW = {'jpy', 'krw', 'clp', 'isk', 'rub'}
MAX = 21 * 10 ** 14


def setup(ctx):
    global W
    W = world.World().install()


def mk(rng, cur, fn, num, ty, fault=(None, None), scale=None):
    return {'cur': cur, 'fn': fn, 'num': num, 'ty': ty, 'fault': list(fault), 'rs': rng.getrandbits(32), 'scale': scale}


FNS = ['to', 'toc', 'from', 'fromc']


def directed(ctx):
    rng = random.Random('c12 %s' % ctx.seed)
    for cur, d in UNITS.items():
        for sat in [0, 1, 2, 9, 10, 99, 100, 101, 10 ** 5, 10 ** 8 - 1, 10 ** 8, 10 ** 8 + 1, MAX - 1, MAX, 12345678, 90071992547409]:
            for fn in FNS:
                for ty in ('int', 'str', 'float', 'dec', 'exp') if fn.startswith('to') else ('int',):
                    if ty == 'int' and fn.startswith('to') and sat % 10 ** d:
                        continue
                    num = sat if not fn.startswith('to') else dec(sat, d)
                    yield mk(rng, cur, fn, num, ty)
        for x in ('0.1', '0.9999', '1.999999999', '0.000000019', '2.5'):
            for fn in ('to', 'toc'):
                yield mk(rng, cur, fn, x, 'str')
    for cur in FIAT:
        for fn in FNS:
            for fault in ((None, None), ('conn', None), ('status:404', None), ('timeout', 'conn'), ('status:500', 'status:503'),
                          (None, 'conn')):
                for num in ('1', '2', '1234567', '100'):
                    yield mk(rng, cur, fn, num if fn.startswith('to') else int(num) * 12345, 'str' if fn.startswith('to') else 'int',
                             fault)


def dec(sat, d):
    q, r = divmod(sat, 10 ** d)
    return '%d.%0*d' % (q, d, r) if d else str(q)


def generate(rng, ctx):
    fn = rng.choice(FNS)
    if rng.random() < 0.5:
        cur = rng.choice(list(UNITS))
        d = UNITS[cur]
        sat = ctx.dic.pick(rng, 0, MAX)
        if not fn.startswith('to'):
            return mk(rng, cur, fn, sat, 'int')
        ty = rng.choice(['str', 'float', 'dec', 'exp', 'str', 'int'])
        s = dec(sat, d)
        if ty == 'int':
            s = str(ctx.dic.pick(rng, 0, MAX // 10 ** d))
        elif rng.random() < 0.25:
            s = (s if '.' in s else s + '.') + ''.join(rng.choice('0123456789') for _ in range(rng.randint(1, 6)))
        return mk(rng, cur, fn, s, ty)
    cur = rng.choice(FIAT)
    x = rng.random()
    fault = (None, None) if x < 0.5 else ((rng.choice(FAULTS), None) if x < 0.9 else (rng.choice(FAULTS), rng.choice(FAULTS)))
    if fn.startswith('to'):
        ty = rng.choice(['int', 'str', 'float', 'dec', 'exp'])
        s = str(ctx.dic.pick(rng, 0, 10 ** 9))
        if ty != 'int' and rng.random() < 0.7:
            s += '.%02d' % rng.randint(0, 99)
        return mk(rng, cur, fn, s, ty, fault, rng.random())
    return mk(rng, cur, fn, ctx.dic.pick(rng, 0, MAX), 'int', fault, rng.random())


def prices(rng, scale):
    base = {'jpy': 15e6, 'krw': 1.3e8, 'clp': 9e7, 'isk': 1.3e7, 'rub': 9e6, 'twd': 3e6, 'thb': 3e6}
    bp, bc = {}, {}
    for c in FIAT:
        p = base.get(c, 1e5) * (0.01 + 2 * rng.random())
        x = rng.random()
        if x < 0.5:
            bp[c] = '%.2f' % p
        elif x < 0.7:
            bp[c] = '%d' % max(1, p)
        else:  # as many digits as a JSON double carries, now and then a low price
            if x > 0.93:
                p = 10 ** rng.uniform(-3, 2)
            bp[c] = '%.*f' % (rng.choice([3, 4, 6]), max(p, 0.001))
        p2 = p * (0.5 + rng.random())
        digits = 8 if p2 < 2e5 else 14  # enough digits for the low-value currencies
        v = '%.*f' % (digits, 1 / p2)
        bc[c] = v if rng.random() < 0.8 else str(D(v))
    return bp, bc


def arg(num, ty):
    if ty == 'int':
        return int(D(num)), F(int(D(num)))
    if ty == 'str':
        return num, F(num)
    if ty == 'exp':
        s = '%e' % D(num) if len(D(num).as_tuple().digits) <= 7 else str(D(num))
        return s, F(D(s))
    if ty == 'dec':
        return D(num), F(num)
    f = float(num)
    return f, F(D(repr(f)))


def floors(x, scale):
    """Acceptable results of rounding x down to multiples of 1/scale."""
    return {F(int(x * scale * (1 + s)), scale) for s in (F(0), F(1, 10 ** 20), F(-1, 10 ** 20))}


def run(case, ctx):
    from bit.network import rates as R
    rng = random.Random(case['rs'])
    w = W
    w.log.clear()
    cur, fn = case['cur'], case['fn']
    bp, bc = prices(rng, case['scale'])
    w.rates = {'bitpay': bp, 'bcinfo': bc}
    fb, fc = case['fault']
    w.rate_fault = {'bitpay': fb, 'bcinfo': fc}
    R.set_rate_cache_time(-1)
    exact = cur in UNITS
    if exact:
        s = F(10 ** UNITS[cur])
    elif fb is None:
        s = F(10 ** 8) / F(bp[cur])
    elif fc is None:
        s = F(D(bc[cur])) * 10 ** 8
    else:
        s = None
    if fn.startswith('to'):
        a, v = arg(case['num'], case['ty'])
        call = lambda: (R.currency_to_satoshi if fn == 'to' else R.currency_to_satoshi_cached)(a, cur)
    else:
        a = int(case['num'])
        call = lambda: (R.satoshi_to_currency if fn == 'from' else R.satoshi_to_currency_cached)(a, cur)
    err = None
    try:
        got = call()
    except ConnectionError as e:
        err = e
    drain(w)
    trace = [(e['service'], e['op'], e['outcome']) for e in w.log]
    where = '%s(%r, %r), requests %s' % (fn, a, cur, trace)
    if exact and w.log:
        raise Violation('converting between bitcoin units asked the network: ' + where, key='unit-network')
    if err is not None:
        if s is not None:
            raise Violation('failed (%s) although a provider works: %s' % (err, where), key='unmasked')
        ctx.obs('outage_reported')
        ctx.shape(fn, cur, fb, fc, 'err')
        return
    if s is None:
        raise Violation('answered %r although no provider works: %s' % (got, where), key='invented')
    if fn.startswith('to'):
        x = v * s
        ok = {F(int(x))} if exact else floors(x, 1)
        if not isinstance(got, int) or isinstance(got, bool) or F(got) not in ok:
            raise Violation('gave %r, exact value is %s: %s' % (got, float(x) if x.denominator > 1 else x, where), key='to-satoshi')
        ctx.obs('unit_to_satoshi' if exact else 'fiat_to_satoshi')
    else:
        p = PREC[cur]
        x = F(a) / s
        ok = {x} if exact else floors(x, 10 ** p)
        if not isinstance(got, str) or not re.fullmatch(r'\d+(\.\d+)?', got) or F(got) not in ok or \
                ('.' in got and len(got.split('.')[1]) > p):
            raise Violation('gave %r, exact value is %s (precision %d): %s' % (got, float(x), p, where), key='from-satoshi')
        ctx.obs('satoshi_to_unit' if exact else 'satoshi_to_fiat')
    if not exact:
        if fb:
            ctx.obs('fallback_provider')
        if s < 20:
            ctx.obs('low_value_currency')
    ctx.shape(fn, cur, case['ty'], int(F(D(str(case['num'])))).bit_length(), fb, fc)
