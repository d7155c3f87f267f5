"""C10: provider failures are masked as long as one provider works."""
import itertools
import random

from vlib import gen, ref, world
from vlib.core import Violation
from checks import netlab
from checks.common import drain

LEVEL = 'fault_enumeration'
QUOTA = {'quick': 6000, 'thorough': 80000}
RULE = ('enumerated subsets of failing providers per operation and network, and seeded fault plans (kind, first failing request, '
        'one-off or lasting) over ledgers whose sizes sit around the page boundaries of each provider; each answer is compared '
        'with the ledger, each ConnectionError with the log; distinct = (operation, network, plan, size class)')
REQUIRED = ['answers_compared', 'masked_failures', 'all_failed_reported', 'multi_page_answers', 'late_faults', 'excess_fallbacks']
ASSUMPTIONS = ['simulated providers answer in the documented formats of the services', 'unspents and transactions are compared as sets']
SIZES = [0, 1, 2, 24, 25, 26, 49, 50, 51, 75, 99, 100, 101, 125, 199, 200, 201]
BIG = [999, 1000, 1001, 1999, 2000, 2001]


def setup(ctx):
    global W
    W = world.World().install()


def directed(ctx):
    rng = random.Random('c10 %s' % ctx.seed)
    for (op, net), provs in netlab.PROVIDERS.items():
        if op == 'broadcast':
            continue
        for r in range(len(provs) + 1):
            for sub in itertools.combinations(provs, r):
                pl = {s: [rng.choice(netlab.kinds_exact(s, op)), 0, 10 ** 6] for s in sub}
                yield {'op': op, 'net': net, 'plan': pl, 'n': [3, 1], 'sp': [2, 1], 'rs': rng.getrandbits(32), 'tm': 500,
                       'unknown': False}
        # every fault kind alone at the first provider, and everything but one provider failing with it
        for s in provs:
            for k in netlab.kinds_exact(s, op):
                yield {'op': op, 'net': net, 'plan': {s: [k, 0, 10 ** 6]}, 'n': [3, 0], 'sp': [1, 0],
                       'rs': rng.getrandbits(32), 'tm': 500, 'unknown': False}
                pl = {x: [rng.choice(netlab.kinds_exact(x, op)), 0, 10 ** 6] for x in provs if x != s}
                pl[s] = [k, 1, 10 ** 6]
                yield {'op': op, 'net': net, 'plan': pl, 'n': [110, 0], 'sp': [1, 0],
                       'rs': rng.getrandbits(32), 'tm': 500, 'unknown': False}
        # every size with each provider as the only working one
        if op in ('txs', 'unspent', 'balance'):
            for s in provs:
                for n in SIZES + BIG if op != 'balance' else (0, 1, 30):
                    pl = {x: ['conn', 0, 10 ** 6] for x in provs if x != s}
                    conf = [n, 0] if rng.random() < 0.6 else [max(0, n - 2), min(2, n)]
                    yield {'op': op, 'net': net, 'plan': pl, 'n': conf, 'sp': [0, 0], 'rs': rng.getrandbits(32),
                           'tm': 10 ** 9 if rng.random() < 0.7 else 500, 'unknown': False}
        if op == 'rawtx':
            for s in provs:
                for unk in (True, False):
                    pl = {x: ['timeout', 0, 10 ** 6] for x in provs if x != s}
                    yield {'op': op, 'net': net, 'plan': pl, 'n': [2, 1], 'sp': [1, 0], 'rs': 7, 'tm': 500, 'unknown': unk}
        if op == 'txs':
            for unc in (48, 49, 50, 51, 60):
                for s in provs:
                    pl = {x: ['conn', 0, 10 ** 6] for x in provs if x != s}
                    yield {'op': op, 'net': net, 'plan': pl, 'n': [3, unc], 'sp': [0, 0], 'rs': 7, 'tm': 500, 'unknown': False}
        # a failure at a later page of an answer, whoever may or may not step in
        if op in ('txs', 'unspent'):
            for s, per, first in (('smartbit', 1000, 0), ('blockchair', 100, 0), ('blockstream', 25, 1), ('bitcore', 1000, 0),
                                  ('blockchain.info', 50, 0)):
                if s not in provs or (op == 'unspent' and s == 'blockstream'):
                    continue
                for k in ('status:503', 'timeout', 'conn') if per < 1000 else ('status:503', 'timeout'):
                    for page in (1, 2):
                        n = per * page + rng.randint(1, 9)
                        pl = {x: ['conn', 0, 10 ** 6] for x in provs if x != s and rng.random() < 0.8}
                        pl[s] = [k, first + page, 10 ** 6]
                        yield {'op': op, 'net': net, 'plan': pl, 'n': [n, 0], 'sp': [0, 0], 'rs': rng.getrandbits(32),
                               'tm': 10 ** 9, 'unknown': False}
                    pl = {x: ['conn', 0, 10 ** 6] for x in provs if x != s}
                    pl[s] = [k, first + 1, 10 ** 6]
                    yield {'op': op, 'net': net, 'plan': pl, 'n': [per + rng.randint(1, 9), 0], 'sp': [0, 0],
                           'rs': rng.getrandbits(32), 'tm': 10 ** 9, 'unknown': False}
    # an internal error of blockchain.info
    pl = {x: ['conn', 0, 10 ** 6] for x in netlab.SERVICES if x != 'blockchain.info'}
    pl['blockchain.info'] = ['status:500', 0, 10 ** 6]
    yield {'op': 'unspent', 'net': 'main', 'plan': pl, 'n': [3, 0], 'sp': [0, 0], 'rs': 7, 'tm': 500, 'unknown': False}


def generate(rng, ctx):
    op = rng.choice(['balance', 'txs', 'rawtx', 'unspent', 'unspent', 'txs'])
    net = rng.choice(['main', 'test'])
    x = rng.random()
    n = rng.randint(0, 12) if x < 0.5 else (rng.choice(SIZES) if x < 0.95 else rng.choice(BIG))
    unc = rng.randint(0, min(n, 4)) if rng.random() < 0.9 else min(n, rng.choice([48, 49, 50, 51, 60]))
    sp = [rng.randint(0, 30), rng.randint(0, 3)] if op == 'txs' else [rng.randint(0, 3), rng.randint(0, 1)]
    pl = netlab.plan(rng, op, net, rng.choice([0.3, 0.6, 0.8, 0.95]), netlab.PROVIDERS[(op, net)], netlab.kinds_exact)
    return {'op': op, 'net': net, 'plan': pl, 'n': [n - unc, unc], 'sp': sp, 'rs': rng.getrandbits(32),
            'tm': rng.choice([10 ** 9, 10 ** 9, 20, 500]), 'unknown': rng.random() < 0.2}


def run(case, ctx):
    from bit.network import NetworkAPI
    op, net = case['op'], case['net']
    rng = random.Random(case['rs'])
    w = W
    w.led = {'main': world.Ledger('main', 800000 + rng.randint(0, 10)), 'test': world.Ledger('test', 2500000)}
    w.log.clear()
    w.too_many = case['tm']
    addr = gen.address(rng, net, ('p2pkh', 'p2sh', 'p2wpkh'))
    if addr.upper() == addr:
        addr = addr.lower()
    sc = ref.script_for(addr)
    led = w.led[net]
    netlab.populate(led, sc, rng, *case['n'], *case['sp'])
    # noise: other addresses, and the same payload on the other network
    for _ in range(3):
        netlab.populate(led, ref.script_for(gen.address(rng, net)), rng, 2, 1)
    other = w.led['test' if net == 'main' else 'main']
    netlab.populate(other, sc, rng, 2, 0)
    netlab.install_plan(w, case['plan'], (net,))
    suffix = '' if net == 'main' else '_testnet'
    if op == 'balance':
        want, call = led.balance(sc), lambda: getattr(NetworkAPI, 'get_balance' + suffix)(addr)
    elif op == 'txs':
        want = sorted(t for t, _ in led.hist.get(sc, []))
        call = lambda: sorted(getattr(NetworkAPI, 'get_transactions' + suffix)(addr))
    elif op == 'unspent':
        want = netlab.truth_unspents(led, sc)
        call = lambda: netlab.got_unspents(getattr(NetworkAPI, 'get_unspent' + suffix)(addr))
    else:
        txid = '%064x' % rng.getrandbits(256)
        want = None
        have = [t for t, _ in led.hist.get(sc, [])]
        if have and not case['unknown']:
            txid = rng.choice(have)
            want = led.raw[txid]
        call = lambda: getattr(NetworkAPI, 'get_transaction_by_id' + suffix)(txid)
    provs = netlab.PROVIDERS[(op, net)]
    exc = None
    try:
        got = call()
    except ConnectionError as e:
        exc = e
    drain(w)
    log = list(w.log)
    failed = netlab.failed_services(log, net)
    n_ut = len(led.of(sc))
    unc = sum(1 for _, b in led.hist.get(sc, []) if b is None)
    excess = set()
    if op == 'unspent':
        if n_ut > case['tm']:
            excess.add('blockstream')
        if n_ut >= 1000:
            excess.add('blockchain.info')
    if op == 'txs' and unc >= 50:
        excess.add('blockstream')
    if op == 'balance' and not led.hist.get(sc):
        excess.add('blockchair')  # answers 404 for addresses never seen
    trace = [(e['service'], e['op'], e['outcome']) for e in log][:60]
    if exc is not None:
        for s in provs:
            if s not in failed and s not in excess:
                raise Violation('%s (%s) failed with ConnectionError although %s works; requests: %s' % (
                    op, net, s, trace), key='unmasked')
        ctx.obs('all_failed_reported')
    else:
        if got != want:
            key = 'wrong-answer'
            if op == 'unspent' and got == [] and log[-1]['service'] == 'blockchain.info' and \
                    log[-1]['outcome'] == 'status:500':
                key = 'bcinfo-500-empty'
            raise Violation('%s (%s) answered %s, the ledger says %s; requests: %s' % (
                op, net, str(got)[:400], str(want)[:400], trace), key=key)
        ctx.obs('answers_compared')
        if failed:
            ctx.obs('masked_failures')
        if excess:
            ctx.obs('excess_fallbacks')
        per = {}
        for e in log:
            per[e['service']] = per.get(e['service'], 0) + 1
        if max(per.values()) >= 2:
            ctx.obs('multi_page_answers')
    if any(v[1] > 0 and s in failed for s, v in case['plan'].items()):
        ctx.obs('late_faults')
    n = sum(case['n'])
    ctx.shape(op, net, sorted((s, v[0], v[1]) for s, v in case['plan'].items() if s in failed),
              n if n in SIZES + BIG else 'n', exc is None)
