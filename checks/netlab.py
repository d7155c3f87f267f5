"""Shared by the network checks: providers, fault plans, ledger population, truth."""
import random

from vlib import gen, ref, world
from vlib.core import Violation

SERVICES = ('blockchair', 'blockstream', 'bitcore', 'smartbit', 'blockchain.info')
PROVIDERS = {  # who answers what, per the documented provider lists
    ('balance', 'main'): ('blockchair', 'blockstream', 'bitcore', 'smartbit', 'blockchain.info'),
    ('txs', 'main'): ('blockchair', 'blockstream', 'smartbit', 'blockchain.info'),
    ('rawtx', 'main'): ('blockchair', 'blockstream', 'smartbit', 'blockchain.info'),
    ('unspent', 'main'): ('blockstream', 'blockchair', 'smartbit', 'blockchain.info', 'bitcore'),
    ('broadcast', 'main'): ('blockchair', 'blockstream', 'bitcore', 'smartbit', 'blockchain.info'),
    ('balance', 'test'): ('blockchair', 'blockstream', 'bitcore', 'smartbit'),
    ('txs', 'test'): ('blockchair', 'blockstream', 'smartbit'),
    ('rawtx', 'test'): ('blockchair', 'blockstream', 'smartbit'),
    ('unspent', 'test'): ('blockstream', 'blockchair', 'smartbit', 'bitcore'),
    ('broadcast', 'test'): ('blockchair', 'blockstream', 'bitcore', 'smartbit'),
}
NETKINDS = ['conn', 'timeout', 'connect_timeout', 'proxy', 'ssl']
STATUS = [403, 429, 502, 503, 504, 401, 402, 430, 520]


def kinds_for(service, op):
    """Error statuses that no API of this service uses to say "nothing there"."""
    k = NETKINDS + ['status:%d' % s for s in STATUS]
    if service != 'blockchain.info' or op == 'balance' or op == 'txs':
        k.append('status:500')
    if service in ('bitcore', 'smartbit', 'blockchain.info'):
        k.append('status:404')
    if service in ('blockchair', 'bitcore', 'blockchain.info'):
        k.append('status:400')
    return k


def kinds_exact(service, op):
    """The same for plans that concern one operation only."""
    k = kinds_for(service, op)
    more = {'blockstream': {'400': ('balance', 'rawtx'), '404': ('balance', 'txs', 'unspent')}, 'smartbit': {'400': ('balance', 'txs', 'unspent')}, 'blockchair': {'404': ('balance',)},
            'blockchain.info': {'500': ('rawtx',)}}.get(service, {})
    return k + ['status:' + s for s, ops in more.items() if op in ops and 'status:' + s not in k]


def plan(rng, op, net, p=0.6, services=SERVICES, kinds_for=kinds_for):
    """A fault plan: service -> [kind, first request, number of requests]."""
    out = {}
    for s in services:
        if rng.random() < p:
            start = 0 if rng.random() < 0.65 else rng.choice([1, 1, 2, 3, 4])
            out[s] = [rng.choice(kinds_for(s, op)), start, rng.choice([1, 10 ** 6])]
    return out


def install_plan(w, plan_, nets=('main', 'test')):
    """Fault plans count requests per service over all its endpoints."""
    w.faults = {}
    for net in nets:
        for s, (kind, start, num) in plan_.items():
            state = {'n': 0}

            def f(op, n, state=state, kind=kind, start=start, num=num):
                i = state['n']
                state['n'] += 1
                return world.Fault(kind) if start <= i < start + num else None

            w.faults[(s, net)] = f


INJECTED = set(NETKINDS) | {'lost'}


def failed_services(log, net):
    """Services that visibly failed (fault injected) in this slice of the log."""
    out = set()
    for e in log:
        o = e['outcome']
        if e['net'] == net and isinstance(o, str) and (o in INJECTED or o.startswith('status:')):
            out.add(e['service'])
    return out


def populate(led, script, rng, n_conf, n_unc, spent_conf=0, spent_unc=0, big=False):
    for i in range(n_conf + n_unc):
        v = rng.choice([1, 546, 10 ** 8, 2 ** 32, rng.randint(1, 10 ** rng.randint(1, 12))])
        t = '%064x' % rng.getrandbits(256)
        if i and rng.random() < 0.1:
            t = last
        vout = rng.choice([0, 1, 2, 300, 70000]) if rng.random() < 0.5 else rng.randint(0, 2 ** 32 - 1)
        conf = 0 if i >= n_conf else rng.choice([1, 2, 6, 100, rng.randint(1, 600000)])
        if (t, vout) in led.utxo:
            continue
        if t in led.raw:
            # same transaction: same block
            conf = [h for h in led.hist[script] if h[0] == t][0][1]
            conf = 0 if conf is None else led.height - conf + 1
        led.fund(script, v, t, vout, conf)
        led.raw[t] = '02000000%s00000000' % t
        last = t
    for i in range(spent_conf + spent_unc):
        t = '%064x' % rng.getrandbits(256)
        led.add_history(script, t, 0 if i >= spent_conf else rng.randint(1, 1000))
        led.raw[t] = '01000000%s00000000' % t


def truth_unspents(led, script):
    return sorted((a, led.height - b + 1 if b is not None else 0, script.hex(), t, v) for t, v, a, b in led.of(script))


def got_unspents(us):
    return sorted((u.amount, u.confirmations, u.script, u.txid, u.txindex) for u in us)


def unknown_endpoint(log):
    for e in log:
        if e['outcome'] == 'unknown-endpoint' or e['op'] == 'unknown':
            return e
    return None
