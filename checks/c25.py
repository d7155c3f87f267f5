"""C25: concurrent use gives the same results as sequential use."""
import random
import sys
import threading
import time
import traceback

from vlib import gen, ref, txlab, world
from vlib.core import BITDIR, HarnessError, Violation, from_bit, jload, jdump
from checks import netlab
from checks.c12 import FIAT
from checks.c13 import newprices
from checks.common import drain

LEVEL = 'exploration'
QUOTA = {'quick': 700, 'thorough': 16000}
BUDGET = {'quick': 200, 'thorough': 800}
RULE = ('seeded sets of 2-8 threads with 2-6 independent operations each (creating, signing and cosigning transactions, synchronising wallets, '
        'sending payments and querying through services or an own node, conversions of different currencies, fee lookups, key and address work, parsing) released together under a schedule fuzzer that yields at '
        'random or chosen lines of the library and delays HTTP answers; every result is compared with the same operation run alone on the same '
        'world, and transactions are verified; distinct = observed sequences of thread switches inside the library (hashed per case)')
REQUIRED = ['operations_compared', 'thread_switches_in_library', 'overlapping_http_requests', 'transactions_verified', 'cold_cache_cases',
            'random_selections_verified', 'sends_verified', 'node_requests',
            'shared_wallet_operations']
ASSUMPTIONS = ['threads that share a wallet object only sign and build with it from their own unspents: none of them refreshes it', 'providers answer the same throughout a case']
TOOL = 3


class Sched:
    """Yields at random library lines; records switches."""

    def __init__(self):
        self.rng = random.Random(0)
        self.p = 0.0
        self.on = False
        self.last = None
        self.trace = []
        self.switches = 0
        self.inflight = 0
        self.overlap = 0
        self.stall = False
        self.salt = self.stalls = 0
        self.max_stalls = 1200

    def line(self, code, line):
        if not code.co_filename.startswith(BITDIR):
            return sys.monitoring.DISABLE
        if not self.on:
            return
        me = threading.get_ident()
        if self.last != me:
            self.switches += 1
            if len(self.trace) < 400:
                self.trace.append((self.names.get(me, 0), code.co_name, line))
            self.last = me
        if self.stall:  # threads always pause at a few chosen lines, so others can run inside narrow windows
            if (line * 2654435761 ^ self.salt) % 31 < 3 and self.stalls < self.max_stalls:
                self.stalls += 1
                time.sleep(self.rng.choice((1e-4, 3e-4, 1e-3)))
        elif self.rng.random() < self.p:
            time.sleep(self.rng.choice((0, 0, 1e-6, 2e-5, 1e-4)))

    def http(self, ev):
        self.inflight += 1
        if self.inflight > 1:
            self.overlap += 1
        try:
            time.sleep(self.rng.choice((0, 1e-4, 1e-3, 3e-3)))
        finally:
            self.inflight -= 1


def setup(ctx):
    global W, S
    W = world.World().install()
    S = Sched()
    fresh()
    m = getattr(sys, 'monitoring', None)
    if m is not None:
        m.use_tool_id(TOOL, 'sched')
        m.register_callback(TOOL, m.events.LINE, S.line)
        m.set_events(TOOL, m.events.LINE)


def teardown(ctx):
    if hasattr(sys, 'monitoring'):
        sys.monitoring.set_events(TOOL, 0)


def fresh():
    for m in [m for m in sys.modules if m == 'bit' or m.startswith('bit.')]:
        del sys.modules[m]
    import bit  # noqa


KINDS = ['tx', 'tx', 'txrand', 'net', 'net', 'conv', 'conv', 'conv', 'back', 'fee', 'sign', 'keys', 'parse', 'cold', 'txs', 'units', 'addr', 'send', 'rawtx']


def an_op(rng, ctx, kinds=KINDS):
    k = rng.choice(kinds)
    if k == 'tx':
        return [k, gen.tx_case(rng, ctx, big=False, combine=True, mode='direct')]
    if k == 'cold':
        return [k, gen.tx_case(rng, ctx, big=False, combine=True, mode='cold')]
    if k == 'txrand':
        return [k, gen.tx_case(rng, ctx, big=False, combine=False, absolute=True, mode='direct')]
    if k == 'net' or k == 'txs':
        w = gen.wallet(rng, ctx, maxn=3)
        return [k, w, rng.getrandbits(32)]
    if k == 'send':
        w = {'kind': 'single', 'net': rng.choice(['main', 'test']), 'k': hex(rng.randint(1, ref.N - 1)), 'comp': rng.random() < 0.8}
        return [k, w, rng.getrandbits(32), gen.address(rng, w['net']), rng.randint(1000, 40000)]
    if k == 'rawtx':
        return [k, rng.choice(['main', 'test']), '%064x' % rng.getrandbits(256)]
    if k in ('conv', 'back'):
        return [k, rng.choice(FIAT + ['btc', 'mbtc']), rng.randint(1, 10 ** rng.randint(2, 8)), rng.random() < 0.75]
    if k == 'fee':
        return [k, rng.random() < 0.5]
    if k == 'units':
        return [k, rng.randint(1, 21 * 10 ** 14), rng.choice(['satoshi', 'ubtc', 'mbtc', 'btc'])]
    if k == 'addr':
        return [k, gen.address(rng, rng.choice(['main', 'test']))]
    return [k, hex(gen.key_int(rng, ctx.dic)), rng.getrandbits(64)]


def case_of(rng, ctx, nthreads, kinds=KINDS, **kw):
    return {'threads': [[an_op(rng, ctx, kinds) for _ in range(rng.randint(2, 6))] for _ in range(nthreads)],
            'rs': rng.getrandbits(32), 'p': rng.choice([0.001, 0.01, 0.05]), 'switch': rng.choice([1e-6, 1e-5, 5e-3]),
            'node': rng.choice([[], [], ['main'], ['test'], ['main', 'test']]), 'cold': rng.random() < 0.6, 'stall': rng.random() < 0.5, 'expire': rng.random() < 0.5, **kw}


def shared_case(rng, ctx, nthreads, **kw):
    """Threads that use one and the same wallet object, each for its own payments and signatures."""
    c = gen.tx_case(rng, ctx, big=False, combine=True, mode=rng.choice(['direct', 'direct', 'cold']))
    k = c['w']['k'] if c['w']['kind'] == 'single' else c['w']['ks'][0]
    threads = []
    for _ in range(nthreads):
        threads.append([])
        for _ in range(rng.randint(2, 4)):
            if rng.random() < 0.4:
                threads[-1].append(['sign', k, rng.getrandbits(64), 'shared'])
                continue
            d = jload(jdump(c))
            ids = {}
            for u in d['ups']:
                u[1] = ids.setdefault(u[1], gen.txid(rng))
            rng.shuffle(d['outs'])
            threads[-1].append(['tx' if c['mode'] == 'direct' else 'cold', d, 'shared'])
    return {'threads': threads, 'rs': rng.getrandbits(32), 'p': rng.choice([0.001, 0.01, 0.05]), 'switch': rng.choice([1e-6, 1e-5, 5e-3]),
            'node': [], 'cold': rng.random() < 0.3, 'stall': rng.random() < 0.7, 'expire': False, **kw}


def directed(ctx):
    rng = random.Random('c25 %s' % ctx.seed)
    for _ in range(16):
        yield shared_case(rng, ctx, rng.choice([2, 4, 6]), stall=True)
    for kinds in (['conv', 'back'], ['conv'], ['fee'], ['tx'], ['net'], ['fee', 'conv', 'tx'], ['sign', 'keys'], ['cold', 'parse'],
                  ['txs', 'net'], ['txrand'], ['units', 'addr']):
        for n in (2, 4, 8):
            yield case_of(rng, ctx, n, kinds, cold=True)
    for kinds in (['net', 'txs', 'rawtx'], ['send', 'net'], ['send'], ['rawtx']):
        for node in ([], ['main', 'test']):
            for n in (2, 4, 8):
                yield case_of(rng, ctx, n, kinds, cold=True, node=node, stall=True)


def generate(rng, ctx):
    x = rng.random()
    if x > 0.85:
        return shared_case(rng, ctx, rng.choice([2, 3, 4, 6]))
    kinds = KINDS if x < 0.55 else rng.sample(KINDS, 2)
    return case_of(rng, ctx, rng.choice([2, 3, 4, 6, 8]), kinds)


def prepare(op, common):
    """Everything an operation needs, built before the threads start; -> callable."""
    import bit
    from bit.network import currency_to_satoshi, currency_to_satoshi_cached, get_fee_cached, satoshi_to_currency, satoshi_to_currency_cached
    from bit.transaction import calc_txid, deserialize, address_to_scriptpubkey
    k = op[0]
    if k in ('tx', 'cold', 'txrand'):
        c = op[1]

        wal = None
        if op[2:] == ['shared']:
            wal = common.get('w') or common.setdefault('w', txlab.Wallet(c['w']))

        def tx():
            r = txlab.execute(c, wallet=wal)
            return ('insufficient',) if r.exc else ('hex', r.hex)

        def check(res, ctx):
            if res[0] == 'insufficient':
                return
            r = txlab.Rec()
            r.case, r.wallet, r.hex = c, txlab.Wallet(c['w']), res[1]
            r.tx = ref.Tx.parse(res[1])
            r.prev = r.wallet.prevouts(c['ups'])
            r.fee = sum(r.prev[(i.txid, i.vout)][0] for i in r.tx.ins) - sum(o.value for o in r.tx.outs)
            r.vsize = r.tx.vsize()
            txlab.mon_valid(r, ctx)
            ch = txlab.mon_outputs(r, ctx)
            txlab.mon_fee(r, ctx, ch)
            txlab.mon_messages(r, ctx)

        return tx, check
    if k in ('net', 'txs'):
        w = txlab.Wallet(op[1]).first
        if k == 'txs':
            return lambda: sorted(w.get_transactions()), None

        def sync():
            bal = w.get_balance()
            us = sorted((u.amount, u.confirmations, u.script, u.txid, u.txindex, u.type) for u in w.unspents)
            return bal, us, w.balance_as('btc')

        return sync, None
    if k == 'rawtx':
        api = bit.network.NetworkAPI
        f = api.get_transaction_by_id if op[1] == 'main' else api.get_transaction_by_id_testnet
        return lambda: f(op[2]), None
    if k == 'send':
        wal = txlab.Wallet(op[1])
        w = wal.first

        def send():
            txid = w.send([(op[3], op[4], 'satoshi')], fee=1234, absolute_fee=True)
            return txid, W.led[op[1]['net']].raw.get(txid)

        def chk(res, ctx):
            if res[1] is None:
                raise Violation('send returned %s, which no provider has' % res[0], key='send')
            t = ref.Tx.parse(res[1])
            if (t.outs[0].value, t.outs[0].script) != (op[4], ref.script_for(op[3])):
                raise Violation('concurrent send pays %d to %s instead of %d to %s' % (
                    t.outs[0].value, t.outs[0].script.hex(), op[4], op[3]), key='send')
            ctx.obs('sends_verified')

        return send, chk
    if k == 'conv':
        f = currency_to_satoshi_cached if op[3] else currency_to_satoshi
        return lambda: f(op[2], op[1]), None
    if k == 'back':
        f = satoshi_to_currency_cached if op[3] else satoshi_to_currency
        return lambda: f(op[2] * 1000, op[1]), None
    if k == 'fee':
        return lambda: get_fee_cached(op[1]), None
    if k == 'units':
        return lambda: (satoshi_to_currency(op[1], op[2]), currency_to_satoshi(satoshi_to_currency_cached(op[1], op[2]), op[2])), None
    if k == 'addr':
        return lambda: address_to_scriptpubkey(op[1]).hex(), None
    if k == 'keys':
        def keys():
            key = bit.PrivateKey.from_hex('%064x' % int(op[1], 16))
            again = bit.wif_to_key(key.to_wif())
            t = bit.PrivateKeyTestnet(key.to_wif())
            return key.address, key.segwit_address, again.address, t.address, t.segwit_address, again.to_pem(), key.to_int()

        return keys, None
    if k == 'sign':
        one = None
        if op[3:] == ['shared']:
            one = common.get('k') or common.setdefault('k', bit.PrivateKey.from_int(int(op[1], 16)))

        def sign():
            key = one or bit.PrivateKey.from_int(int(op[1], 16))
            d = b'%d' % op[2]
            s = key.sign(d)
            return s.hex(), key.verify(s, d), key.verify(s, d + b'x'), bit.verify_sig(s, d, key.public_key)

        return sign, None
    if k == 'parse':
        rng = random.Random(op[2])
        t = ref.Tx(2, [ref.In(gen.txid(rng), i, bytes(rng.getrandbits(8) for _ in range(rng.randint(0, 300))), 5,
                              [b'a' * rng.randint(0, 300), b'bc']) for i in range(rng.randint(1, 8))],
                   [ref.Out(i, b'\x51' * rng.randint(0, 30)) for i in range(rng.randint(1, 8))], 9)
        h = t.ser().hex()
        return lambda: (deserialize(h).to_hex(), calc_txid(h)), None
    raise HarnessError(k)


LISTS = {}


def reset_caches(case):
    if case['cold']:
        fresh()
    from bit.network import NetworkAPI
    if LISTS.get(0) is not NetworkAPI:
        LISTS.clear()
        LISTS.update({k: list(getattr(NetworkAPI, k)) for k in dir(NetworkAPI) if k.endswith(('_MAIN', '_TEST'))})
        LISTS[0] = NetworkAPI
    for k, v in LISTS.items():
        if k:
            setattr(NetworkAPI, k, list(v))
    W.nodes = {}
    for i, net in enumerate(case['node']):
        W.nodes['node.example:%d' % (8000 + i)] = dict(net=net, user='u%d' % i, password='p%d' % i)
        NetworkAPI.connect_to_node(user='u%d' % i, password='p%d' % i, host='node.example', port=8000 + i, testnet=net == 'test')
    import bit.network.rates as r
    import bit.network.fees as f
    r.set_rate_cache_time(-1 if case['expire'] else 10 ** 9)
    f.set_fee_cache_time(-1 if case['expire'] else 10 ** 9)


def ledgers(case):
    for n in ('main', 'test'):
        W.led[n] = world.Ledger(n)
    for th in case['threads']:
        for op in th:
            if op[0] in ('net', 'txs'):
                w = txlab.Wallet(op[1])
                r2 = random.Random(op[2])
                for sc in w.script.values():
                    netlab.populate(W.led[w.net], sc, r2, r2.randint(0, 5), 1)
            elif op[0] == 'rawtx':
                W.led[op[1]].raw[op[2]] = '02000000%s00000000' % op[2]
            elif op[0] == 'send':
                w = txlab.Wallet(op[1])
                r2 = random.Random(op[2])
                for sc in w.script.values():
                    for _ in range(r2.randint(1, 3)):
                        W.led[w.net].fund(sc, r2.randint(50000, 10 ** 9), '%064x' % r2.getrandbits(256), r2.randint(0, 3),
                                          r2.choice([0, 1, 9]))


def run(case, ctx):
    rng = random.Random(case['rs'])
    W.rates = newprices(rng)
    W.fee = {'fastestFee': rng.randint(30, 90), 'halfHourFee': 29, 'hourFee': rng.randint(2, 28), 'minimumFee': 1}
    W.barrier = None
    W.log.clear()
    W.max_log = 10 ** 9
    # one after the other
    ledgers(case)
    reset_caches(case)
    want, common = [], {}
    for th in case['threads']:
        want.append([])
        for op in th:
            fn, chk = prepare(jload(jdump(op)), common)
            want[-1].append(fn())
    drain(W)
    ledgers(case)
    if case['cold']:
        ctx.obs('cold_cache_cases')
    reset_caches(case)
    # all at once
    common = {}
    plan = [[prepare(jload(jdump(op)), common) for op in th] for th in case['threads']]
    got = [[] for _ in plan]
    errs = []
    gate = threading.Barrier(len(plan) + 1)

    def body(i):
        try:
            gate.wait(60)
            for fn, _ in plan[i]:
                got[i].append(fn())
        except BaseException as e:  # noqa
            errs.append((i, len(got[i]), e, traceback.format_exc()))

    threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(plan))]
    old = sys.getswitchinterval()
    S.stall, S.salt, S.stalls = case['stall'], case['rs'], 0
    S.rng, S.p, S.trace, S.last, S.switches, S.overlap, S.inflight = random.Random(case['rs'] ^ 77), case['p'], [], None, 0, 0, 0
    sys.setswitchinterval(case['switch'])
    W.barrier = S.http
    try:
        for t in threads:
            t.start()
        S.names = {t.ident: n + 1 for n, t in enumerate(threads)}
        S.on = True
        gate.wait(60)
        end = time.monotonic() + 150
        for t in threads:
            t.join(max(0.1, end - time.monotonic()))
    finally:
        S.on = False
        W.barrier = None
        sys.setswitchinterval(old)
    if any(t.is_alive() for t in threads):
        raise Violation('threads did not finish within 150 s', key='hang')
    drain(W)
    ctx.obs('thread_switches_in_library', S.switches)
    ctx.obs('overlapping_http_requests', S.overlap)
    ctx.obs('chosen_line_pauses', S.stalls)
    ctx.obs('node_requests', sum(e['service'] == 'node' for e in W.log))
    for i, n, e, tb in errs:
        if isinstance(e, Violation):
            raise e
        if isinstance(e, Exception) and from_bit(e):
            raise Violation('thread %d, operation %s raised %s: %s (alone it returns %s)' % (
                i, str(case['threads'][i][n])[:200], type(e).__name__, e, str(want[i][n])[:200]), key='exc:' + type(e).__name__, traceback=tb)
        raise HarnessError(tb)
    for i, th in enumerate(case['threads']):
        for n, op in enumerate(th):
            chk = plan[i][n][1]
            if op[0] == 'txrand':
                if got[i][n][0] != want[i][n][0]:
                    raise Violation('%s alone: %s, concurrently: %s' % (op[0], want[i][n], got[i][n]), key='differs')
                chk(got[i][n], ctx)
                ctx.obs('random_selections_verified')
                continue
            if got[i][n] != want[i][n]:
                raise Violation('operation %s of thread %d returned %s, alone it returns %s' % (
                    str(op)[:300], i, str(got[i][n])[:600], str(want[i][n])[:600]), key='differs')
            if chk:
                chk(got[i][n], ctx)
            ctx.obs('operations_compared')
            if op[-1] == 'shared':
                ctx.obs('shared_wallet_operations')
    ctx.shape(S.trace)
