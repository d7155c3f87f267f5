"""A simulated Bitcoin world behind the HTTP adapter: ledgers that enforce the
consensus/standardness rules of vlib.ref, web services in front of them, an RPC
node, fee and exchange-rate providers - with fault injection and an event log.

Only ``requests.adapters.HTTPAdapter.send`` is replaced, so every line of the
library from its public API down to the socket boundary is the real code.
"""
import base64
import json
import threading
import traceback
from urllib.parse import parse_qs, urlsplit

import requests
import requests.adapters

from . import ref


class Ledger:
    """One network: UTXO set, transaction history, mempool; a strict full node."""

    def __init__(self, net, height=700000, min_rate=0):
        self.net, self.height, self.min_rate = net, height, min_rate
        self.utxo = {}  # (txid, vout) -> [value, script, block or None]
        self.raw = {}  # txid -> hex
        self.hist = {}  # script -> [(txid, block or None)]
        self.received = {}  # script -> total ever received
        self.rtx = {}  # script -> txids that paid it
        self.minted = 0
        self.fees = 0
        self.accepted = []  # raw hex in acceptance order
        self.rejected = []
        self.mempool_pub = True
        self._n = 0

    def fund(self, script, value, txid, vout, conf=1):
        blk = None if conf == 0 else self.height - conf + 1
        if (txid, vout) in self.utxo:
            return
        self.utxo[(txid, vout)] = [value, script, blk]
        self.minted += value
        self._receive(script, value, txid)
        self.hist.setdefault(script, [])
        if not any(t == txid for t, _ in self.hist[script]):
            self.hist[script].append((txid, blk))
        self.raw.setdefault(txid, '01000000' + '00' * 6)

    def _receive(self, script, value, txid):
        self.received[script] = self.received.get(script, 0) + value
        if txid not in self.rtx.setdefault(script, []):
            self.rtx[script].append(txid)

    def add_history(self, script, txid, conf):
        self.hist.setdefault(script, []).append((txid, None if conf == 0 else self.height - conf + 1))

    def of(self, script):
        return [(k[0], k[1], v[0], v[2]) for k, v in self.utxo.items() if v[1] == script]

    def balance(self, script):
        return sum(v[0] for v in self.utxo.values() if v[1] == script)

    def accept(self, raw):
        """-> (ok, txid or reason)."""
        try:
            t = ref.Tx.parse(raw)
            txid = t.txid()
            if txid in self.raw:
                raise ref.RefError('txn-already-known')
            prev = {k: (v[0], v[1]) for k, v in self.utxo.items()}
            fee = ref.verify_tx(t, prev)
            for o in t.outs:
                if not ref.is_standard_out(o.script):
                    raise ref.RefError('scriptpubkey not standard: ' + o.script.hex())
            if fee < self.min_rate * t.vsize():
                raise ref.RefError('min relay fee not met: %d < %d' % (fee, self.min_rate * t.vsize()))
        except ref.RefError as e:
            self.rejected.append((raw, str(e)))
            return False, str(e)
        for i in t.ins:
            v = self.utxo.pop((i.txid, i.vout))
            h = self.hist.setdefault(v[1], [])
            if (txid, None) not in h:
                h.append((txid, None))
        for n, o in enumerate(t.outs):
            if o.script[:1] == b'\x6a':
                self.minted -= o.value
                continue
            self.utxo[(txid, n)] = [o.value, o.script, None]
            self._receive(o.script, o.value, txid)
            h = self.hist.setdefault(o.script, [])
            if (txid, None) not in h:
                h.append((txid, None))
        self.fees += fee
        self.raw[txid] = raw
        self.accepted.append(raw)
        return True, txid

    def mine(self):
        self.height += 1
        for v in self.utxo.values():
            if v[2] is None:
                v[2] = self.height
        for h in self.hist.values():
            h[:] = [(t, self.height if b is None else b) for t, b in h]

    def total(self):
        return sum(v[0] for v in self.utxo.values())


class Fault:
    """kinds: conn, timeout, connect_timeout, status:<code>, lost (request applied, reply lost)."""

    def __init__(self, kind):
        self.kind = kind


def _resp(req, status=200, body='', ctype='application/json'):
    r = requests.Response()
    r.status_code = status
    r._content = body.encode() if isinstance(body, str) else body
    r.headers['content-type'] = ctype
    r.encoding = 'utf-8'
    r.url = req.url
    r.request = req
    r.reason = {200: 'OK', 404: 'Not Found', 500: 'Internal Server Error'}.get(status, 'status %d' % status)
    return r


def _j(req, obj, status=200):
    return _resp(req, status, json.dumps(obj))


class World:
    PER_SERVICE = 2000  # requests one API call may need at the very most

    def __init__(self):
        self.led = {'main': Ledger('main'), 'test': Ledger('test')}
        self.log = []  # every HTTP exchange
        self.faults = {}  # (service, net) -> function(op, nth request of this op) -> Fault or None
        self.harness_errors = []
        self.nodes = {}  # 'host:port' -> dict(net=, user=, password=, path=)
        self.fee = {'fastestFee': 40, 'halfHourFee': 30, 'hourFee': 20, 'minimumFee': 1}
        self.fee_fault = None
        self.rates = {}  # currency -> price of 1 BTC (str), per provider: {'bitpay': {...}, 'bcinfo': {...}}
        self.rate_fault = {}  # provider -> fault kind
        self.fee_queries = 0
        self.too_many = 10 ** 9  # blockstream's UTXO limit
        self.max_log = 4000
        self.page = {}  # overrides of page sizes
        self.counter = {}
        self.barrier = None  # called before each answer (thread schedule perturbation)
        self.slow = None
        self.bcinfo_rate_style = '%s'
        self.lock = threading.RLock()

    # ------------------------------------------------------------ installation
    def install(self):
        world = self

        def send(adapter, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
            cur = World.current
            return cur.handle(request, timeout, verify, cert)

        World.current = world
        requests.adapters.HTTPAdapter.send = send
        return self

    current = None

    def reset_counters(self):
        self.counter = {}

    def handle(self, req, timeout, verify=True, cert=None):
        try:
            return self._handle(req, timeout, verify, cert)
        except requests.exceptions.RequestException:
            raise
        except Exception:
            self.harness_errors.append(traceback.format_exc())
            raise requests.exceptions.ConnectionError('harness error')

    def _handle(self, req, timeout, verify, cert):
        u = urlsplit(req.url)
        q = {k: v[-1] for k, v in parse_qs(u.query, keep_blank_values=True).items()}
        body = req.body
        if body is None:
            body = b''
        if isinstance(body, str):
            body = body.encode()
        host = u.hostname
        port = u.port
        service, net, op, fn = self.route(u, host, port, q, req.method, body)
        n = self.counter.get((service, net, op), 0)
        self.counter[(service, net, op)] = n + 1
        ev = {'service': service, 'net': net, 'op': op, 'n': n, 'method': req.method, 'url': req.url,
              'body': body.decode('latin1'), 'timeout': timeout, 'verify': verify, 'cert': cert, 'headers': dict(req.headers), 'outcome': None, 'raw': getattr(fn, 'raw', None)}
        self.log.append(ev)
        if len(self.log) > self.max_log:
            ev['outcome'] = 'flood'
            raise requests.exceptions.InvalidURL('simulator: too many requests, giving up')
        if self.barrier:
            self.barrier(ev)
        f = self.faults.get((service, net))
        f = f(op, n) if f else None
        if f is not None and f.kind != 'lost':
            ev['outcome'] = f.kind
            self._raise(f.kind, req)
            if f.kind == 'rpcerr':
                return _j(req, {'result': None, 'error': {'code': -1, 'message': 'injected'}, 'id': None}, 500)
            if f.kind.startswith('status:'):
                return _resp(req, int(f.kind[7:]), '<html><body>%s upstream error</body></html>' % f.kind[7:],
                             'text/html')
        if fn is None:
            ev['outcome'] = 'unknown-endpoint'
            return _resp(req, 404, 'no such endpoint', 'text/plain')
        with self.lock:
            r = fn(req)
        ev['outcome'] = r.status_code
        if f is not None and f.kind == 'lost':
            ev['outcome'] = 'lost'
            raise requests.exceptions.ReadTimeout('reply lost', request=req)
        return r

    def _raise(self, kind, req):
        if kind == 'conn':
            raise requests.exceptions.ConnectionError('injected', request=req)
        if kind == 'timeout':
            raise requests.exceptions.ReadTimeout('injected', request=req)
        if kind == 'connect_timeout':
            raise requests.exceptions.ConnectTimeout('injected', request=req)
        if kind == 'proxy':
            raise requests.exceptions.ProxyError('injected', request=req)
        if kind == 'ssl':
            raise requests.exceptions.SSLError('injected', request=req)

    # ------------------------------------------------------------ routing
    def route(self, u, host, port, q, method, body):
        path = u.path
        key = '%s:%s' % (host, port)
        if key in self.nodes:
            return self.route_rpc(key, u, body)
        if host == 'api.blockchair.com' and path.startswith('/bitcoin/'):
            rest = path[len('/bitcoin/'):]
            net = 'main'
            if rest.startswith('testnet/'):
                net, rest = 'test', rest[8:]
            return self.blockchair(net, rest, q, method, body)
        if host == 'blockstream.info':
            for pre, net in (('/api/', 'main'), ('/testnet/api/', 'test')):
                if path.startswith(pre):
                    return self.blockstream(net, path[len(pre):], q, method, body)
        if host == 'api.bitcore.io':
            for pre, net in (('/api/BTC/mainnet/', 'main'), ('/api/BTC/testnet/', 'test')):
                if path.startswith(pre):
                    return self.bitcore(net, path[len(pre):], q, method, body)
        if host in ('api.smartbit.com.au', 'testnet-api.smartbit.com.au') and path.startswith('/v1/blockchain/'):
            net = 'main' if host.startswith('api') else 'test'
            return self.smartbit(net, path[len('/v1/blockchain/'):], q, method, body, u)
        if host == 'blockchain.info':
            if path == '/tobtc':
                return self.rate('bcinfo', q.get('currency', ''))
            return self.bcinfo('main', path[1:], q, method, body)
        if host == 'mempool.space' and path.rstrip('/').endswith('/fees/recommended'):
            return 'mempool.space', None, 'fees', self.fees_reply
        if host == 'bitpay.com' and path.lower().startswith('/rates/btc/'):
            return self.rate('bitpay', path.split('/')[-1])
        return host, None, 'unknown', None

    def script(self, addr, net):
        try:
            n, s = ref.decode_address(addr)
        except ref.RefError:
            return None
        return s if n == net else None

    def push(self, net, raw):
        def fn(req):
            ok, what = self.led[net].accept(raw)
            return _j(req, {'data': {'transaction_hash': what}}) if ok else _resp(req, 400, what, 'text/plain')

        fn.raw = raw
        return fn

    @staticmethod
    def form(body, name):
        s = body.decode('latin1')
        if s.lstrip().startswith('{'):
            try:
                return json.loads(s).get(name, '')
            except ValueError:
                return ''
        return {k: v[-1] for k, v in parse_qs(s).items()}.get(name, s)

    # ------------------------------------------------------------ blockchair
    def blockchair(self, net, rest, q, method, body):
        led = self.led[net]
        S = 'blockchair'
        if rest == 'push/transaction':
            return S, net, 'broadcast', self.push(net, self.form(body, 'data'))
        if rest.startswith('raw/transaction/'):
            txid = rest.split('/')[-1]

            def fn(req):
                if txid not in led.raw:
                    # unknown: reported either way
                    return _resp(req, 404) if txid[-1] in '02468ace' else _j(req, {'data': None})
                return _j(req, {'data': {txid: {'raw_transaction': led.raw[txid]}}})

            return S, net, 'rawtx', fn
        if rest.startswith('dashboards/address/'):
            addr = rest.split('/')[-1]
            lim = min(int(q.get('limit', '100')), self.page.get('blockchair', 1000))
            off = int(q.get('offset', '0'))

            def fn(req):
                sc = self.script(addr, net)
                if sc is None or sc not in led.hist:
                    return _resp(req, 404, '{}')
                hist = sorted(led.hist[sc], key=lambda t: -(t[1] or 10 ** 9))
                ut = sorted(led.of(sc), key=lambda t: (-(t[3] or 10 ** 9), t[0], t[1]))
                return _j(req, {
                    'data': {addr: {
                        'address': {'script_hex': sc.hex(), 'balance': led.balance(sc),
                                    'unspent_output_count': len(ut), 'transaction_count': len(hist)},
                        'transactions': [t for t, _ in hist][off:off + lim],
                        'utxo': [{'block_id': b if b is not None else -1, 'transaction_hash': t, 'index': v,
                                  'value': a} for t, v, a, b in ut][off:off + lim]}},
                    'context': {'state': led.height}})

            return S, net, 'address', fn
        return S, net, 'unknown', None

    # ------------------------------------------------------------ blockstream
    def blockstream(self, net, rest, q, method, body):
        led = self.led[net]
        S = 'blockstream'
        if rest == 'tx' and method == 'POST':
            return S, net, 'broadcast', self.push(net, self.form(body, 'data'))
        if rest == 'blocks/tip/height':
            return S, net, 'height', lambda req: _resp(req, 200, str(led.height), 'text/plain')
        p = rest.split('/')
        if p[0] == 'tx' and len(p) == 3 and p[2] == 'hex':
            def fn(req):
                if p[1] not in led.raw:
                    return _resp(req, 404, 'Transaction not found')
                return _resp(req, 200, led.raw[p[1]], 'text/plain')

            return S, net, 'rawtx', fn
        if p[0] == 'address' and len(p) >= 2:
            addr = p[1]
            tail = '/'.join(p[2:])

            def fn(req):
                sc = self.script(addr, net)
                if sc is None:
                    return _resp(req, 400, 'Invalid Bitcoin address', 'text/plain')
                hist = led.hist.get(sc, [])
                conf = sorted([h for h in hist if h[1] is not None], key=lambda t: -t[1])
                unc = [h for h in hist if h[1] is None]
                if tail == '':
                    fund = led.balance(sc)
                    base = 12345
                    mem = sum(a for _, _, a, b in led.of(sc) if b is None)
                    return _j(req, {'chain_stats': {'funded_txo_sum': fund - mem + base, 'spent_txo_sum': base - 45},
                                    'mempool_stats': {'funded_txo_sum': mem + 45, 'spent_txo_sum': 90}})
                if tail == 'utxo':
                    ut = led.of(sc)
                    if len(ut) > self.too_many:
                        return _resp(req, 400, 'Too many history entries', 'text/plain')
                    return _j(req, [{'txid': t, 'vout': v, 'value': a,
                                     'status': {'confirmed': True, 'block_height': b} if b is not None
                                     else {'confirmed': False}} for t, v, a, b in ut])
                if tail == 'txs/mempool':
                    return _j(req, [{'txid': t} for t, _ in unc[:50]])
                if tail == 'txs/chain' or tail.startswith('txs/chain/'):
                    last = tail[len('txs/chain/'):]
                    ids = [t for t, _ in conf]
                    k = ids.index(last) + 1 if last in ids else 0
                    return _j(req, [{'txid': t} for t in ids[k:k + 25]])
                if tail == 'txs':
                    return _j(req, [{'txid': t} for t, _ in unc[:50] + conf[:25]])
                return _resp(req, 404)

            return S, net, {'': 'balance', 'utxo': 'utxo', 'txs/mempool': 'mempool'}.get(tail, 'txs'), fn
        return S, net, 'unknown', None

    # ------------------------------------------------------------ bitcore
    def bitcore(self, net, rest, q, method, body):
        led = self.led[net]
        S = 'bitcore'
        if rest == 'tx/send':
            return S, net, 'broadcast', self.push(net, self.form(body, 'rawTx'))
        p = [x for x in rest.split('/') if x]
        if p and p[0] == 'address' and len(p) >= 2:
            addr = p[1]
            if len(p) == 3 and p[2] == 'balance':
                def fb(req):
                    sc = self.script(addr, net)
                    b = led.balance(sc) if sc else 0
                    c = sum(a for t, v, a, h in led.of(sc) if h is not None) if sc else 0
                    return _j(req, {'confirmed': c, 'unconfirmed': b - c, 'balance': b})

                return S, net, 'balance', fb

            def fn(req):
                sc = self.script(addr, net)
                ut = sorted(led.of(sc), key=lambda t: (t[0], t[1])) if sc else []
                coins = [{'_id': '%s-%010d' % (t, v), 'value': a, 'script': sc.hex(), 'mintTxid': t, 'mintIndex': v,
                          'confirmations': led.height - b + 1 if b is not None else 0} for t, v, a, b in ut]
                since = q.get('since')
                if since:
                    coins = [c for c in coins if c['_id'] > since]
                return _j(req, coins[:int(q.get('limit', '10'))])

            return S, net, 'utxo', fn
        return S, net, 'unknown', None

    # ------------------------------------------------------------ smartbit
    def smartbit(self, net, rest, q, method, body, u):
        led = self.led[net]
        S = 'smartbit'
        if rest == 'pushtx':
            return S, net, 'broadcast', self.push(net, self.form(body, 'hex'))
        p = rest.split('/')
        if p[0] == 'tx' and len(p) == 3:
            def ft(req):
                if p[1] not in led.raw:
                    return _resp(req, 400, '{}')
                return _j(req, {'hex': [{'txid': p[1], 'hex': led.raw[p[1]]}]})

            return S, net, 'rawtx', ft
        if p[0] == 'address' and len(p) >= 2:
            addr = p[1]
            lim = min(int(q.get('limit', '10')), self.page.get('smartbit', 1000))
            start = int(q.get('next', '0'))
            link = '%s://%s%s?limit=%d&next=' % (u.scheme, u.netloc, u.path, lim)
            if len(p) == 3 and p[2] == 'unspent':
                def fu(req):
                    sc = self.script(addr, net)
                    ut = led.of(sc) if sc else []
                    page = ut[start:start + lim]
                    more = start + lim < len(ut)
                    return _j(req, {'success': True,
                                    'paging': {'next_link': link + str(start + lim) if more else None},
                                    'unspent': [{'value': '%d.%08d' % divmod(a, 10 ** 8), 'value_int': a,
                                                 'confirmations': led.height - b + 1 if b is not None else 0,
                                                 'script_pub_key': {'hex': sc.hex()}, 'txid': t, 'n': v}
                                                for t, v, a, b in page]})

                return S, net, 'utxo', fu

            def fa(req):
                sc = self.script(addr, net)
                hist = led.hist.get(sc, []) if sc else []
                d = {'total': {'balance_int': led.balance(sc) if sc else 0}}
                if hist:
                    page = hist[start:start + lim]
                    more = start + lim < len(hist)
                    d['transactions'] = [{'txid': t} for t, _ in page]
                    d['transaction_paging'] = {'next_link': link + str(start + lim) if more else None}
                return _j(req, {'success': True, 'address': d})

            return S, net, 'address', fa
        return S, net, 'unknown', None

    # ------------------------------------------------------------ blockchain.info
    def bcinfo(self, net, rest, q, method, body):
        led = self.led[net]
        S = 'blockchain.info'
        if rest == 'pushtx':
            return S, net, 'broadcast', self.push(net, self.form(body, 'tx'))
        if rest.startswith('rawtx/'):
            txid = rest.split('/')[-1]

            def ft(req):
                if txid not in led.raw:
                    return _resp(req, 500, 'Transaction not found', 'text/plain')
                return _resp(req, 200, led.raw[txid], 'text/plain')

            return S, net, 'rawtx', ft
        if rest.startswith('address/'):
            addr = rest.split('/')[-1]

            def fa(req):
                sc = self.script(addr, net)
                hist = led.hist.get(sc, []) if sc else []
                off = int(q.get('offset', '0'))
                lim = min(int(q.get('limit', '50')), 50)
                return _j(req, {'final_balance': led.balance(sc) if sc else 0, 'n_tx': len(hist),
                                'txs': [{'hash': t} for t, _ in hist[off:off + lim]]})

            return S, net, 'balance' if q.get('limit') == '0' else 'txs', fa
        if rest == 'unspent':
            def fu(req):
                sc = self.script(q.get('active', ''), net)
                ut = led.of(sc) if sc else []
                if not ut:
                    return _resp(req, 500, 'No free outputs to spend', 'text/plain')
                off = int(q.get('offset', '0'))
                lim = min(int(q.get('limit', '250')), 1000)
                return _j(req, {'unspent_outputs': [
                    {'tx_hash_big_endian': t, 'tx_hash': bytes.fromhex(t)[::-1].hex(), 'tx_output_n': v, 'value': a,
                     'script': sc.hex(), 'confirmations': led.height - b + 1 if b is not None else 0}
                    for t, v, a, b in ut[off:off + lim]]})

            return S, net, 'utxo', fu
        return S, net, 'unknown', None

    # ------------------------------------------------------------ RPC node
    def route_rpc(self, key, u, body):
        nd = self.nodes[key]
        net = nd['net']
        led = self.led[net]
        try:
            call = json.loads(body)
        except ValueError:
            return 'node', net, 'garbage', lambda req: _resp(req, 400)
        m, p = call.get('method'), call.get('params')

        def fn(req):
            want = 'Basic ' + base64.b64encode(('%s:%s' % (nd['user'], nd['password'])).encode()).decode()
            if req.headers.get('Authorization') != want:
                return _resp(req, 401, '')

            def ok(x):
                return _j(req, {'result': x, 'error': None, 'id': None})

            def err(code, msg):
                return _j(req, {'result': None, 'error': {'code': code, 'message': msg}, 'id': None}, 500)

            def amt(a):
                return float('%d.%08d' % divmod(a, 10 ** 8))

            if m == 'listunspent':
                lo, hi, addrs = p[0], p[1], p[2]
                out = []
                for a in addrs:
                    sc = self.script(a, net)
                    if sc is None:
                        return err(-5, 'Invalid Bitcoin address: ' + a)
                    for t, v, x, b in led.of(sc):
                        c = led.height - b + 1 if b is not None else 0
                        if lo <= c <= hi:
                            out.append({'txid': t, 'vout': v, 'amount': amt(x), 'confirmations': c,
                                        'scriptPubKey': sc.hex(), 'address': a})
                return ok(out)
            if m == 'getreceivedbyaddress':
                sc = self.script(p[0], net)
                if sc is None:
                    return err(-5, 'Invalid Bitcoin address')
                return ok(amt(led.received.get(sc, 0)))
            if m == 'listreceivedbyaddress':
                sc = self.script(p[3], net)
                h = led.rtx.get(sc, [])
                return ok([{'address': p[3], 'txids': list(h)}] if h else [])
            if m == 'getrawtransaction':
                if p[0] not in led.raw:
                    return err(-5, 'No such mempool or blockchain transaction')
                return ok(led.raw[p[0]])
            if m == 'sendrawtransaction':
                k, w = led.accept(p[0])
                return ok(w) if k else err(-26, w)
            return err(-32601, 'Method not found')

        if m == 'sendrawtransaction' and p:
            fn.raw = p[0]
        return 'node', net, 'broadcast' if m == 'sendrawtransaction' else str(m), fn

    # ------------------------------------------------------------ fees and rates
    def fees_reply(self, req):
        self.fee_queries += 1
        k = self.fee_fault
        if k:
            self._raise(k, req)
            if k.startswith('status:'):
                return _resp(req, int(k[7:]), '<html>error</html>', 'text/html')
            if k.startswith('body:'):
                return _resp(req, 200, k[5:], 'application/json')
        return _j(req, self.fee)

    def rate(self, provider, cur):
        def fn(req):
            k = self.rate_fault.get(provider)
            if k:
                self._raise(k, req)
                if k.startswith('status:'):
                    return _resp(req, int(k[7:]), '<html>error</html>', 'text/html')
            price = self.rates.get(provider, {}).get(cur.lower())
            if price is None:
                return _resp(req, 404, '{}')
            if provider == 'bitpay':
                return _resp(req, 200, '{"data":{"code":"%s","name":"x","rate":%s}}' % (cur.upper(), price))
            return _resp(req, 200, price, 'text/plain')

        return provider, None, 'rate:' + cur.lower(), fn
