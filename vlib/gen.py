"""Input generators: boundary-heavy, seeded, JSON-serialisable cases."""
import math

from . import ref

SPECIAL_KEYS = [1, 2, 3, ref.N - 1, ref.N - 2, (ref.N - 1) // 2, (ref.N + 1) // 2,
                153, 246, 886, 44629, 58165,  # public X with leading zero bytes
                122, 130, 533,  # public Y with leading zero bytes
                182, 199, 415,  # hash160(compressed) starts with 00
                411, 511, 693,  # hash160(uncompressed) starts with 00
                261, 1466, 1570,  # nested segwit script hash starts with 00
                0xFF, 0x100, 2 ** 128, 2 ** 128 + 1, 2 ** 248 - 1, 2 ** 248, 2 ** 240 + 7, 2 ** 255, 256 ** 30,
                0x0101, 2 ** 247 + 1, int('01' * 32, 16), int('80' * 31, 16), int('f0' * 31 + '01', 16)]


def key_int(rng, dic=None):
    x = rng.random()
    if x < 0.3:
        return rng.choice(SPECIAL_KEYS)
    if x < 0.4:
        return rng.getrandbits(rng.randint(1, 255)) or 1
    if x < 0.45:
        return rng.randint(1, ref.N - 1) & ~0xFF | 1  # low byte 01 looks like a compression flag
    if dic is not None and x < 0.5:
        return max(1, rng.choice(dic.all) % ref.N)
    return rng.randint(1, ref.N - 1)


def h20(rng):
    x = rng.random()
    b = bytearray(rng.getrandbits(8) for _ in range(20))
    if x < 0.15:
        for i in range(rng.randint(1, 3)):
            b[i] = 0
    elif x < 0.2:
        b = bytearray(rng.choice([0, 1, 0x14, 0x6A, 0x76, 0xFF]) for _ in range(20))
    elif x < 0.23:
        b[-1] = 0
    return bytes(b)


def h32(rng):
    b = bytearray(rng.getrandbits(256).to_bytes(32, 'big'))
    if rng.random() < 0.15:
        b[0] = 0
    return bytes(b)


def address(rng, net, kinds=('p2pkh', 'p2sh', 'p2wpkh', 'p2wsh')):
    k = rng.choice(kinds)
    v = ref.VER[net]
    if k == 'p2pkh':
        return ref.b58check(bytes([v[0]]) + h20(rng))
    if k == 'p2sh':
        return ref.b58check(bytes([v[1]]) + h20(rng))
    hrp = v[3]
    if net == 'test' and rng.random() < 0.15:
        hrp = 'bcrt'
    if k == 'p2wpkh':
        a = ref.segwit_addr(hrp, 0, h20(rng))
    elif k == 'p2wsh':
        a = ref.segwit_addr(hrp, 0, h32(rng))
    else:
        n = rng.choice([2, 3, 20, 32, 40, rng.randint(2, 40)])
        a = ref.segwit_addr(hrp, rng.randint(1, 16), bytes(rng.getrandbits(8) for _ in range(n)))
    return a.upper() if rng.random() < 0.15 else a


def txid(rng):
    x = rng.random()
    b = bytearray(rng.getrandbits(256).to_bytes(32, 'big'))
    if x < 0.1:
        b[0] = 0
    elif x < 0.2:
        b[-1] = 0
    elif x < 0.25:
        b[0] = b[1] = 0
    return bytes(b).hex()


def wallet(rng, ctx, net=None, kind=None, maxn=5):
    net = net or rng.choice(['main', 'main', 'test'])
    kind = kind or ('single' if rng.random() < 0.75 else 'multi')
    if kind == 'single':
        return {'kind': 'single', 'net': net, 'k': hex(key_int(rng, ctx.dic)), 'comp': rng.random() < 0.75}
    n = rng.randint(1, maxn)
    m = rng.randint(1, n) if n < 6 or rng.random() < 0.6 else rng.randint(1, 3)
    ks = []
    while len(ks) < n:
        k = key_int(rng, ctx.dic)
        if hex(k) not in ks:
            ks.append(hex(k))
    comp = [rng.random() < 0.9 for _ in ks] if rng.random() < 0.25 else [True] * n
    while sum(34 if c else 66 for c in comp) + 3 > 520:
        comp[comp.index(False)] = True
    signers = list(range(n))
    rng.shuffle(signers)
    return {'kind': 'multi', 'net': net, 'ks': ks, 'comp': comp, 'm': m, 'signers': signers[:m],
            'as_set': rng.random() < 0.3}


def n_count(rng, ctx, big):
    """Number of inputs or outputs."""
    x = rng.random()
    if x < 0.75:
        return rng.randint(1, 6)
    if x < 0.95 or not big:
        return rng.randint(7, 24)
    return rng.choice([c for c in ctx.dic.within(25, 300)])


def message(rng, ctx):
    x = rng.random()
    if x < 0.15:
        n = rng.choice([80, 160, 240, 81, 79, 75, 76, 77, 161, 78])
    elif x < 0.6:
        n = rng.choice(ctx.dic.within(1, 520))
    else:
        n = rng.randint(1, 260)
    if rng.random() < 0.5:
        # text (possibly multi byte)
        alpha = rng.choice(['abcdefg hij', 'äöüß€漢字😀x', '0123456789abcdef', 'hello\n\t\0',
                            # texts some tools would normalise, fold or trim
                            'aeo\u0301\u0308\u0327n\u0303', '\ufb01\u2460\u00bd\u212bAİıßẞ', ' \t\r\nx\x1c\x85\u3000',
                            '\ufeff\u200b\u202e\u00adx', 'AbCdEf "\'\\<&%{}'])
        s = ''
        while len(s.encode()) < n:
            s += rng.choice(alpha)
        while len(s.encode()) > n:
            s = s[:-1]
        s = s or 'x'
        return {'text': s}
    x = rng.random()
    if x < 0.1:
        return {'bytes': bytes(n)}
    if x < 0.2:
        return {'bytes': bytes([rng.choice([0x4C, 0x4D, 0x6A, 0x50, 0xFF, 1, 16])]) * n}
    return {'bytes': bytes(rng.getrandbits(8) for _ in range(n))}


OUT_SIZE = {'p2pkh': 34}


def tx_case(rng, ctx, *, net=None, kind=None, msg=0.2, rbf=0.2, big=True, combine=None, absolute=None, edge=0.3,
            mode=None, units=('satoshi',), rate_hi=300):
    """A complete request to create (and sign) a transaction."""
    w = wallet(rng, ctx, net, kind, rng.choice([5] * 9 + [15]))
    net = w['net']
    dic = ctx.dic
    can_seg = all(w['comp']) if w['kind'] == 'multi' else w['comp']
    combine = (rng.random() < 0.6) if combine is None else combine
    absolute = (rng.random() < 0.25) if absolute is None else absolute
    n_in = n_count(rng, ctx, big and combine)
    if not combine:
        n_in = min(n_in, 18 if rng.random() < 0.05 else 11)
    if w['kind'] == 'multi':
        n_in = min(n_in, 40 if len(w['ks']) < 6 else 6)
    mixk = rng.choice(['l', 's', 'ls']) if can_seg else 'l'
    style = rng.random()
    ups, seen, shared = [], set(), txid(rng)
    for i in range(n_in):
        if style < 0.55:
            a = rng.randint(10000, 10 ** rng.randint(5, 10))
        elif style < 0.8:
            a = dic.pick(rng, 1000, 21 * 10 ** 13)
        elif style < 0.9:
            a = rng.choice([10 ** 5, 10 ** 8, 2 ** 32])
        else:
            a = dic.pick(rng, 1, 10 ** 7) if rng.random() < 0.97 else 0
        t = shared if rng.random() < 0.3 else txid(rng)
        v = rng.randint(0, 3) if rng.random() < 0.6 else dic.pick(rng, 0, 2 ** 32 - 1)
        while (t, v) in seen:
            v = rng.randint(0, 2 ** 20)
        seen.add((t, v))
        conf = rng.choice([0, 1, 6, 100, dic.pick(rng, 0, 600000)])
        seq = 0xFFFFFFFF
        if rng.random() < 0.15:
            seq = rng.choice([0, 1, 0xFFFFFFFD, 0xFFFFFFFE, 0xFFFFFFFC, 50000, dic.pick(rng, 0, 0xFFFFFFFF)])
        ups.append([a, t, v, rng.choice(mixk), conf, seq])
    while sum(u[0] for u in ups) > ref.MAX_MONEY:
        ups.sort()
        ups[-1][0] = rng.randint(10000, 10 ** 8)
    total = sum(u[0] for u in ups)
    m = message(rng, ctx) if rng.random() < msg else None
    nmsg = 0
    if m:
        blen = len(m['text'].encode()) if 'text' in m else len(m['bytes'])
        nmsg = (blen + 79) // 80
    n_out = n_count(rng, ctx, big)
    if rng.random() < 0.5:
        n_out = rng.randint(1, 3)
    if m and rng.random() < 0.1:
        n_out = 0
    n_out = min(n_out, max(1, total // 1000))
    outs_addr = [address(rng, net) for _ in range(n_out)]
    if n_out > 1 and rng.random() < 0.1:
        outs_addr[-1] = outs_addr[0]
    insz = 0
    for u in ups:
        insz += in_size(w, u[3])
    sz = insz + 12 + sum(len(ref.script_for(a)) + 9 for a in outs_addr) + 43 + 9 + nmsg * 92 + (n_in + n_out) // 60
    rate = 0
    if absolute:
        fee = dic.pick(rng, 1, max(1, min(total // 2, 10 ** 9)))
        cost = fee
    else:
        top = max(1, min(rate_hi, int((total // 2) // sz)))
        fee = dic.pick(rng, 1, top) if rng.random() < 0.6 else rng.randint(1, min(top, 60))
        cost = math.ceil(fee * sz)
    spend = total - cost
    if spend < n_out:
        fee, absolute, cost = 1, True, 1
        spend = total - 1
    elif rng.random() < 0.03:
        fee, cost, spend = 0, 0, total  # free of charge
    x = rng.random()
    if x < edge and n_out:
        target = spend - rng.choice([0, 1, 2, 5, 34, 100, 545, 546, fee, fee * 34, fee * 10])
        if absolute:
            target = total - cost - rng.choice([0, 0, 1, 2, 546])
    elif x < edge + 0.15:
        target = dic.pick(rng, 1, max(1, spend))
    else:
        target = rng.randint(1, max(1, spend))
    if not combine and rng.random() < 0.35 and n_out:
        # aim at a subset so that exact matches (no change) happen
        sub = rng.sample(ups, rng.randint(1, len(ups)))
        s = sum(u[0] for u in sub)
        ss = sum(in_size(w, u[3]) for u in sub) + 10 + sum(len(ref.script_for(a)) + 9 for a in outs_addr) + nmsg * 92
        target = s - (cost if absolute else fee * ss) - rng.choice([0, 1, fee, 2 * fee, rng.randint(0, 182 * fee)])
    target = max(math.floor(target), n_out)
    if rng.random() < 0.04:
        target = total + rng.choice([1, 10 ** 4, 10 ** 9])  # more than there is
    amounts = []
    if n_out:
        cuts = sorted(rng.randint(0, target - n_out) for _ in range(n_out - 1))
        prev = 0
        for c in cuts + [target - n_out]:
            amounts.append(c - prev + 1)
            prev = c
        if n_out > 1 and rng.random() < 0.2:
            i = rng.randrange(n_out)
            j = rng.randrange(n_out)
            v = dic.pick(rng, 1, amounts[i])
            amounts[j], amounts[i] = amounts[j] + amounts[i] - v if i != j else amounts[j], v if i != j else amounts[i]
    outputs = []
    for a, v in zip(outs_addr, amounts):
        u = rng.choice(units)
        outputs.append([a, amount_str(rng, v, u), u, v])
    leftover = None
    y = rng.random()
    if y < 0.3:
        leftover = address(rng, net)
    elif y < 0.34 and outs_addr:
        leftover = outs_addr[0]
    c = {'w': w, 'ups': ups, 'outs': outputs, 'fee': fee, 'abs': absolute, 'leftover': leftover, 'combine': combine,
         'msg': m, 'rbf': rng.random() < rbf, 'mode': mode or 'direct', 'rs': rng.getrandbits(32)}
    return c


def in_size(w, kind):
    if w['kind'] == 'single':
        return 91 if kind == 's' else (148 if w['comp'] else 180)
    rs = 3 + sum(34 if c else 66 for c in w['comp'])
    p = 1 + w['m'] * 74 + len(ref.varint(rs)) + rs
    if kind == 's':
        return 36 + 40 + (1 + p) / 4
    return 36 + len(ref.varint(p)) + p + 4


def amount_str(rng, sat, unit):
    """The amount in ``unit`` as one of the number types users pass: int, str, float-able str."""
    d = {'satoshi': 0, 'ubtc': 2, 'mbtc': 5, 'btc': 8}[unit]
    if d == 0:
        x = rng.random()
        if x > 0.9:
            # (28 significant digits are what decimal numbers are computed with)
            return '%d.%s' % (sat, rng.choice(['0', '9', '5', '9' * min(rng.randint(10, 14), 28 - len(str(sat))), '999']))
        return sat if x < 0.65 else str(sat)
    q, r = divmod(sat, 10 ** d)
    s = '%d.%0*d' % (q, d, r)
    x = rng.random()
    if x < 0.3:
        s = s.rstrip('0').rstrip('.')
    elif x < 0.4 and len(s.replace('.', '').lstrip('0')) <= 15:
        return float(s)
    elif x < 0.45:
        s = '0' + s
    elif x < 0.6:
        # fractions of a satoshi are dropped, however close to the next one
        s += rng.choice(['9' * rng.randint(1, 12), '0' * rng.randint(1, 12) + '1', str(rng.getrandbits(30))])
        if x < 0.5:
            import decimal
            return decimal.Decimal(s)
    return s
