"""Independent reference implementation of the Bitcoin rules the monitors judge by.

Nothing in this file imports ``bit`` (or coincurve, which ``bit`` is built on).
Elliptic-curve arithmetic comes from OpenSSL through ``cryptography`` with a
pure-Python implementation used to cross-check it (see ``selftest``).
"""
import hashlib
import hmac
from functools import lru_cache

from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec
from cryptography.hazmat.primitives.asymmetric.utils import Prehashed, encode_dss_signature

P = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
GX = 0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798
GY = 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8
MAX_MONEY = 21_000_000 * 100_000_000


class RefError(Exception):
    """The reference rejects the object under inspection."""


def sha256(b):
    return hashlib.sha256(b).digest()


def dsha256(b):
    return sha256(sha256(b))


def hash160(b):
    return hashlib.new('ripemd160', sha256(b)).digest()


# ---------------------------------------------------------------- curve (pure python)
def pt_add(p, q):
    if p is None:
        return q
    if q is None:
        return p
    if p[0] == q[0]:
        if (p[1] + q[1]) % P == 0:
            return None
        l = 3 * p[0] * p[0] * pow(2 * p[1], -1, P) % P
    else:
        l = (q[1] - p[1]) * pow(q[0] - p[0], -1, P) % P
    x = (l * l - p[0] - q[0]) % P
    return x, (l * (p[0] - x) - p[1]) % P


def pt_mul(k, p=(GX, GY)):
    r = None
    while k:
        if k & 1:
            r = pt_add(r, p)
        p = pt_add(p, p)
        k >>= 1
    return r


@lru_cache(maxsize=20000)
def point(k):
    """Public point of private key ``k`` (OpenSSL)."""
    nums = ec.derive_private_key(k, ec.SECP256K1()).public_key().public_numbers()
    return nums.x, nums.y


def ser_pub(pt, compressed=True):
    x, y = pt
    if compressed:
        return (b'\x03' if y & 1 else b'\x02') + x.to_bytes(32, 'big')
    return b'\x04' + x.to_bytes(32, 'big') + y.to_bytes(32, 'big')


def pubkey(k, compressed=True):
    return ser_pub(point(k), compressed)


def parse_pub(b):
    if len(b) == 33 and b[0] in (2, 3):
        x = int.from_bytes(b[1:], 'big')
        if x >= P:
            raise RefError('pubkey x out of range')
        y2 = (pow(x, 3, P) + 7) % P
        y = pow(y2, (P + 1) // 4, P)
        if y * y % P != y2:
            raise RefError('pubkey not on curve')
        if y & 1 != b[0] & 1:
            y = P - y
        return x, y
    if len(b) == 65 and b[0] == 4:
        x, y = int.from_bytes(b[1:33], 'big'), int.from_bytes(b[33:], 'big')
        if x >= P or y >= P or (y * y - x ** 3 - 7) % P:
            raise RefError('pubkey not on curve')
        return x, y
    raise RefError('bad public key encoding')


@lru_cache(maxsize=20000)
def _ossl_pub(b):
    x, y = parse_pub(b)
    return ec.EllipticCurvePublicNumbers(x, y, ec.SECP256K1()).public_key()


def parse_der(sig):
    """Strict DER (BIP66) signature without sighash byte -> (r, s)."""
    if not 8 <= len(sig) <= 72:
        raise RefError('DER: bad length %d' % len(sig))
    if sig[0] != 0x30 or sig[1] != len(sig) - 2 or sig[2] != 2:
        raise RefError('DER: bad header')
    lr = sig[3]
    if lr == 0 or 5 + lr >= len(sig) or sig[4 + lr] != 2:
        raise RefError('DER: bad R')
    ls = sig[5 + lr]
    if ls == 0 or lr + ls + 6 != len(sig):
        raise RefError('DER: bad S')
    rb, sb = sig[4:4 + lr], sig[6 + lr:]
    for v in (rb, sb):
        if v[0] & 0x80:
            raise RefError('DER: negative')
        if len(v) > 1 and v[0] == 0 and not v[1] & 0x80:
            raise RefError('DER: padded')
    return int.from_bytes(rb, 'big'), int.from_bytes(sb, 'big')


def encode_der(r, s):
    def i(v):
        b = v.to_bytes((v.bit_length() + 7) // 8 or 1, 'big')
        if b[0] & 0x80:
            b = b'\0' + b
        return b'\x02' + bytes([len(b)]) + b

    body = i(r) + i(s)
    return b'\x30' + bytes([len(body)]) + body


def ecdsa_verify(pub, digest, r, s):
    if not (0 < r < N and 0 < s < N):
        return False
    try:
        _ossl_pub(pub).verify(encode_dss_signature(r, s), digest, ec.ECDSA(Prehashed(hashes.SHA256())))
        return True
    except InvalidSignature:
        return False


def ecdsa_verify_py(pub, digest, r, s):
    if not (0 < r < N and 0 < s < N):
        return False
    z = int.from_bytes(digest, 'big')
    w = pow(s, -1, N)
    q = pt_add(pt_mul(z * w % N), pt_mul(r * w % N, parse_pub(pub)))
    return q is not None and q[0] % N == r


def rfc6979_sign(k, digest):
    """Deterministic low-S ECDSA, as libsecp256k1 does it by default."""
    x = k.to_bytes(32, 'big')
    V, K = b'\x01' * 32, b'\0' * 32

    def h(key, *a):
        return hmac.new(key, b''.join(a), hashlib.sha256).digest()

    K = h(K, V, b'\0', x, digest)
    V = h(K, V)
    K = h(K, V, b'\1', x, digest)
    V = h(K, V)
    z = int.from_bytes(digest, 'big')
    while True:
        V = h(K, V)
        n = int.from_bytes(V, 'big')
        if 0 < n < N:
            r = point(n)[0] % N
            s = pow(n, -1, N) * (z + r * k) % N
            if r and s:
                if s > N // 2:
                    s = N - s
                return encode_der(r, s)
        K = h(K, V, b'\0')
        V = h(K, V)


# ---------------------------------------------------------------- base58 / bech32
B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
_B58I = {c: i for i, c in enumerate(B58)}


def b58enc(b):
    digits = [0]
    for byte in b:
        c = byte
        for i in range(len(digits)):
            c += digits[i] << 8
            digits[i] = c % 58
            c //= 58
        while c:
            digits.append(c % 58)
            c //= 58
    zeros = len(b) - len(b.lstrip(b'\0'))
    while digits and digits[-1] == 0:
        digits.pop()
    return '1' * zeros + ''.join(B58[d] for d in reversed(digits))


def b58dec(s):
    out = []
    for ch in s:
        if ch not in _B58I:
            raise RefError('bad base58 char')
        c = _B58I[ch]
        for i in range(len(out)):
            c += out[i] * 58
            out[i] = c & 255
            c >>= 8
        while c:
            out.append(c & 255)
            c >>= 8
    zeros = len(s) - len(s.lstrip('1'))
    return b'\0' * zeros + bytes(reversed(out))


def b58check(b):
    return b58enc(b + dsha256(b)[:4])


def b58check_dec(s):
    raw = b58dec(s)
    if len(raw) < 4 or dsha256(raw[:-4])[:4] != raw[-4:]:
        raise RefError('bad base58 checksum')
    return raw[:-4]


CHARSET = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'
_GEN = (0x3B6A57B2, 0x26508E6D, 0x1EA119FA, 0x3D4233DD, 0x2A1462B3)


def _polymod(vals):
    c = 1
    for v in vals:
        t = c >> 25
        c = ((c & 0x1FFFFFF) << 5) ^ v
        for i in range(5):
            if t >> i & 1:
                c ^= _GEN[i]
    return c


def _hrpx(h):
    return [ord(c) >> 5 for c in h] + [0] + [ord(c) & 31 for c in h]


def bech32_raw(hrp, vals, const=1):
    p = _polymod(_hrpx(hrp) + vals + [0] * 6) ^ const
    return hrp + '1' + ''.join(CHARSET[v] for v in vals + [(p >> 5 * (5 - i)) & 31 for i in range(6)])


def to5(data):
    n = int.from_bytes(data, 'big')
    bits = len(data) * 8
    pad = -bits % 5
    n <<= pad
    bits += pad
    return [(n >> (bits - 5 * (i + 1))) & 31 for i in range(bits // 5)]


def from5(vals):
    n = 0
    for v in vals:
        n = n << 5 | v
    bits = len(vals) * 5
    extra = bits % 8
    if extra > 4 or n & ((1 << extra) - 1):
        raise RefError('bech32 padding')
    return (n >> extra).to_bytes(bits // 8, 'big')


def segwit_addr(hrp, ver, prog):
    return bech32_raw(hrp, [ver] + to5(prog))


def segwit_dec(addr):
    """BIP173 decode -> (network, version, program)."""
    if any(not 33 <= ord(c) <= 126 for c in addr):
        raise RefError('bech32 charset')
    if addr.lower() != addr and addr.upper() != addr:
        raise RefError('bech32 mixed case')
    a = addr.lower()
    pos = a.rfind('1')
    if pos < 1 or pos + 7 > len(a) or len(a) > 90:
        raise RefError('bech32 length')
    hrp, rest = a[:pos], a[pos + 1:]
    if any(c not in CHARSET for c in rest):
        raise RefError('bech32 data char')
    vals = [CHARSET.index(c) for c in rest]
    if _polymod(_hrpx(hrp) + vals) != 1:
        raise RefError('bech32 checksum')
    net = {'bc': 'main', 'tb': 'test', 'bcrt': 'test'}.get(hrp)
    if net is None:
        raise RefError('bech32 hrp')
    vals = vals[:-6]
    if not vals or vals[0] > 16:
        raise RefError('witness version')
    prog = from5(vals[1:])
    if not 2 <= len(prog) <= 40 or (vals[0] == 0 and len(prog) not in (20, 32)):
        raise RefError('witness program length')
    return net, vals[0], prog


def decode_address(addr):
    """-> (network, scriptPubKey); RefError when the address is not valid."""
    try:
        net, ver, prog = segwit_dec(addr)
        return net, bytes([0x50 + ver if ver else 0, len(prog)]) + prog
    except RefError:
        pass
    raw = b58check_dec(addr)
    if len(raw) != 21:
        raise RefError('address payload length')
    v, h = raw[0], raw[1:]
    if v in (0x00, 0x6F):
        return ('main' if v == 0 else 'test'), b'\x76\xa9\x14' + h + b'\x88\xac'
    if v in (0x05, 0xC4):
        return ('main' if v == 5 else 'test'), b'\xa9\x14' + h + b'\x87'
    raise RefError('address version')


def script_for(addr):
    return decode_address(addr)[1]


VER = {'main': (0x00, 0x05, 0x80, 'bc'), 'test': (0x6F, 0xC4, 0xEF, 'tb')}


def p2pkh_addr(pub, net):
    return b58check(bytes([VER[net][0]]) + hash160(pub))


def p2sh_addr(script, net):
    return b58check(bytes([VER[net][1]]) + hash160(script))


def np2wkh_addr(pub, net):
    return p2sh_addr(b'\0\x14' + hash160(pub), net)


def multisig_script(pubs, m):
    return bytes([0x50 + m]) + b''.join(bytes([len(p)]) + p for p in pubs) + bytes([0x50 + len(pubs), 0xAE])


def np2wsh_addr(script, net):
    return p2sh_addr(b'\0\x20' + sha256(script), net)


def wif(k, net, compressed):
    return b58check(bytes([VER[net][2]]) + k.to_bytes(32, 'big') + (b'\x01' if compressed else b''))


# ---------------------------------------------------------------- transactions
def unwif(text):
    """-> (network, secret, compressed)."""
    b = b58check_dec(text)
    for net, v in VER.items():
        if b[0] == v[2]:
            if len(b) == 33:
                comp = False
            elif len(b) == 34 and b[33] == 1:
                comp = True
            else:
                raise RefError('WIF payload of %d bytes' % len(b))
            k = int.from_bytes(b[1:33], 'big')
            if not 0 < k < N:
                raise RefError('secret out of range')
            return net, k, comp
    raise RefError('WIF version %d' % b[0])


def varint(n):
    if n < 0xFD:
        return bytes([n])
    if n <= 0xFFFF:
        return b'\xfd' + n.to_bytes(2, 'little')
    if n <= 0xFFFFFFFF:
        return b'\xfe' + n.to_bytes(4, 'little')
    return b'\xff' + n.to_bytes(8, 'little')


class Rd:
    def __init__(self, b):
        self.b, self.i = b, 0

    def take(self, n):
        if self.i + n > len(self.b):
            raise RefError('tx truncated')
        r = self.b[self.i:self.i + n]
        self.i += n
        return r

    def u(self, n):
        return int.from_bytes(self.take(n), 'little')

    def var(self):
        c = self.u(1)
        if c < 0xFD:
            return c
        n = {0xFD: 2, 0xFE: 4, 0xFF: 8}[c]
        v = self.u(n)
        if v < {2: 0xFD, 4: 0x10000, 8: 0x100000000}[n]:
            raise RefError('non canonical varint')
        return v

    def vs(self):
        return self.take(self.var())


class In:
    __slots__ = ('txid', 'vout', 'script', 'seq', 'wit')

    def __init__(self, txid, vout, script=b'', seq=0xFFFFFFFF, wit=()):
        self.txid, self.vout, self.script, self.seq, self.wit = txid, vout, script, seq, list(wit)


class Out:
    __slots__ = ('value', 'script')

    def __init__(self, value, script):
        self.value, self.script = value, script


class Tx:
    __slots__ = ('version', 'ins', 'outs', 'lock', 'segwit')

    def __init__(self, version=1, ins=(), outs=(), lock=0):
        self.version, self.ins, self.outs, self.lock = version, list(ins), list(outs), lock
        self.segwit = None

    @classmethod
    def parse(cls, raw, superfluous=False):
        if isinstance(raw, str):
            try:
                raw = bytes.fromhex(raw)
            except ValueError:
                raise RefError('tx is not hex')
        if not isinstance(raw, (bytes, bytearray)):
            raise RefError('%s instead of a transaction' % type(raw).__name__)
        r = Rd(raw)
        t = cls(version=r.u(4))
        sw = raw[4:6] == b'\0\1'
        if sw:
            r.take(2)
        for _ in range(r.var()):
            txid = r.take(32)[::-1].hex()
            t.ins.append(In(txid, r.u(4), r.vs(), r.u(4)))
        for _ in range(r.var()):
            t.outs.append(Out(r.u(8), r.vs()))
        if sw:
            for i in t.ins:
                i.wit = [r.vs() for _ in range(r.var())]
            if not superfluous and not any(i.wit for i in t.ins):
                raise RefError('superfluous witness record')
        t.lock = r.u(4)
        if r.i != len(raw):
            raise RefError('%d trailing bytes after tx' % (len(raw) - r.i))
        if not t.ins:
            raise RefError('tx without inputs')
        if not t.outs:
            raise RefError('tx without outputs')
        t.segwit = sw
        return t

    def base(self):
        return (
            self.version.to_bytes(4, 'little')
            + varint(len(self.ins))
            + b''.join(
                bytes.fromhex(i.txid)[::-1] + i.vout.to_bytes(4, 'little') + varint(len(i.script)) + i.script
                + i.seq.to_bytes(4, 'little')
                for i in self.ins
            )
            + varint(len(self.outs))
            + b''.join(o.value.to_bytes(8, 'little') + varint(len(o.script)) + o.script for o in self.outs)
            + self.lock.to_bytes(4, 'little')
        )

    def ser(self):
        b = self.base()
        if not any(i.wit for i in self.ins):
            return b
        w = b''.join(varint(len(i.wit)) + b''.join(varint(len(x)) + x for x in i.wit) for i in self.ins)
        return b[:4] + b'\0\1' + b[4:-4] + w + b[-4:]

    def txid(self):
        return dsha256(self.base())[::-1].hex()

    def vsize(self):
        b, f = len(self.base()), len(self.ser())
        return (b * 3 + f + 3) // 4

    def sighash_legacy(self, idx, script_code):
        t = Tx(self.version, [In(i.txid, i.vout, script_code if j == idx else b'', i.seq)
                              for j, i in enumerate(self.ins)], self.outs, self.lock)
        return dsha256(t.base() + b'\1\0\0\0')

    def sighash_v0(self, idx, script_code, value, cache={}):
        key = id(self)
        c = cache.get(key)
        if c is None or c[0] is not self:
            prev = dsha256(b''.join(bytes.fromhex(i.txid)[::-1] + i.vout.to_bytes(4, 'little') for i in self.ins))
            seq = dsha256(b''.join(i.seq.to_bytes(4, 'little') for i in self.ins))
            outs = dsha256(b''.join(o.value.to_bytes(8, 'little') + varint(len(o.script)) + o.script
                                    for o in self.outs))
            cache.clear()
            c = cache[key] = (self, prev, seq, outs)
        _, prev, seq, outs = c
        i = self.ins[idx]
        return dsha256(
            self.version.to_bytes(4, 'little') + prev + seq + bytes.fromhex(i.txid)[::-1]
            + i.vout.to_bytes(4, 'little') + varint(len(script_code)) + script_code + value.to_bytes(8, 'little')
            + i.seq.to_bytes(4, 'little') + outs + self.lock.to_bytes(4, 'little') + b'\1\0\0\0'
        )


# ---------------------------------------------------------------- script
def parse_script(s):
    """-> list of (opcode, data or None); RefError when a push runs past the end."""
    r, out = Rd(s), []
    try:
        while r.i < len(s):
            op = r.u(1)
            if op <= 75:
                out.append((op, r.take(op)))
            elif op == 0x4C:
                out.append((op, r.take(r.u(1))))
            elif op == 0x4D:
                out.append((op, r.take(r.u(2))))
            elif op == 0x4E:
                out.append((op, r.take(r.u(4))))
            else:
                out.append((op, None))
    except RefError:
        raise RefError('script push past end')
    return out


def minimal_push(op, d):
    if len(d) == 0:
        return op == 0
    if len(d) == 1 and (1 <= d[0] <= 16 or d[0] == 0x81):
        return False
    if len(d) <= 75:
        return op == len(d)
    if len(d) <= 255:
        return op == 0x4C
    return op == (0x4D if len(d) <= 65535 else 0x4E)


def _check_sig(sig, pub, digest_of, wit):
    if not sig:
        return False
    if sig[-1] != 1:
        raise RefError('sighash type is not ALL')
    r, s = parse_der(sig[:-1])
    if s > N // 2:
        raise RefError('high S signature')
    if wit and len(pub) != 33:
        raise RefError('uncompressed key in witness')
    parse_pub(pub)
    return ecdsa_verify(pub, digest_of(), r, s)


def run_script(script, stack, digest_of, wit):
    for op, d in parse_script(script):
        if d is not None:
            if not minimal_push(op, d):
                raise RefError('non minimal push')
            if len(d) > 520:
                raise RefError('push > 520 bytes')
            stack.append(d)
        elif 0x51 <= op <= 0x60:
            stack.append(bytes([op - 0x50]))
        elif op == 0x76:
            stack.append(stack[-1])
        elif op == 0xA9:
            stack.append(hash160(stack.pop()))
        elif op in (0x87, 0x88):
            eq = stack.pop() == stack.pop()
            if op == 0x88:
                if not eq:
                    raise RefError('OP_EQUALVERIFY failed')
            else:
                stack.append(b'\1' if eq else b'')
        elif op == 0xAC:
            pub, sig = stack.pop(), stack.pop()
            ok = _check_sig(sig, pub, digest_of, wit)
            if not ok and sig:
                raise RefError('NULLFAIL: invalid non-empty signature')
            stack.append(b'\1' if ok else b'')
        elif op == 0xAE:
            n = stack.pop()[0]
            pubs = [stack.pop() for _ in range(n)]
            mb = stack.pop()
            m = mb[0] if mb else 0
            if not 0 <= m <= n <= 20:
                raise RefError('bad multisig m/n')
            sigs = [stack.pop() for _ in range(m)]
            if stack.pop() != b'':
                raise RefError('NULLDUMMY')
            ki, ok = 0, True
            for s in sigs:
                while ki < n and not _check_sig(s, pubs[ki], digest_of, wit):
                    ki += 1
                if ki >= n:
                    ok = False
                    break
                ki += 1
            if not ok and any(sigs):
                raise RefError('NULLFAIL: multisig check failed')
            stack.append(b'\1' if ok else b'')
        else:
            raise RefError('unexpected opcode %#x' % op)
    return stack


def verify_input(tx, idx, spk, value):
    """Full standard (policy) verification of one input; RefError when invalid."""
    try:
        _verify_input(tx, idx, spk, value)
    except IndexError:
        raise RefError('stack underflow')


def _verify_input(tx, idx, spk, value):
    i = tx.ins[idx]
    toks = parse_script(i.script)
    stack = []
    for op, d in toks:
        if d is None:
            if 0x51 <= op <= 0x60:
                stack.append(bytes([op - 0x50]))
                continue
            raise RefError('scriptSig is not push only')
        if not minimal_push(op, d):
            raise RefError('scriptSig push not minimal')
        if len(d) > 520:
            raise RefError('push > 520')
        stack.append(d)
    p2sh = list(stack)
    is_p2sh = len(spk) == 23 and spk[:2] == b'\xa9\x14' and spk[-1] == 0x87
    wprog = None
    if len(spk) >= 4 and spk[0] in (0, *range(0x51, 0x61)) and len(spk) == spk[1] + 2:
        wprog = spk
        if i.script:
            raise RefError('scriptSig not empty for native witness')
    if wprog is None:
        run_script(spk, stack, lambda: tx.sighash_legacy(idx, spk), False)
        if not stack or not any(stack[-1]):
            raise RefError('script evaluated to false')
        if is_p2sh:
            stack = p2sh
            redeem = stack.pop()
            if len(redeem) in (22, 34) and redeem[0] == 0 and redeem[1] == len(redeem) - 2:
                if i.script != bytes([len(redeem)]) + redeem:
                    raise RefError('malleated nested witness scriptSig')
                wprog = redeem
            else:
                run_script(redeem, stack, lambda: tx.sighash_legacy(idx, redeem), False)
                if not stack or not any(stack[-1]):
                    raise RefError('redeemScript evaluated to false')
                if len(stack) != 1:
                    raise RefError('CLEANSTACK')
        elif len(stack) != 1:
            raise RefError('CLEANSTACK')
    if wprog is None:
        if i.wit:
            raise RefError('unexpected witness')
        return
    wit = list(i.wit)
    prog = wprog[2:]
    if wprog[0] != 0:
        raise RefError('unsupported witness version')
    if len(prog) == 20:
        if len(wit) != 2:
            raise RefError('P2WPKH witness must have 2 items, has %d' % len(wit))
        code = b'\x76\xa9\x14' + prog + b'\x88\xac'
        st = wit
    else:
        if not wit:
            raise RefError('empty witness')
        code = wit.pop()
        if sha256(code) != prog:
            raise RefError('witness program mismatch')
        st = wit
    if any(len(x) > 520 for x in st):
        raise RefError('witness item > 520')
    st = run_script(code, list(st), lambda: tx.sighash_v0(idx, code, value), True)
    if len(st) != 1 or not any(st[-1]):
        raise RefError('witness script evaluated to false')


def verify_tx(tx, prevouts):
    """prevouts: {(txid, vout): (value, script)}.  Raises RefError; returns the fee."""
    seen = set()
    total = 0
    for n, i in enumerate(tx.ins):
        k = (i.txid, i.vout)
        if k in seen:
            raise RefError('duplicate input %s' % (k,))
        seen.add(k)
        if k not in prevouts:
            raise RefError('input %s:%d does not exist' % k)
        v, spk = prevouts[k]
        total += v
        try:
            verify_input(tx, n, spk, v)
        except RefError as e:
            raise RefError('input %d: %s' % (n, e))
    out = 0
    for o in tx.outs:
        if not 0 <= o.value <= MAX_MONEY:
            raise RefError('output value out of range')
        out += o.value
    if out > total:
        raise RefError('outputs exceed inputs')
    return total - out


def op_return_data(spk):
    """Payload of a well formed data-carrier output, else RefError."""
    if not spk or spk[0] != 0x6A:
        raise RefError('not OP_RETURN')
    data = b''
    for op, d in parse_script(spk[1:]):
        if d is None:
            raise RefError('OP_RETURN output contains opcode %#x: not push only' % op)
        data += d
    return data


def is_standard_out(spk):
    if len(spk) == 25 and spk[:3] == b'\x76\xa9\x14' and spk[23:] == b'\x88\xac':
        return True
    if len(spk) == 23 and spk[:2] == b'\xa9\x14' and spk[22:] == b'\x87':
        return True
    if 4 <= len(spk) <= 42 and spk[0] in (0, *range(0x51, 0x61)) and spk[1] == len(spk) - 2:
        return True
    if spk[:1] == b'\x6a':
        try:
            op_return_data(spk)
        except RefError:
            return False
        return len(spk) <= 83
    return False


def selftest():
    """Known-answer tests of the reference itself; AssertionError when it is broken."""
    assert point(1) == (GX, GY)
    for k in (1, 2, 3, 0xABCDEF, N - 1, N - 2, (N + 1) // 2):
        assert point(k) == pt_mul(k)
        assert parse_pub(pubkey(k, True)) == point(k) and parse_pub(pubkey(k, False)) == point(k)
    d = sha256(b'Satoshi Nakamoto')
    sig = rfc6979_sign(1, d)
    assert sig.hex() == ('3045022100934b1ea10a4b3c1757e2b0c017d0b6143ce3c9a7e6a4a49860d7a6ab210ee3d8'
                         '02202442ce9d2b916064108014783e923ec36b49743e2ffa1c4496f01a512aafd9e5')
    r, s = parse_der(sig)
    assert ecdsa_verify(pubkey(1), d, r, s) and ecdsa_verify_py(pubkey(1), d, r, s)
    assert not ecdsa_verify(pubkey(2), d, r, s) and not ecdsa_verify_py(pubkey(2), d, r, s)
    assert p2pkh_addr(pubkey(1), 'main') == '1BgGZ9tcN4rm9KBzDn7KprQz87SZ26SAMH'
    assert np2wkh_addr(pubkey(1), 'main') == '3JvL6Ymt8MVWiCNHC7oWU6nLeHNJKLZGLN'
    assert segwit_addr('bc', 0, hash160(pubkey(1))) == 'bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t4'
    assert wif(1, 'main', True) == 'KwDiBf89QgGbjEhKnhXJuH7LrciVrZi3qYjgd9M7rFU73sVHnoWn'
    assert wif(1, 'main', False) == '5HpHagT65TZzG1PH3CSu63k8DbpvD8s5ip4nEB3kEsreAnchuDf'
    assert b58check_dec(wif(7, 'test', True))[1:-1] == (7).to_bytes(32, 'big')
    # BIP143 P2SH-P2WPKH example.
    raw = ('01000000000101db6b1b20aa0fd7b23880be2ecbd4a98130974cf4748fb66092ac4d3ceb1a5477010000001716001479091972186c'
           '449eb1ded22b78e40d009bdf0089feffffff02b8b4eb0b000000001976a914a457b684d7f0d539a46a45bbc043f35b59d0d96388ac00'
           '08af2f000000001976a914fd270b1ee6abcaea97fea7ad0402e8bd8ad6d77c88ac02473044022047ac8e878352d3ebbde1c94ce3a10d'
           '057c24175747116f8288e5d794d12d482f0220217f36a485cae903c713331d877c1f64677e3622ad4010726870540656fe9dcb012103ad'
           '1d8e89212f0b92c74d23bb710c00662ad1470198ac48c43f7d6f93a2a2687392040000')
    t = Tx.parse(raw)
    assert t.ser().hex() == raw
    assert t.txid() == 'ef48d9d0f595052e0f8cdcf825f7a5e50b6a388a81f206f3f4846e5ecd7a0c23'
    prev = {(t.ins[0].txid, 1): (1000000000, bytes.fromhex('a9144733f37cf4db86fbc2efed2500b4f4e49f31202387'))}
    verify_tx(t, prev)
    for bad in (999999999,):
        try:
            verify_tx(t, {(t.ins[0].txid, 1): (bad, prev[(t.ins[0].txid, 1)][1])})
            raise AssertionError('wrong amount accepted')
        except RefError:
            pass
    # BIP143 P2SH-P2WSH multisig-like and legacy P2PKH (first bitcoin payment style) are exercised by signing here.
    k = 12345
    spk = script_for(p2pkh_addr(pubkey(k), 'main'))
    t = Tx(1, [In('11' * 32, 3)], [Out(5, spk)])
    sg = rfc6979_sign(k, t.sighash_legacy(0, spk)) + b'\1'
    t.ins[0].script = bytes([len(sg)]) + sg + b'\x21' + pubkey(k)
    assert verify_tx(Tx.parse(t.ser()), {('11' * 32, 3): (9, spk)}) == 4
    t.outs[0].value = 6
    try:
        verify_tx(t, {('11' * 32, 3): (9, spk)})
        raise AssertionError('tampered tx accepted')
    except RefError:
        pass


if __name__ == '__main__':
    import time
    t0 = time.time()
    selftest()
    print('ok', time.time() - t0)
