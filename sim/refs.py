"""Independent reference models (oracles).  None of them uses code of /repo.

ChaCha20 and AES come from the Java runtime, hashes from hashlib; the rest is
written from the standards on plain integers."""
import hashlib
import struct
from javax.crypto import Cipher
from javax.crypto.spec import SecretKeySpec, ChaCha20ParameterSpec
from jarray import array, zeros
import java.lang


def be(s):
    return int(s.encode('hex'), 16) if s else 0


def to_be(n, size):
    h = '%x' % n
    h = '0' * (2 * size - len(h)) + h
    return h.decode('hex')


def min_be(n):
    h = '%x' % n
    if len(h) & 1:
        h = '0' + h
    return h.decode('hex')


def xor(a, b):
    n = min(len(a), len(b))
    if n == 0:
        return ''
    return to_be(be(a[:n]) ^ be(b[:n]), n)


def _ba(s):
    return array([c if c < 128 else c - 256 for c in map(ord, s)], 'b')


# -- ChaCha20 / Poly1305 ----------------------------------------------------
_ks = {}


def _rotl(v, n):
    return ((v << n) & 0xffffffff) | (v >> (32 - n))


def chacha_block(key, nonce, ctr):
    """RFC 7539 block from its text, used next to the end of the counter."""
    st = list(struct.unpack('<16I', 'expand 32-byte k' + key + struct.pack('<I', ctr) + nonce))
    w = st[:]
    idx = [(0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15),
           (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14)]
    for _ in xrange(10):
        for a, b, c, d in idx:
            for (x, y, z, r) in ((a, b, d, 16), (c, d, b, 12), (a, b, d, 8), (c, d, b, 7)):
                w[x] = (w[x] + w[y]) & 0xffffffff
                w[z] = _rotl(w[z] ^ w[x], r)
    return struct.pack('<16I', *[(p + q) & 0xffffffff for p, q in zip(st, w)])


def chacha_stream(key, nonce, ctr, n):
    """n octets of RFC 7539 keystream from block ctr"""
    if n == 0:
        return ''
    blocks = (n + 63) // 64
    if ctr + blocks > (1 << 32):
        raise ValueError('past the end of the counter space')
    if ctr + blocks > (1 << 31) - 4:
        return ''.join(chacha_block(key, nonce, ctr + i) for i in xrange(blocks))[:n]
    c = Cipher.getInstance('ChaCha20')
    c.init(Cipher.ENCRYPT_MODE, SecretKeySpec(_ba(key), 'ChaCha20'), ChaCha20ParameterSpec(_ba(nonce), ctr))
    return c.doFinal(zeros(n, 'b')).tostring()


def chacha(key, nonce, ctr, data):
    return xor(data, chacha_stream(key, nonce, ctr, len(data)))


def poly1305(key, msg):
    r = be(key[:16][::-1]) & 0x0ffffffc0ffffffc0ffffffc0fffffff
    s = be(key[16:32][::-1])
    acc = 0
    for i in xrange(0, len(msg), 16):
        acc = (acc + be((msg[i:i + 16] + '\x01')[::-1])) * r % (2 ** 130 - 5)
    return to_be((acc + s) & (2 ** 128 - 1), 16)[::-1]


P1305 = 2 ** 130 - 5


def poly_blocks(msg):
    return [be((msg[i:i + 16] + '\x01')[::-1]) for i in xrange(0, len(msg), 16)]


def poly_aim(otk, msg, i, target, final=True):
    """the full block to put at octet 16*i of msg so that the accumulator, at
    the end or right after it, is target; None if there is none"""
    r = be(otk[:16][::-1]) & 0x0ffffffc0ffffffc0ffffffc0fffffff
    if not r:
        return None
    ri = pow(r, P1305 - 2, P1305)
    n = poly_blocks(msg)
    acc = 0
    for x in n[:i]:
        acc = (acc + x) * r % P1305
    if final:
        for x in n[:i:-1]:
            target = (target * ri - x) % P1305
    v = (target * ri - acc) % P1305
    if v >> 128 != 1:
        return None
    return to_be(v & (2 ** 128 - 1), 16)[::-1]


def poly_target(rng, otk):
    """an accumulator next to where something carries, or whose tag is special"""
    if rng.chance(0.5):
        return rng.choice([0, 1, 2, 3, 4, 5, P1305 - 1, P1305 - 2, P1305 - 3, P1305 - 4, P1305 - 5, 2 ** 128 - 1, 2 ** 128,
                           2 ** 128 - 5, 2 ** 129 - 1, 2 ** 129, 2 ** 104 - 1, 2 ** 64, 2 ** 32 - 1, 2 ** 26, 2 ** 52 - 1])
    s = be(otk[16:32][::-1])
    t = special128(rng)
    return ((t - s) % 2 ** 128 + (rng.below(4) << 128)) % P1305


def special128(rng):
    """a number of 128 bits with runs of zeros or ones"""
    m = rng.below(6)
    if m == 0:
        return rng.choice([0, 1, 2 ** 128 - 1, 2 ** 128 - 2, 2 ** 127, 2 ** 127 - 1])
    w = 8 * rng.range(1, 12)
    v = rng.bits(128)
    if m == 1:
        return v >> w
    if m == 2:
        return v >> w << w
    if m == 3:
        return v | ((1 << w) - 1)
    if m == 4:
        return v | (2 ** 128 - 2 ** (128 - w))
    i = 8 * rng.below(16)
    return v & ~(255 << i) if rng.chance(0.5) else v | (255 << i)


def aead(key, nonce, aad, pt):
    otk = chacha_stream(key, nonce, 0, 32)
    ct = chacha(key, nonce, 1, pt)
    z = lambda d: '\0' * (-len(d) % 16)
    mac = aad + z(aad) + ct + z(ct) + struct.pack('<QQ', len(aad), len(ct))
    return ct, poly1305(otk, mac)


# -- AES, CMAC, SIV ---------------------------------------------------------
def aes_enc(key):
    c = Cipher.getInstance('AES/ECB/NoPadding')
    c.init(Cipher.ENCRYPT_MODE, SecretKeySpec(_ba(key), 'AES'))
    return lambda b: c.doFinal(_ba(b)).tostring()


def aes_dec(key):
    c = Cipher.getInstance('AES/ECB/NoPadding')
    c.init(Cipher.DECRYPT_MODE, SecretKeySpec(_ba(key), 'AES'))
    return lambda b: c.doFinal(_ba(b)).tostring()


def _dbl(n):
    n <<= 1
    if n >> 128:
        n = (n & (2 ** 128 - 1)) ^ 0x87
    return n


def cmac_subkeys(key):
    l = be(aes_enc(key)('\0' * 16))
    k1 = _dbl(l)
    return to_be(k1, 16), to_be(_dbl(k1), 16)


def cmac(key, msg):
    e = aes_enc(key)
    k1, k2 = cmac_subkeys(key)
    n = max(1, (len(msg) + 15) // 16)
    last = msg[16 * (n - 1):]
    if len(last) == 16:
        last = xor(last, k1)
    else:
        last = xor(last + '\x80' + '\0' * (15 - len(last)), k2)
    x = '\0' * 16
    for i in xrange(n - 1):
        x = e(xor(x, msg[16 * i:16 * i + 16]))
    return e(xor(x, last))


def cmac_aim(key, head, tag):
    """the last full block that gives head + block this tag; head is full blocks"""
    x = '\0' * 16
    e = aes_enc(key)
    for i in xrange(0, len(head), 16):
        x = e(xor(x, head[i:i + 16]))
    return xor(xor(aes_dec(key)(tag), x), cmac_subkeys(key)[0])


def siv_aim(key, head, ads, iv):
    """the last full block that gives the plaintext head + block this synthetic iv"""
    h = len(key) // 2
    d = be(cmac(key[:h], '\0' * 16))
    for s in ads:
        d = _dbl(d) ^ be(cmac(key[:h], s))
    return xor(cmac_aim(key[:h], head, iv), to_be(d, 16))


def s2v(key, strings):
    if not strings:
        return cmac(key, '\0' * 15 + '\x01')
    d = be(cmac(key, '\0' * 16))
    for s in strings[:-1]:
        d = _dbl(d) ^ be(cmac(key, s))
    last = strings[-1]
    if len(last) >= 16:
        t = last[:-16] + to_be(be(last[-16:]) ^ d, 16)
    else:
        t = to_be(_dbl(d) ^ be(last + '\x80' + '\0' * (15 - len(last))), 16)
    return cmac(key, t)


def siv_seal(key, pt, ads):
    h = len(key) // 2
    v = s2v(key[:h], list(ads) + [pt])
    q = be(v) & ~((1 << 63) | (1 << 31))
    e = aes_enc(key[h:])
    ks = ''.join(e(to_be((q + i) & (2 ** 128 - 1), 16)) for i in xrange((len(pt) + 15) // 16))
    return v + xor(pt, ks)


def siv_open(key, packet, ads):
    """plaintext or None"""
    if len(packet) < 16:
        return None
    v, ct = packet[:16], packet[16:]
    h = len(key) // 2
    q = be(v) & ~((1 << 63) | (1 << 31))
    e = aes_enc(key[h:])
    ks = ''.join(e(to_be((q + i) & (2 ** 128 - 1), 16)) for i in xrange((len(ct) + 15) // 16))
    pt = xor(ct, ks)
    return pt if s2v(key[:h], list(ads) + [pt]) == v else None


# -- elliptic curves: points are None (identity) or (x, y) ------------------
# Edwards identity is (0, 1)
def inv(a, p):
    a %= p
    r0, r1, s0, s1 = p, a, 0, 1
    while r1:
        q = r0 // r1
        r0, r1, s0, s1 = r1, r0 - q * r1, s1, s0 - q * s1
    if r0 != 1:
        raise ZeroDivisionError
    return s0 % p


class Group(object):
    """fam: 'sw' (y2=x3+ax+b), 'ed' (ax2+y2=1+dx2y2), 'mo' (y2=x3+ax2+x)"""

    def __init__(self, fam, p, a, bd=None):
        self.fam, self.p, self.a, self.bd = fam, p, a % p, (bd or 0) % p
        self.zero = (0, 1) if fam == 'ed' else None

    def on(self, P):
        p = self.p
        if P is None:
            return self.fam != 'ed'
        x, y = P
        if self.fam == 'sw':
            return (y * y - (x * x * x + self.a * x + self.bd)) % p == 0
        if self.fam == 'mo':
            return (y * y - (x * x * x + self.a * x * x + x)) % p == 0
        return (self.a * x * x + y * y - 1 - self.bd * x * x * y * y) % p == 0

    def neg(self, P):
        if P is None:
            return None
        x, y = P
        if self.fam == 'ed':
            return (-x % self.p, y % self.p)
        return (x % self.p, -y % self.p)

    def add(self, P, Q):
        p = self.p
        if self.fam == 'ed':
            x1, y1 = P
            x2, y2 = Q
            t = self.bd * x1 * x2 * y1 * y2 % p
            return ((x1 * y2 + x2 * y1) * inv(1 + t, p) % p,
                    (y1 * y2 - self.a * x1 * x2) * inv(1 - t, p) % p)
        if P is None:
            return Q
        if Q is None:
            return P
        x1, y1 = P
        x2, y2 = Q
        if (x1 - x2) % p == 0:
            if (y1 + y2) % p == 0:
                return None
            if self.fam == 'sw':
                l = (3 * x1 * x1 + self.a) * inv(2 * y1, p)
            else:
                l = (3 * x1 * x1 + 2 * self.a * x1 + 1) * inv(2 * y1, p)
        else:
            l = (y2 - y1) * inv(x2 - x1, p)
        x3 = (l * l - x1 - x2 - (self.a if self.fam == 'mo' else 0)) % p
        return (x3, (l * (x1 - x3) - y1) % p)

    def mul(self, k, P):
        if k < 0:
            return self.mul(-k, self.neg(P))
        R = self.zero
        if k > 1 << 40 and self.p > 1 << 64:
            return self._mul_proj(k, P)
        while k:
            if k & 1:
                R = self.add(R, P)
            P = self.add(P, P)
            k >>= 1
        return R

    def _mul_proj(self, k, P):
        """inversion-free, for the large curves (complete for the cases below)"""
        if P == self.zero:
            return self.zero
        p, a = self.p, self.a
        if self.fam == 'ed':
            d = self.bd

            def add(A, B):
                X1, Y1, Z1 = A
                X2, Y2, Z2 = B
                AA = Z1 * Z2 % p
                BB = AA * AA % p
                C = X1 * X2 % p
                D = Y1 * Y2 % p
                E = d * C * D % p
                F = BB - E
                G = BB + E
                return (AA * F * ((X1 + Y1) * (X2 + Y2) - C - D) % p,
                        AA * G * (D - a * C) % p, F * G % p)
            R = (0, 1, 1)
            Q = (P[0], P[1], 1)
            for bit in bin(k)[2:]:
                R = add(R, R)
                if bit == '1':
                    R = add(R, Q)
            z = inv(R[2], p)
            return (R[0] * z % p, R[1] * z % p)
        # Weierstrass form by a change of variable for Montgomery
        if self.fam == 'mo':
            t = self.a * inv(3, p) % p
            W = Group('sw', p, (1 - a * a * inv(3, p)) % p, (2 * a ** 3 * inv(27, p) - a * inv(3, p)) % p)
            Q = W._mul_proj(k, ((P[0] + t) % p, P[1]))
            return None if Q is None else ((Q[0] - t) % p, Q[1])
        # Jacobian double and add
        X, Y, Z = 0, 1, 0
        x2, y2 = P
        for bit in bin(k)[2:]:
            if Z:
                if Y == 0:
                    X, Y, Z = 0, 1, 0
                else:
                    YY = Y * Y % p
                    S = 4 * X * YY % p
                    M = (3 * X * X + a * pow(Z, 4, p)) % p
                    X3 = (M * M - 2 * S) % p
                    Y3 = (M * (S - X3) - 8 * YY * YY) % p
                    Z = 2 * Y * Z % p
                    X, Y = X3, Y3
            if bit == '1':
                if not Z:
                    X, Y, Z = x2 % p, y2 % p, 1
                else:
                    ZZ = Z * Z % p
                    U = x2 * ZZ % p
                    S = y2 * Z * ZZ % p
                    H = (U - X) % p
                    r = (S - Y) % p
                    if H == 0:
                        if r == 0:
                            z = inv(Z, p)
                            R = self.add((X * z * z % p, Y * z * z * z % p), P)
                            X, Y, Z = (0, 1, 0) if R is None else (R[0], R[1], 1)
                        else:
                            X, Y, Z = 0, 1, 0
                        continue
                    HH = H * H % p
                    HHH = H * HH % p
                    V = X * HH % p
                    X3 = (r * r - HHH - 2 * V) % p
                    Y = (r * (V - X3) - Y * HHH) % p
                    X = X3
                    Z = Z * H % p
        if not Z:
            return None
        z = inv(Z, p)
        return (X * z * z % p, Y * z * z * z % p)


# -- TKIP, Michael ----------------------------------------------------------
def _aes_sbox():
    # from the definition: inverse in GF(2^8), then the affine map
    def mul(a, b):
        r = 0
        while b:
            if b & 1:
                r ^= a
            a <<= 1
            if a & 0x100:
                a ^= 0x11b
            b >>= 1
        return r
    invs = [0] * 256
    for i in range(1, 256):
        for j in range(1, 256):
            if mul(i, j) == 1:
                invs[i] = j
                break
    out = []
    for v in invs:
        s = 0
        for b in range(8):
            s |= (((v >> b) ^ (v >> ((b + 4) % 8)) ^ (v >> ((b + 5) % 8)) ^ (v >> ((b + 6) % 8)) ^
                   (v >> ((b + 7) % 8)) ^ (0x63 >> b)) & 1) << b
        out.append(s)
    return out


AES_SBOX = _aes_sbox()


def _tkip_tab():
    t = []
    for s in AES_SBOX:
        d = (s << 1) ^ (0x11b if s & 0x80 else 0)
        t.append(((d & 255) << 8) | ((d ^ s) & 255))
    return t


_T = _tkip_tab()


def _sub16(v):
    h = _T[v >> 8]
    return _T[v & 255] ^ (((h & 255) << 8) | (h >> 8))


def _tkip_mix(tk, ta, pn):
    """IEEE 802.11 TKIP phase 1 + phase 2.  pn: 6 octets, least significant first."""
    TK = struct.unpack('<8H', tk)
    iv16 = ord(pn[0]) | ord(pn[1]) << 8
    P = [ord(pn[2]) | ord(pn[3]) << 8, ord(pn[4]) | ord(pn[5]) << 8] + list(struct.unpack('<3H', ta))
    for i in range(8):
        j = i & 1
        P[0] = (P[0] + _sub16(P[4] ^ TK[0 + j])) & 0xffff
        P[1] = (P[1] + _sub16(P[0] ^ TK[2 + j])) & 0xffff
        P[2] = (P[2] + _sub16(P[1] ^ TK[4 + j])) & 0xffff
        P[3] = (P[3] + _sub16(P[2] ^ TK[6 + j])) & 0xffff
        P[4] = (P[4] + _sub16(P[3] ^ TK[0 + j]) + i) & 0xffff
    Q = P + [(P[4] + iv16) & 0xffff]
    for i in range(6):
        Q[i] = (Q[i] + _sub16(Q[(i - 1) % 6] ^ TK[i])) & 0xffff
    ror = lambda v: (v >> 1) | ((v & 1) << 15)
    Q[0] = (Q[0] + ror(Q[5] ^ TK[6])) & 0xffff
    Q[1] = (Q[1] + ror(Q[0] ^ TK[7])) & 0xffff
    for i in range(2, 6):
        Q[i] = (Q[i] + ror(Q[i - 1])) & 0xffff
    lo, hi = iv16 & 255, iv16 >> 8
    return Q, TK, lo, hi


def tkip_rc4key(tk, ta, pn):
    """WEP seed: TSC1, (TSC1 | 0x20) & 0x7f, TSC0, ... (IEEE 802.11)"""
    Q, TK, tsc0, tsc1 = _tkip_mix(tk, ta, pn)
    out = [tsc1, (tsc1 | 0x20) & 0x7f, tsc0, ((Q[5] ^ TK[0]) >> 1) & 255]
    for q in Q:
        out += [q & 255, q >> 8]
    return ''.join(map(chr, out))


def michael(key, data):
    l, r = struct.unpack('<II', key)
    m = data + '\x5a' + '\0' * 4
    m += '\0' * (-len(m) % 4)
    M = 0xffffffff
    rol = lambda v, n: ((v << n) | (v >> (32 - n))) & M
    for (w,) in [struct.unpack('<I', m[i:i + 4]) for i in range(0, len(m), 4)]:
        l ^= w
        r ^= rol(l, 17)
        l = (l + r) & M
        r ^= ((l & 0xff00ff00) >> 8) | ((l & 0x00ff00ff) << 8)
        l = (l + r) & M
        r ^= rol(l, 3)
        l = (l + r) & M
        r ^= rol(l, 30)
        l = (l + r) & M
    return struct.pack('<II', l, r)


# -- hashes -----------------------------------------------------------------
def hmac(hname, key, data):
    if len(key) > 64:
        key = hashlib.new(hname, key).digest()
    key += '\0' * (64 - len(key))
    t = lambda c: ''.join(chr(ord(k) ^ c) for k in key)
    return hashlib.new(hname, t(0x5c) + hashlib.new(hname, t(0x36) + data).digest()).digest()


def pbkdf2(pw, salt, n, size):
    out = ''
    i = 1
    from javax.crypto import Mac
    mac = Mac.getInstance('HmacSHA1')
    key = pw if pw else '\0'
    mac.init(SecretKeySpec(_ba(key), 'HmacSHA1'))
    while len(out) < size:
        u = mac.doFinal(_ba(salt + struct.pack('>I', i)))
        acc = be(u.tostring())
        for _ in xrange(n - 1):
            u = mac.doFinal(u)
            acc ^= be(u.tostring())
        out += to_be(acc, 20)
        i += 1
    return out[:size]


def pbkdf2_gen(hname, pw, salt, n, size):
    out = ''
    i = 1
    while len(out) < size:
        u = hmac(hname, pw, salt + struct.pack('>I', i))
        acc = be(u)
        for _ in xrange(n - 1):
            u = hmac(hname, pw, u)
            acc ^= be(u)
        out += to_be(acc, len(u))
        i += 1
    return out[:size]


def prf80211(key, label, data, octets):
    r = ''
    i = 0
    while len(r) < octets:
        r += hmac('sha1', key, label + '\0' + data + chr(i))
        i += 1
    return r[:octets]


# -- number theory ----------------------------------------------------------
def gcd(a, b):
    a, b = abs(a), abs(b)
    while b:
        a, b = b, a % b
    return a


def is_prime(n):
    from java.math import BigInteger
    if n < 2:
        return False
    if n < 10 ** 6:
        i = 2
        while i * i <= n:
            if n % i == 0:
                return False
            i += 1
        return True
    return BigInteger(str(n)).isProbablePrime(80)


def factor(n):
    out = []
    d = 2
    while d * d <= n:
        e = 0
        while n % d == 0:
            n //= d
            e += 1
        if e:
            out.append((d, e))
        d += 1
    if n > 1:
        out.append((n, 1))
    return out


def kronecker(a, n):
    """Jacobi symbol by factoring-free binary algorithm"""
    a %= n
    r = 1
    while a:
        while a % 2 == 0:
            a //= 2
            if n % 8 in (3, 5):
                r = -r
        a, n = n, a
        if a % 4 == 3 and n % 4 == 3:
            r = -r
        a %= n
    return r if n == 1 else 0


def phi(n):
    r = 1
    for p, e in factor(n):
        r *= (p - 1) * p ** (e - 1)
    return r


def carmichael(n):
    r = 1
    for p, e in factor(n):
        l = (p - 1) * p ** (e - 1)
        if p == 2 and e > 2:
            l //= 2
        r = r * l // gcd(r, l)
    return r


def order(x, m):
    if m == 1:
        return 1
    t = phi(m)
    for p, e in factor(t):
        while t % p == 0 and pow(x, t // p, m) == 1:
            t //= p
    return t


def poly_mulmod(a, b, m, p):
    """coefficients low to high; m monic; result length <= len(m)-1, not trimmed"""
    prod = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            prod[i + j] += x * y
    return poly_mod(prod, m, p)


def poly_mod(a, m, p):
    a = [x % p for x in a]
    n = len(m) - 1
    for i in range(len(a) - 1, n - 1, -1):
        c = a[i]
        if c:
            for j in range(n + 1):
                a[i - n + j] = (a[i - n + j] - c * m[j]) % p
    return a[:n]


# -- text -------------------------------------------------------------------
B27 = 'ABCDEFGHJKMNPQRTWXYZ2346789'
B85 = ('0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz' +
       '!#$%&()*+-;<=>?@^_`{|}~')
B94 = ''.join(map(chr, range(33, 127)))


def base_n(n, alpha):
    out = []
    while n:
        out.append(alpha[n % len(alpha)])
        n //= len(alpha)
    return ''.join(reversed(out))
