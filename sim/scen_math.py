"""C18, C19: number theory and GF(p), called from several threads."""
import json

from base import Scenario
from kernel import show
import refs

MEDIUM = [10007, 65537, 12289, 3 * 2 ** 30 + 1, 2 ** 31 - 1, 2 ** 61 - 1, 7681, 40961, 1000003, 999983,
          2 ** 16 + 1, 193, 257, 769, 97 * 2 ** 0, 4294967291, 2 ** 64 - 59, 18446744069414584321]
LARGE = [2 ** 127 - 1, 2 ** 255 - 19, 2 ** 224 - 2 ** 96 + 1, 2 ** 192 - 2 ** 64 - 1,
         2 ** 256 - 2 ** 224 + 2 ** 192 + 2 ** 96 - 1, 2 ** 384 - 2 ** 128 - 2 ** 96 + 2 ** 32 - 1, 2 ** 521 - 1,
         2 ** 107 - 1, 2 ** 414 - 17, 2 ** 448 - 2 ** 224 - 1, 2 ** 130 - 5, 2 ** 89 - 1, 2 ** 251 - 9,
         21888242871839275222246405745257275088548364400416034343698204186575808495617]
HUGE = int('FFFFFFFFFFFFFFFFC90FDAA22168C234C4C6628B80DC1CD129024E088A67CC74020BBEA63B139B22514A08798E3404DDEF9519B3CD'
           '3A431B302B0A6DF25F14374FE1356D6D51C245E485B576625E7EC6F44C42E9A637ED6B0BFF5CB6F406B7EDEE386BFB5A899FA5AE9'
           'F24117C4B1FE649286651ECE45B3DC2007CB8A163BF0598DA48361C55D39A69163FA8FD24CF5F83655D23DCA3AD961C62F3562085'
           '52BB9ED529077096966D670C354E4ABC9804F1746C08CA18217C32905E462E36CE3BE39E772C180E86039B2783A2EC07A28FB5C55'
           'DF06F4C52C9DE2BCBF6955817183995497CEA956AE515D2261898FA051015728E5A8AACAA68FFFFFFFFFFFFFFFF', 16)
SMALL = [p for p in range(2, 400) if refs.is_prime(p)]
# composites that pass a few bases, Carmichael numbers, semiprimes near the end of the table of small primes
PSEUDO = [2047, 1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 341550071728321, 3825123056546413051,
          318665857834031151167461, 3317044064679887385961981, 561, 1105, 1729, 41041, 825265, 321197185, 341, 91,
          1229 * 1231, 1231 * 1231, 1229 * 1229, 1223 * 1229, 1231 * 1237, 65537 * 65539, 4 * 1231, 9746347772161,
          1590231231043178376951698401]


def next_prime(n):
    n += 1
    while not refs.is_prime(n):
        n += 1
    return n


def partner(p, b):
    """a prime that agrees with p in its low b bits"""
    if p == 2:
        return 2
    q = p + (1 << b)
    while not refs.is_prime(q):
        q += 1 << b
    return q


def strip(c):
    c = list(c)
    while c and c[-1] == 0:
        c.pop()
    return c


class MathBase(Scenario):
    kinds = ('sw', 'intr')
    stub = ('thread scheduler', 'asynchronous exceptions')
    budget = 6000000

    def primes(self, rng, odd=True, top=3):
        m = rng.below(100)
        if m < 40:
            p = rng.choice(SMALL)
        elif m < 60 or top < 2:
            p = rng.choice(MEDIUM)
        elif m < 70:
            p = next_prime(rng.bits(rng.range(9, 64)) | 256)
        elif m < 80:
            # p = 1 mod 2^k
            while True:
                p = (rng.bits(rng.range(5, 60)) << rng.range(3, 20)) + 1
                if refs.is_prime(p):
                    break
        elif m < 97 or top < 3:
            p = rng.choice(LARGE)
        else:
            p = HUGE
        return 3 if odd and p == 2 else p

    def value(self, rng, m):
        """an integer of any residue modulo m, sometimes out of range"""
        x = rng.choice([0, 1, m - 1, m, 2, m // 2, m + 1]) if rng.chance(0.25) else rng.below(m)
        if rng.chance(0.15):
            x = -x
        elif rng.chance(0.1):
            x += m * rng.range(1, 5)
        return x


class C18(MathBase):
    prop = 'C18'
    modules = ('ecc.numbertheory', 'fmath.prime', 'fmath.primes_to_5k')
    intkeys = ()
    real = ('ecc/numbertheory.py', 'fmath/prime.py', 'fmath/primes_to_5k.py')

    FNS = [('exp', 3), ('polyred', 2), ('polymul', 3), ('polyexp', 2), ('jacobi', 4), ('sqrt', 6), ('msqrt', 5),
           ('legendre', 2), ('inverse', 6), ('gcd', 3), ('lcm', 2), ('factor', 4), ('phi', 2), ('carmichael', 3),
           ('carm_fact', 1), ('order', 2), ('kinda', 1), ('lfrp', 1), ('isprime', 6), ('nextprime', 3),
           ('fermat', 2), ('rabin', 3), ('table', 0.3)]

    def gen(self, rng):
        ops = []
        focus = rng.chance(0.3)
        fns = [rng.weighted(self.FNS) for _ in range(2)] if focus else None
        for i in range(rng.range(2, 12)):
            fn = rng.choice(fns) if focus else rng.weighted(self.FNS)
            op = {'k': fn, 't': float(i // 3 + rng.below(2)), 'c': 't%d' % rng.below(4)}
            op['a'] = getattr(self, 'g_' + fn)(rng)
            if ops and rng.chance(0.2):
                old = ops[-1] if rng.chance(0.5) else rng.choice(ops)
                a = self.related(rng, old['k'], old['a'])
                if a is not None:
                    op['k'], op['a'] = old['k'], a
            ops.append(op)
        ops.sort(key=lambda o: o['t'])
        if rng.chance(0.25):
            # earlier arguments again, after others
            t = ops[-1]['t'] + 1
            for o in ops[-rng.range(2, 4):] + ops[-rng.range(2, 4):]:
                ops.append(dict(o, t=t))
                t += 1.0
        return {'cfg': {}, 'ops': ops}

    # -- arguments
    def related(self, rng, fn, a):
        """arguments that agree with earlier ones in their low digits, or in all but one place"""
        d = 1 << rng.choice([8, 16, 31, 32, 32, 53, 63, 64, 64, 128])
        d *= rng.choice([1, 1, 2, 3])
        a = json.loads(json.dumps(a))
        if rng.chance(0.5):
            # all but one of them the same
            new = json.loads(json.dumps(getattr(self, 'g_' + fn)(rng)))
            if fn in ('exp', 'inverse', 'jacobi', 'legendre', 'msqrt', 'order', 'kinda', 'lfrp', 'fermat', 'rabin'):
                i = rng.below(len(a))
                a[i] = new[i]
                return a
            if fn == 'sqrt' and new[0] < a[1]:
                return [new[0], a[1]]
            if fn in ('polyred', 'polymul', 'polyexp'):
                # (the prime and the type of the lists stay)
                i, p = rng.below(len(a) - 2), a[-2]
                if i == len(a) - 3:
                    a[i] = [c % p for c in new[i][:-1]] + [1]
                else:
                    a[i] = [c % p for c in new[i]] if isinstance(new[i], list) else min(new[i], p - 1)
                return a
        if fn in ('exp', 'jacobi', 'inverse'):
            i = rng.below(len(a))
            if i == len(a) - 1 or a[i] >= 0 or fn != 'exp':
                a[i] += d
        elif fn in ('sqrt', 'msqrt', 'legendre') and a[1] < 1 << 300 and rng.chance(0.5):
            a[1] = partner(a[1], rng.choice([8, 16, 32, 64, 128]))
        elif fn in ('legendre', 'msqrt'):
            a[0] += d
        elif fn in ('gcd', 'lcm'):
            a[0][rng.below(len(a[0]))] += d
            if rng.chance(0.3):
                a[0] = a[0][::-1]
        elif fn == 'isprime' and a[0] >= 0:
            a[0] += d
        elif fn in ('polyred', 'polymul'):
            a[0] = a[0] + [0] if rng.chance(0.3) else a[0][::-1]
        else:
            return None
        return a

    def g_exp(self, rng):
        m = max(2, rng.bits(rng.choice([4, 16, 64, 256, 700])))
        return [self.value(rng, m), rng.choice([0, 1, 2, rng.bits(8), rng.bits(64), rng.bits(300), -1 - rng.bits(5)]), m]

    def poly(self, rng, p, n):
        c = [rng.below(p) if rng.chance(0.7) else rng.choice([0, 1, p - 1]) for _ in range(n)]
        return c

    def g_polyred(self, rng):
        p = self.primes(rng, False, 2)
        n = rng.range(2, 6)
        return [self.poly(rng, p, rng.range(1, 9)), self.poly(rng, p, n - 1) + [1], p, rng.below(2)]

    def g_polymul(self, rng):
        p = self.primes(rng, False, 2)
        n = rng.range(2, 6)
        return [self.poly(rng, p, rng.range(1, 6)), self.poly(rng, p, rng.range(1, 6)),
                self.poly(rng, p, n - 1) + [1], p, rng.below(2)]

    def g_polyexp(self, rng):
        p = self.primes(rng, False, 2)
        n = rng.range(2, 4)
        e = rng.choice([0, 1, 2, 3, rng.below(p), p - 1])
        return [self.poly(rng, p, rng.range(1, 4)), min(e, p - 1), self.poly(rng, p, n - 1) + [1], p, rng.below(2)]

    def g_jacobi(self, rng):
        n = rng.choice([rng.range(1, 60) * 2 + 1, rng.bits(64) | 1, rng.bits(256) | 1, self.primes(rng)])
        n = max(3, n)
        if n.bit_length() > 1000:
            n = 2 ** 521 - 1
        a = self.value(rng, n)
        if rng.chance(0.3):
            a <<= rng.below(9)
        return [a, n]

    def g_sqrt(self, rng):
        p = self.primes(rng, False, 2)
        a = rng.below(p)
        if rng.chance(0.7):
            a = a * a % p
        elif rng.chance(0.2):
            a = rng.choice([0, 1, p - 1])
        return [a, p]

    def g_msqrt(self, rng):
        p = self.primes(rng, True, 2)
        a = self.value(rng, p)
        if rng.chance(0.7):
            a = a * a % p
        return [a, p]

    def g_legendre(self, rng):
        p = self.primes(rng)
        return [self.value(rng, p), p]

    def g_inverse(self, rng):
        m = rng.choice([self.primes(rng, False), rng.range(2, 5000), rng.bits(64) | 2, rng.bits(256) | 2, 2 ** rng.range(1, 90)])
        return [self.value(rng, m), m]

    def g_gcd(self, rng):
        g = rng.bits(rng.choice([1, 4, 32, 200]))
        xs = [g * rng.bits(rng.choice([1, 5, 30, 200])) for _ in range(rng.weighted([(1, 1), (2, 5), (3, 2), (5, 1)]))]
        return [xs, rng.choice(['args', 'list', 'gcd2', 'tuple'])]

    def g_lcm(self, rng):
        g = 1 + rng.bits(rng.choice([1, 4, 32]))
        xs = [g * (1 + rng.bits(rng.choice([1, 5, 30, 100]))) for _ in range(rng.weighted([(1, 1), (2, 5), (3, 2), (4, 1)]))]
        return [xs, rng.choice(['args', 'list', 'lcm2', 'tuple'])]

    def facts(self, rng):
        """a factorisation whose second largest prime is small"""
        f = {}
        for _ in range(rng.below(5)):
            p = rng.choice([2, 2, 3, 5, 7, 11, rng.choice(SMALL), 1223, 1229])
            f[p] = f.get(p, 0) + rng.weighted([(1, 5), (2, 2), (3, 1), (7, 0.3)])
        if rng.chance(0.35):
            p = rng.choice([1231, 1237, 1249, 2003, 3001, 4999, 7919])
            f[p] = f.get(p, 0) + rng.weighted([(1, 4), (2, 2), (3, 1)])
        if rng.chance(0.4):
            # trial division beyond the small primes ends at the root of what is left
            p = rng.choice([1231, 1237, 10007, 65537, 2 ** 31 - 1] +
                           ([] if max(f or [2]) > 1229 else [2 ** 61 - 1, 2 ** 89 - 1, 2 ** 127 - 1]))
            f[p] = f.get(p, 0) + 1
        return sorted([p, e] for p, e in f.items())

    def g_factor(self, rng):
        if rng.chance(0.3):
            n = rng.choice([0, 1, -5, rng.below(3000), rng.below(3000), rng.below(200000)])
            return [[list(x) for x in refs.factor(n)] if n > 1 else [], n]
        f = self.facts(rng)
        n = 1
        for p, e in f:
            n *= p ** e
        return [f, n]

    g_phi = g_factor
    g_carmichael = g_factor

    def g_carm_fact(self, rng):
        return [self.facts(rng)]

    def g_order(self, rng):
        m = rng.range(2, 1500) if rng.chance(0.8) else rng.choice([2, 3, 4, 8, 1024, 1223, 2310])
        return [rng.below(3 * m), m]

    def g_kinda(self, rng):
        return [rng.range(1, 400), rng.range(2, 900)]

    def g_lfrp(self, rng):
        g = 1 + rng.bits(6)
        return [g * (1 + rng.bits(rng.choice([3, 20, 90]))), g * (1 + rng.bits(rng.choice([3, 20, 90])))]

    def g_isprime(self, rng):
        m = rng.below(100)
        if m < 20:
            return [rng.range(-3, 1400)]
        if m < 40:
            return [rng.choice(PSEUDO)]
        if m < 60:
            return [self.primes(rng, False)]
        if m < 75:
            return [rng.bits(rng.choice([12, 20, 40, 99, 101, 149, 151, 300, 600])) | 1]
        if m < 88:
            b = rng.choice([12, 20, 40, 90])
            return [next_prime(rng.bits(b) | 1) * next_prime(rng.bits(b) | 1)]
        return [next_prime(rng.bits(rng.choice([12, 40, 98, 120, 160, 220, 270, 330, 420, 520])) | 1)]

    def g_nextprime(self, rng):
        return [rng.choice([rng.range(-2, 30), rng.range(1200, 1260), rng.below(5000), rng.bits(40), rng.bits(64),
                            self.primes(rng, False, 1), self.primes(rng, False, 1) - 1])]

    def g_fermat(self, rng):
        p = rng.choice([self.primes(rng, False), rng.choice(PSEUDO), rng.bits(30) | 2])
        return [p, self.value(rng, p)]

    def g_rabin(self, rng):
        p = rng.choice([self.primes(rng, True, 3), rng.choice(PSEUDO) | 1, rng.bits(30) | 3])
        a = rng.choice([1, p - 1, 2, rng.range(1, p - 1), rng.range(1, p - 1)])
        if rng.chance(0.08):
            a = rng.choice([0, p, -1, p + 5])
        return [p, a]

    def g_table(self, rng):
        return []

    # -- running
    def start(self, k, plan):
        self.nt = self.m['numbertheory']
        self.pr = self.m['prime']
        self.pool = {}          # coefficient lists shared by the callers

    def lst(self, coef, tup):
        if tup:
            return tuple(coef)
        return self.pool.setdefault(tuple(coef), list(coef))

    def do(self, k, op, job):
        fn = op['k']
        a = op['a']
        self.what = None
        getattr(self, 'd_' + fn)(k, *a)
        k.trace('done', fn)

    def num(self, k, fn, f, want, *args):
        r = k.call(f, *args)
        if self.must(k, r, fn, '%s%s' % (fn, show(args))):
            self.same(k, r.value, want, 'wrong-result', fn, fn + show(args))
        return r

    def refuse(self, k, fn, f, exc, *args):
        r = k.call(f, *args)
        if r.ok:
            k.violate('accepted', fn, '%s%s returned %s' % (fn, show(args), show(r.value)))
        elif not r.injected and exc is not None and not isinstance(r.exc, exc):
            k.violate('wrong-error', fn, '%s%s raised %s' % (fn, show(args), type(r.exc).__name__))
        k.count('probe:refused')

    def d_exp(self, k, b, e, m):
        f = self.nt.modular_exp
        if e < 0:
            return self.refuse(k, 'modular_exp', f, self.nt.NegativeExponentError, b, e, m)
        self.num(k, 'modular_exp', f, pow(b, e, m), b, e, m)

    def polycheck(self, k, fn, f, want, args, polymod, p):
        before = [list(x) if isinstance(x, (list, tuple)) else x for x in args]
        r = k.call(f, *args)
        after = [list(x) if isinstance(x, (list, tuple)) else x for x in args]
        if before != after:
            k.violate('argument-modified', fn, '%s changed its arguments %s to %s' % (fn, show(before), show(after)))
            return
        if not self.must(k, r, fn, '%s%s' % (fn, show(before))):
            return
        v = r.value
        if not isinstance(v, (list, tuple)) or strip(refs.poly_mod(list(v), polymod, p)) != strip(want):
            k.violate('wrong-result', fn, '%s%s returned %s, expected %s' % (fn, show(before), show(v), show(want)))

    def d_polyred(self, k, a, m, p, tup):
        self.polycheck(k, 'polynomial_reduce_mod', self.nt.polynomial_reduce_mod, refs.poly_mod(a, m, p),
                       (self.lst(a, 0), self.lst(m, tup), p), m, p)

    def d_polymul(self, k, a, b, m, p, tup):
        self.polycheck(k, 'polynomial_multiply_mod', self.nt.polynomial_multiply_mod, refs.poly_mulmod(a, b, m, p),
                       (self.lst(a, tup), self.lst(b, tup), self.lst(m, tup), p), m, p)

    def d_polyexp(self, k, a, e, m, p, tup):
        want = [1]
        sq = refs.poly_mod(list(a), m, p) or [0]
        x = e
        while x:
            if x & 1:
                want = refs.poly_mulmod(want, sq, m, p)
            sq = refs.poly_mulmod(sq, sq, m, p)
            x >>= 1
        self.polycheck(k, 'polynomial_exp_mod', self.nt.polynomial_exp_mod, refs.poly_mod(want, m, p),
                       (self.lst(a, tup), e, self.lst(m, tup), p), m, p)

    def d_jacobi(self, k, a, n):
        self.num(k, 'jacobi', self.nt.jacobi, refs.kronecker(a, n), a, n)

    def d_sqrt(self, k, a, p):
        f = self.nt.square_root_mod_prime
        if p > 2 and refs.kronecker(a, p) == -1:
            return self.refuse(k, 'square_root_mod_prime', f, self.nt.SquareRootError, a, p)
        r = k.call(f, a, p)
        if self.must(k, r, 'square_root_mod_prime', 'square_root_mod_prime(%d, %d)' % (a, p)):
            v = r.value
            if not isinstance(v, (int, long)) or v * v % p != a or not 0 <= v < p:
                k.violate('wrong-result', 'square_root_mod_prime', 'square_root_mod_prime(%d, %d) returned %s'
                          % (a, p, show(v)))

    def d_msqrt(self, k, a, p):
        r = k.call(self.nt.modular_sqrt, a, p)
        if self.must(k, r, 'modular_sqrt', 'modular_sqrt(%d, %d)' % (a, p)):
            v = r.value
            if not isinstance(v, (int, long)):
                ok = False
            elif refs.kronecker(a, p) != 1:
                ok = v == 0
            else:
                ok = (v * v - a) % p == 0
            if not ok:
                k.violate('wrong-result', 'modular_sqrt', 'modular_sqrt(%d, %d) returned %s' % (a, p, show(v)))

    def d_legendre(self, k, a, p):
        self.num(k, 'legendre_symbol', self.nt.legendre_symbol, refs.kronecker(a, p), a, p)

    def d_inverse(self, k, a, m):
        f = self.nt.inverse_mod
        if refs.gcd(a, m) != 1:
            return self.refuse(k, 'inverse_mod', f, None, a, m)
        self.num(k, 'inverse_mod', f, refs.inv(a, m), a, m)

    def vararg(self, k, name, xs, form, want):
        nt = self.nt
        if form == name + '2' and len(xs) == 2:
            return self.num(k, form, getattr(nt, form), want, xs[0], xs[1])
        f = getattr(nt, name)
        if form == 'list':
            args = [self.pool.setdefault(('v',) + tuple(xs), list(xs))]
        elif form == 'tuple':
            args = [tuple(xs)]
        else:
            args = list(xs)
        self.num(k, name, f, want, *args)
        if form == 'list' and args[0] != xs:
            k.violate('argument-modified', name, '%s changed the list %s to %s' % (name, show(xs), show(args[0])))

    def d_gcd(self, k, xs, form):
        g = 0
        for x in xs:
            g = refs.gcd(g, x)
        self.vararg(k, 'gcd', xs, form, g)

    def d_lcm(self, k, xs, form):
        l = 1
        for x in xs:
            l = l * x // refs.gcd(l, x)
        self.vararg(k, 'lcm', xs, form, l)

    def d_factor(self, k, f, n):
        r = k.call(self.nt.factorization, n)
        if self.must(k, r, 'factorization', 'factorization(%d)' % n):
            try:
                got = sorted([p, e] for p, e in r.value)
            except (TypeError, ValueError):
                got = None
            if got != sorted(f):
                k.violate('wrong-result', 'factorization', 'factorization(%d) returned %s' % (n, show(r.value)))

    def d_phi(self, k, f, n):
        w = 1
        for p, e in f:
            w *= (p - 1) * p ** (e - 1)
        if n < 1:
            return
        self.num(k, 'phi', self.nt.phi, w, n)

    @staticmethod
    def lam(f):
        w = 1
        for p, e in f:
            l = (p - 1) * p ** (e - 1)
            if p == 2 and e > 2:
                l //= 2
            w = w * l // refs.gcd(w, l)
        return w

    def d_carmichael(self, k, f, n):
        if n < 1:
            return
        self.num(k, 'carmichael', self.nt.carmichael, self.lam(f), n)

    def d_carm_fact(self, k, f):
        arg = self.pool.setdefault(('f',) + tuple(map(tuple, f)), [tuple(x) for x in f])
        self.num(k, 'carmichael_of_factorized', self.nt.carmichael_of_factorized, self.lam(f), arg)
        if map(list, arg) != map(list, f):
            k.violate('argument-modified', 'carmichael_of_factorized', 'the list of factors %s became %s'
                      % (show(f), show(arg)))
        for x in f[:1]:
            self.num(k, 'carmichael_of_ppower', self.nt.carmichael_of_ppower, self.lam([x]), tuple(x))

    def d_order(self, k, x, m):
        f = self.nt.order_mod
        if refs.gcd(x, m) != 1:
            return self.refuse(k, 'order_mod', f, None, x, m)
        self.num(k, 'order_mod', f, refs.order(x, m), x, m)

    @staticmethod
    def coprime_part(a, b):
        while True:
            g = refs.gcd(a, b)
            if g <= 1:
                return a
            a //= g

    def d_kinda(self, k, x, m):
        m2 = self.coprime_part(m, x)
        if m2 > 1:
            self.num(k, 'kinda_order_mod', self.nt.kinda_order_mod, refs.order(x, m2), x, m)

    def d_lfrp(self, k, a, b):
        self.num(k, 'largest_factor_relatively_prime', self.nt.largest_factor_relatively_prime,
                 self.coprime_part(a, b), a, b)

    def d_isprime(self, k, n):
        self.num(k, 'is_prime', self.nt.is_prime, refs.is_prime(n), n)

    def d_nextprime(self, k, n):
        self.num(k, 'next_prime', self.nt.next_prime, next_prime(max(1, n)), n)

    def d_fermat(self, k, p, a):
        self.num(k, 'fermat_little_test', self.pr.fermat_little_test, pow(a, p - 1, p) == 1, p, a)

    def d_rabin(self, k, n, a):
        f = self.pr.rabin_miller
        if not 1 <= a <= n - 1:
            return self.refuse(k, 'rabin_miller', f, None, n, a)
        r, s = n - 1, 0
        while r % 2 == 0:
            r //= 2
            s += 1
        y = pow(a, r, n)
        ok = y in (1, n - 1)
        for _ in range(s - 1):
            y = y * y % n
            ok = ok or y == n - 1
        self.num(k, 'rabin_miller', f, ok, n, a)

    def d_table(self, k):
        t = self.m['primes_to_5k'].primes_to_5k
        if list(t) != [p for p in range(5000) if refs.is_prime(p)]:
            k.violate('wrong-table', 'primes_to_5k', 'the table of primes below 5000 is not that')


class C19(MathBase):
    """Callers evaluate expressions over one pool of shared elements."""
    prop = 'C19'
    modules = ('fmath.galoisfield',)
    real = ('fmath/galoisfield.py',)
    budget = 1200000

    def gen(self, rng):
        ps = [self.primes(rng, False) for _ in range(rng.range(1, 2))]
        if len(ps) > 1 and ps[0] < 1 << 300 and rng.chance(0.2):
            ps[1] = partner(ps[0], rng.choice([8, 16, 32, 64, 64, 128]))
        pool = [[self.value(rng, ps[f]) for _ in range(rng.range(2, 5))] for f in range(len(ps))]
        if len(ps) > 1 and rng.chance(0.3):
            pool[1] = list(pool[0])              # the same integers in both fields
        ops = []
        for i in range(rng.range(2, 10)):
            f = rng.below(len(ps))
            kind = rng.weighted([('expr', 10), ('div0', 1), ('inverse', 1), ('elem', 0.7)])
            op = {'k': kind, 'f': f, 't': float(i // 3 + rng.below(2)), 'c': 't%d' % rng.below(4)}
            if 'f' in op:
                op['field'] = op.pop('f')
            if kind == 'expr':
                op['e'] = self.expr(rng, ps[f], len(pool[f]), rng.range(1, 4))
            else:
                op['n'] = self.value(rng, ps[f])
                op['i'] = rng.below(len(pool[f]))
                op['w'] = rng.below(6)
            ops.append(op)
        ops.sort(key=lambda o: o['t'])
        return {'cfg': {'p': ps, 'pool': pool}, 'ops': ops}

    def leaf(self, rng, p, n, must):
        if must or rng.chance(0.6):
            return ['e', rng.below(n)]
        v = self.value(rng, p)
        if rng.chance(0.3):
            v = rng.range(-9, 9)
        return ['n', v]

    def expr(self, rng, p, n, depth):
        if depth == 0:
            return ['e', rng.below(n)]
        o = rng.weighted([('+', 3), ('-', 3), ('*', 3), ('/', 3), ('^', 2), ('neg', 1), ('+=', 0.5), ('*=', 0.4),
                          ('-=', 0.4), ('/=', 0.3), ('^=', 0.2)])
        a = self.expr(rng, p, n, depth - 1)
        if o == 'neg':
            return [o, a]
        if o in ('^', '^='):
            if o == '^' and rng.chance(0.25):
                return [o, ['n', self.value(rng, p)], a]        # integer to the power of an element
            if rng.chance(0.3):
                return [o, a, ['e', rng.below(n)]]
            return [o, a, ['n', abs(rng.choice([0, 1, 2, 3, rng.bits(7), p - 1, p - 2, rng.bits(300), p]))]]
        b = self.leaf(rng, p, n, False) if rng.chance(0.6) else self.expr(rng, p, n, rng.below(depth))
        if len(o) == 1 and rng.chance(0.5):
            a, b = b, a
        return [o, a, b]

    def start(self, k, plan):
        c = plan['cfg']
        self.p = c['p']
        self.want = [[v % p for v in vs] for p, vs in zip(c['p'], c['pool'])]
        self.raw = c['pool']
        self.gf = {}
        self.el = {}

    OPS = {
        '+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b,
        '/': lambda a, b: a / b, '^': lambda a, b: a ^ b, 'neg': lambda a: -a,
        'int': int, 'str': str, 'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b,
    }

    @staticmethod
    def inplace(o, a, b):
        if o == '+=':
            a += b
        elif o == '-=':
            a -= b
        elif o == '*=':
            a *= b
        elif o == '/=':
            a /= b
        else:
            a ^= b
        return a

    def field(self, k, f):
        if f not in self.gf:
            r = k.call(self.m['galoisfield'].GFp, self.p[f])
            if not self.must(k, r, 'field', 'creating a field'):
                return None
            self.gf.setdefault(f, r.value)
        return self.gf[f]

    def elem(self, k, f, i):
        if (f, i) not in self.el:
            g = self.field(k, f)
            if g is None:
                return None
            r = k.call(g, self.raw[f][i])
            if not self.must(k, r, 'element', 'creating an element'):
                return None
            self.el.setdefault((f, i), r.value)
        return self.el[(f, i)]

    def value_of(self, k, x, what):
        r = k.call(int, x)
        if not self.must(k, r, 'int', 'int() of ' + what):
            return None
        return r.value

    def ev(self, k, f, e):
        """-> (object, value) or None"""
        p = self.p[f]
        if e[0] == 'e':
            i = e[1] % len(self.want[f])
            x = self.elem(k, f, i)
            return None if x is None else (x, self.want[f][i], ('e', i))
        if e[0] == 'n':
            return e[1], e[1], None
        o = e[0]
        args = []
        for s in e[1:]:
            v = self.ev(k, f, s)
            if v is None:
                return None
            args.append(v)
        vals = [v for _, v, _ in args]
        ints = not any(hasattr(x, 'gf') or not isinstance(x, (int, long)) for x, _, _ in args)
        if ints:
            # arithmetic on two plain integers is not the field's business
            x = self.elem(k, f, 0)
            if x is None:
                return None
            args[0] = (x, self.want[f][0], ('e', 0))
            vals[0] = self.want[f][0]
        b = o[0]
        if b == '/' and vals[1] % p == 0:
            self.refused(k, o, args, f)
            return None
        if o == 'neg':
            want = -vals[0] % p
        elif b == '+':
            want = (vals[0] + vals[1]) % p
        elif b == '-':
            want = (vals[0] - vals[1]) % p
        elif b == '*':
            want = vals[0] * vals[1] % p
        elif b == '/':
            want = vals[0] * refs.inv(vals[1], p) % p
        else:
            want = pow(vals[0], vals[1], p)
        fn = self.OPS.get(o)
        if fn is None or (o.endswith('=') and isinstance(args[0][0], (int, long))):
            fn = self.OPS[b] if isinstance(args[0][0], (int, long)) else (lambda a, c: self.inplace(o, a, c))
        r = k.call(fn, *[x for x, _, _ in args])
        what = '%s %s mod %d' % (o, vals, p)
        if not self.must(k, r, 'op' + b, what):
            return None
        if isinstance(r.value, (int, long, float)) or r.value is None:
            k.violate('not-an-element', 'op' + b, '%s gave %s' % (what, show(r.value)))
            return None
        got = self.value_of(k, r.value, what)
        if got is None or not self.same(k, got, want, 'wrong-result', 'op' + b, what):
            return None
        for x, v, ref in args:
            if not isinstance(x, (int, long)):
                now = self.value_of(k, x, 'an operand')
                if now is None or not self.same(k, now, v, 'operand-modified', 'op' + b, 'operand of ' + what):
                    return None
        return r.value, want, None

    def refused(self, k, o, args, f):
        fn = self.OPS['/']
        r = k.call(fn, args[0][0], args[1][0])
        k.count('probe:refused')
        if r.ok:
            k.violate('division-by-zero', 'op/', '%s divided by zero in GF(%d) gave %s'
                      % (args[0][1], self.p[f], show(r.value)))

    def do(self, k, op, job):
        f = op['field']
        p = self.p[f]
        if op['k'] == 'expr':
            v = self.ev(k, f, op['e'])
            if v is not None:
                k.trace('expr', v[1])
                if not isinstance(v[0], (int, long)):
                    self.compare(k, f, v)
            return
        x = self.elem(k, f, op['i'])
        if x is None:
            return
        xv = self.want[f][op['i'] % len(self.want[f])]
        if op['k'] == 'div0':
            g = self.field(k, f)
            z = [0, p, -p, None, None, 0][op['w']]
            if z is None:
                r = k.call(g, 0)
                if not self.must(k, r, 'element', 'creating an element'):
                    return
                z = r.value
            a = x if op['w'] != 4 else op['n']
            self.refused(k, '/', [(a, xv), (z, 0)], f)
        elif op['k'] == 'inverse':
            g = self.field(k, f)
            n = op['n']
            r = k.call(g.inverse, n)
            if n % p == 0:
                if r.ok:
                    k.violate('division-by-zero', 'inverse', 'the inverse of %d modulo %d is %s' % (n, p, show(r.value)))
                return
            if self.must(k, r, 'inverse', 'inverse of %d modulo %d' % (n, p)):
                self.same(k, r.value, refs.inv(n, p), 'wrong-result', 'inverse', 'inverse of %d modulo %d' % (n, p))
        else:
            g = self.field(k, f)
            n = op['n']
            r = k.call(g, n)
            if not self.must(k, r, 'element', 'element of %d' % n):
                return
            v = self.value_of(k, r.value, 'element of %d' % n)
            if v is None or not self.same(k, v, n % p, 'wrong-result', 'element', 'element of %d modulo %d' % (n, p)):
                return
            if n != 0:
                r = k.call(g.is_element, n)
                if self.must(k, r, 'is_element', 'is_element'):
                    self.same(k, r.value, 0 < n < p, 'wrong-result', 'is_element', 'is_element(%d) modulo %d' % (n, p))

    def compare(self, k, f, v):
        """equality with integers and with shared elements follows the value"""
        x, want, _ = v
        r = k.call(self.OPS['eq'], x, want)
        if self.must(k, r, 'eq', 'comparison'):
            self.same(k, bool(r.value), True, 'wrong-result', 'eq', '%d == %d in GF(%d)' % (want, want, self.p[f]))
        y = self.elem(k, f, 0)
        if y is not None:
            w = self.want[f][0]
            r = k.call(self.OPS['eq'], x, y)
            if self.must(k, r, 'eq', 'comparison'):
                self.same(k, bool(r.value), w == want, 'wrong-result', 'eq', 'elements %d == %d' % (want, w))
            r = k.call(self.OPS['ne'], x, y)
            if self.must(k, r, 'ne', 'comparison'):
                self.same(k, bool(r.value), w != want, 'wrong-result', 'ne', 'elements %d != %d' % (want, w))
        r = k.call(str, x)
        if self.must(k, r, 'str', 'str()'):
            self.same(k, r.value, '%d' % want, 'wrong-result', 'str', 'text of the element %d' % want)
