"""Generates sim/toycurves.json: small curves of every family, with the points
that matter (order two, outside the subgroup).  Run once; the result is committed."""
import random, json
R = random.Random(20240501)

def isprime(n):
    if n < 2: return False
    i = 2
    while i * i <= n:
        if n % i == 0: return False
        i += 1
    return True

def factor(n):
    f = {}; d = 2
    while d * d <= n:
        while n % d == 0:
            f[d] = f.get(d, 0) + 1; n //= d
        d += 1
    if n > 1: f[n] = f.get(n, 0) + 1
    return f

def curve_points(fam, p, a, b, roots):
    pts = []
    for x in range(p):
        if fam == 'sw': v = (x*x*x + a*x + b) % p
        elif fam == 'mo': v = (x*x*x + a*x*x + x) % p
        else:
            den = (1 - b*x*x) % p
            if den == 0: continue
            v = (1 - a*x*x) * pow(den, -1, p) % p
        for y in roots.get(v, ()): pts.append((x, y))
    return pts

def add(fam, p, a, b, P, Q):
    if fam == 'ed':
        t = b*P[0]*Q[0]*P[1]*Q[1] % p
        return ((P[0]*Q[1]+Q[0]*P[1])*pow(1+t,-1,p)%p, (P[1]*Q[1]-a*P[0]*Q[0])*pow(1-t,-1,p)%p)
    if P is None: return Q
    if Q is None: return P
    if P[0] == Q[0]:
        if (P[1]+Q[1]) % p == 0: return None
        l = (3*P[0]**2 + (a if fam == 'sw' else 2*a*P[0]+1)) * pow(2*P[1], -1, p)
    else: l = (Q[1]-P[1]) * pow(Q[0]-P[0], -1, p)
    x = (l*l - P[0] - Q[0] - (a if fam == 'mo' else 0)) % p
    return (x, (l*(P[0]-x)-P[1]) % p)

def mul(fam, p, a, b, k, P):
    Rr = (0, 1) if fam == 'ed' else None
    while k:
        if k & 1: Rr = add(fam, p, a, b, Rr, P)
        P = add(fam, p, a, b, P, P); k >>= 1
    return Rr

def legendre(v, p): return pow(v % p, (p-1)//2, p)

out = []
def make(fam, cls, p, want, tries=400):
    roots = {}
    for y in range(p): roots.setdefault(y*y % p, []).append(y)
    for _ in range(tries):
        a = R.randrange(p); b = R.randrange(1, p)
        if cls == 'Koblitz': a = 0
        if cls == 'Edwards': a = 1
        if fam == 'sw' and (4*a**3 + 27*b*b) % p == 0: continue
        if fam == 'mo':
            b = 0
            if (a*a - 4) % p == 0: continue
        if fam == 'ed':
            if a == 0 or b == a or legendre(a, p) != 1 or legendre(b, p) != p-1: continue
            if cls == 'TwistedEdwards' and a == 1 and p > 7: continue
        pts = curve_points(fam, p, a, b, roots)
        N = len(pts) + (0 if fam == 'ed' else 1)
        f = factor(N)
        n = max(f)
        if want == 'prime' and N != n: continue
        if want == 'cof' and (N == n or n < 3 or N // n < 2 or f[n] > 1): continue
        if want == 'cof' and n * 64 < N and p > 100: continue
        zero = (0, 1) if fam == 'ed' else None
        for _ in range(50):
            G = mul(fam, p, a, b, N // n, R.choice(pts))
            if G != zero: break
        else: continue
        extra = [P for P in pts if P != zero and add(fam, p, a, b, P, P) == zero][:3]
        if fam == 'ed':   # order four
            extra += [P for P in pts if add(fam, p, a, b, P, P) in extra][:2]
        extra += [P for P in pts if P != zero and P[0] == 0][:2]
        extra += [R.choice(pts) for _ in range(2)]
        out.append({'fam': fam, 'cls': cls, 'p': p, 'a': a, 'b': b, 'G': G, 'n': n, 'h': N // n, 'x': extra})
        return True
    return False

small = [5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 61, 73, 97, 127, 193, 241, 251, 257, 263, 271, 283, 293]
mid = [499, 641, 769, 1009, 1013, 1019, 1021, 4093, 7681, 12289, 16381, 40961, 65519, 65521, 65537, 65539, 65543]
for p in small + mid:
    for fam, cls in (('sw', 'SmallWeierstrass'), ('sw', 'Koblitz'), ('mo', 'Montgomery'), ('ed', 'Edwards'), ('ed', 'TwistedEdwards')):
        big = p > 2000
        if cls == 'Koblitz' and p % 3 != 1 and p > 60: continue
        if big and fam != 'sw' and p not in (12289, 16381, 65521, 65537, 65543): continue
        if fam == 'sw':
            if not (cls == 'Koblitz'): make(fam, cls, p, 'prime', 60 if big else 400)
            else: make(fam, cls, p, 'prime', 30)
            if not big or p in (12289, 65537, 65521): make(fam, cls, p, 'cof', 40)
        else:
            make(fam, cls, p, 'cof', 60)

# curves through (0,0), a point of order two on a short Weierstrass curve
def through_zero(p):
    roots = {}
    for y in range(p): roots.setdefault(y*y % p, []).append(y)
    for _ in range(60):
        a = R.randrange(1, p)
        pts = curve_points('sw', p, a, 0, roots)
        N = len(pts) + 1
        f = factor(N)
        n = max(f)
        if n < 3 or f[n] > 1 or (p > 100 and n * 64 < N): continue
        for _ in range(50):
            G = mul('sw', p, a, 0, N // n, R.choice(pts))
            if G is not None: break
        else: continue
        extra = [P for P in pts if P[1] == 0][:3] + [R.choice(pts) for _ in range(3)]
        out.append({'fam': 'sw', 'cls': 'SmallWeierstrass', 'p': p, 'a': a, 'b': 0, 'G': G, 'n': n, 'h': N // n, 'x': extra})
        return

for p in small[1:] + [499, 1009, 1021, 4093, 65537]:
    through_zero(p)

# supersingular curves (p + 1 points) over fields around the machine's word sizes
def mr(n):
    if n < 4: return n > 1
    if n % 2 == 0: return False
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % a == 0: return n == a
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True

def super_(fam, cls, bits, above):
    h = {'SmallWeierstrass': 4, 'Koblitz': 6}.get(cls, 4)
    p = (1 << bits) + (1 if above else -1)
    while True:
        p += 1 if above else -1
        if (p + 1) % h or p % 4 != 3 and cls != 'Koblitz' or p % 3 != 2 and cls == 'Koblitz': continue
        if mr(p) and mr((p + 1) // h): break
    n = (p + 1) // h
    sq = lambda v: pow(v, (p + 1) // 4, p)
    a, b = {'SmallWeierstrass': (R.randrange(1, p), 0), 'Koblitz': (0, R.randrange(1, p)), 'Montgomery': (0, 0),
            'Edwards': (1, p - 1)}.get(cls, (0, 0))
    if cls == 'TwistedEdwards':
        a = pow(R.randrange(2, p), 2, p); b = p - a
    if p % 4 != 3: return
    def point():
        while True:
            x = R.randrange(p)
            if fam == 'ed': v = (1 - a*x*x) * pow(1 - b*x*x, -1, p) % p
            else: v = (x**3 + (a * x if fam == 'sw' else x) + b) % p
            y = sq(v)
            if y * y % p == v: return (x, y)
    zero = (0, 1) if fam == 'ed' else None
    while True:
        G = mul(fam, p, a, b, h, point())
        if G != zero: break
    assert mul(fam, p, a, b, n, G) == zero
    extra = {'ed': [(0, p - 1)], 'mo': [(0, 0)]}.get(fam, [(0, 0)] if b == 0 else [])
    if cls == 'SmallWeierstrass' and pow(p - a, (p - 1) // 2, p) == 1: extra = extra + [(sq(p - a), 0)]
    extra = extra + [point(), point()]
    out.append({'fam': fam, 'cls': cls, 'p': p, 'a': a, 'b': b, 'G': G, 'n': n, 'h': h, 'x': extra})

for bits, above in ((24, 0), (31, 0), (31, 1), (32, 0), (32, 1), (53, 1), (63, 0), (63, 1), (64, 0), (64, 1), (80, 0)):
    for fam, cls in (('sw', 'SmallWeierstrass'), ('sw', 'Koblitz'), ('mo', 'Montgomery'), ('ed', 'Edwards'), ('ed', 'TwistedEdwards')):
        super_(fam, cls, bits, above)
json.dump(out, open(__import__('os').path.dirname(__import__('os').path.abspath(__file__)) + '/../sim/toycurves.json', 'w'), separators=(',', ':'))
print(len(out))
from collections import Counter
print(Counter((o['cls'], o['p'] % 8) for o in out))
