"""C21, C23, C24: tables and analyses that every part of a program shares."""
import os
import json
from base import Scenario
from kernel import show, HERE

TABLE = json.load(open(os.path.join(HERE, 'curvetable.json')))
NAMES = sorted(TABLE)
RESIDUES = ('a', 'b', 'c', 'd', 'z')


def wanted(name):
    w = {}
    for k, v in TABLE[name].items():
        if isinstance(v, unicode):
            v = v.encode('ascii')
            if k not in ('curveId', 'base'):
                v = int(v, 16)
        w[str(k)] = v
    return w


class C21(Scenario):
    """Several threads instantiate and use the named curves; calls are aborted;
    after everything that happens each curve is compared with the published
    parameters."""
    prop = 'C21'
    modules = ('ecc.ecc', 'ecc.curves')
    kinds = ('sw', 'intr', 'ent')
    real = ('ecc/curves.py', 'ecc/ecc.py', 'ecc/ellipticcurve.py', 'ecc/numbertheory.py')
    stub = ('entropy source', 'thread scheduler', 'asynchronous exceptions')
    intkeys = ('x',)
    budget = 6000000

    def gen(self, rng):
        i = rng.i if rng.i is not None else rng.below(1000)
        # every curve is swept over; its relatives are the likely victims
        names = [NAMES[i % len(NAMES)], NAMES[(i * 7 + i // len(NAMES)) % len(NAMES)]]
        ops = []
        for j in range(rng.range(2, 8)):
            kind = rng.weighted([('look', 4), ('use', 5), ('lists', 0.7), ('find', 1)])
            op = {'k': kind, 't': float(rng.below(6)), 'c': 'c%d' % rng.below(3), 'n': rng.choice(names + names[:1]),
                  'o': rng.below(2)}
            if kind == 'use':
                op['how'] = rng.choice(['generator', 'double', 'add', 'multiple', 'key', 'recover', 'encode', 'bad',
                                        'identity', 'inverse', 'ladder'])
                op['x'] = rng.range(1, 9)
            ops.append(op)
        ops.append({'k': 'look', 't': 9.0, 'c': 'c0', 'n': names[0], 'o': 0})
        ops.sort(key=lambda o: o['t'])
        return {'cfg': {}, 'ops': ops}

    def entropy(self, rng, op):
        return [rng.choice(['oserror', 'notimpl'])]

    def start(self, k, plan):
        self.obj = {}

    def compare(self, k, name, c, what):
        w = wanted(name)
        p = w['p']
        for a in sorted(w):
            if a == 'base':
                base = getattr(self.m['ecc'], w[a])
                if not isinstance(c, base) and not (isinstance(c, type) and issubclass(c, base)):
                    k.violate('wrong-parameter', name + '.family', '%s: %s is no %s' % (what, name, w[a]))
                    return False
                continue
            r = k.call(getattr, c, a)
            if not r.ok:
                if r.injected:
                    return False
                k.violate('wrong-parameter', name + '.' + a, '%s: %s has no %s' % (what, name, a))
                return False
            v = r.value
            if a == 'oid':
                ok = (v is None) == (w[a] is None) and (v is None or list(v) == w[a])
            elif a in RESIDUES:
                ok = isinstance(v, (int, long)) and (v - w[a]) % p == 0
            elif isinstance(w[a], str):
                ok = v == w[a]
            else:
                ok = isinstance(v, (int, long)) and v == w[a]
            if not ok:
                k.violate('wrong-parameter', name + '.' + a, '%s: %s of %s is %s, published %s'
                          % (what, a, name, show(v), show(w[a])))
                return False
        return True

    def cls(self, k, name):
        c = getattr(self.m['curves'], name, None)
        if c is None:
            k.violate('wrong-parameter', name, 'there is no curve ' + name)
        return c

    def get(self, k, name, o):
        key = (name, o)
        if key not in self.obj:
            c = self.cls(k, name)
            if c is None:
                return None
            r = k.call(c)
            if not self.must(k, r, 'create', 'making the curve ' + name):
                return None
            self.obj.setdefault(key, r.value)
        return self.obj[key]

    def do(self, k, op, job):
        name = op['n']
        if op['k'] == 'lists':
            return self.lists(k)
        if op['k'] == 'find':
            return self.find(k, name)
        c = self.get(k, name, op['o'])
        if c is None:
            return
        if op['k'] == 'use':
            self.use(k, op, name, c)
        cls = self.cls(k, name)
        if cls is not None and self.compare(k, name, cls, 'class'):
            self.compare(k, name, c, 'object')
        k.trace('seen', name)

    def use(self, k, op, name, c):
        """something people do with a curve; what it returns is for other checks"""
        how, x = op['how'], op['x']
        G = k.call(c.generator)
        if not G.ok:
            return
        G = G.value
        f = {'generator': lambda: c.generator(), 'double': lambda: G.double(), 'add': lambda: G + G.double(),
             'multiple': lambda: G * x, 'key': lambda: c.new_private_key(),
             'recover': lambda: c.y_from_x(c.xG + x), 'encode': lambda: G.encode(),
             'bad': lambda: c.point(c.xG, c.yG + x), 'identity': lambda: G + -G,
             'inverse': lambda: c.inverse(x), 'ladder': lambda: c.montgomery_ladder(x, G)}[how]
        r = k.call(f)
        k.count('op:%s' % how)
        k.trace(how, r.ok)

    def find(self, k, name):
        """looked up by its identifier, each curve is found, once"""
        m = self.m['curves']
        want = wanted(name)['curveId']
        got = [c for c in m.allCurves if c.curveId == want]
        if name.startswith('NIST_'):
            return              # another name for a curve in the list
        if len(got) != 1:
            k.violate('wrong-identifier', name, '%d of the curves have the identifier %s' % (len(got), want))
            return
        self.compare(k, name, got[0], 'found by identifier')

    def lists(self, k):
        m = self.m['curves']
        fam = {'SmallWeierstrassCurveFp': 'smallWeierstrassCurves', 'KoblitzCurveFp': 'koblitzCurves',
               'TwistedEdwardsCurveFp': 'twistedEdwardsCurves', 'EdwardsCurveFp': 'edwardsCurves',
               'MontgomeryCurveFp': 'montgomeryCurves'}
        every = []
        for b in sorted(fam):
            want = sorted(n for n in NAMES if TABLE[n]['base'] == b and not n.startswith('NIST_'))
            got = sorted(c.__name__ for c in getattr(m, fam[b]))
            if got != want:
                k.violate('wrong-list', fam[b], 'missing %s, unexpected %s' % ([n for n in want if n not in got],
                                                                              [n for n in got if n not in want]))
                return
            every += want
        got = sorted(c.__name__ for c in m.allCurves)
        if got != sorted(every):
            k.violate('wrong-list', 'allCurves', 'the list of all curves has %d entries, expected %d'
                      % (len(got), len(every)))


# ---------------------------------------------------------------------------
PI = []


def pi_digits():
    """3 and 50020 digits behind it, as text, by Gauss's formula"""
    if not PI:
        u = 10 ** 50040

        def acot(x):
            t = u // x
            s, n, sign, xx = t, 3, -1, x * x
            while t:
                t //= xx
                s += sign * (t // n)
                sign, n = -sign, n + 2
            return s
        PI.append(str(4 * (12 * acot(18) + 8 * acot(57) - 5 * acot(239)))[:50021])
    return PI[0]


class C23(Scenario):
    """Threads ask for pi with different numbers of digits."""
    prop = 'C23'
    modules = ('fmath.pi',)
    kinds = ('sw', 'intr')
    real = ('fmath/pi.py',)
    stub = ('thread scheduler', 'asynchronous exceptions')
    intkeys = ('n',)
    variants = 3
    DIGITS = 50000

    def gen(self, rng):
        ops = []
        base = rng.range(300, 2500) if rng.chance(0.12) else rng.range(1, 300)
        for i in range(rng.range(2, 9)):
            kind = rng.weighted([('some', 10), ('text', 1), ('over', 1)])
            if i == 0 and rng.chance(0.008):
                kind = 'all'
            op = {'k': kind, 't': float(rng.below(5)), 'c': 'c%d' % rng.below(3)}
            if kind == 'some':
                op['n'] = rng.weighted([(rng.range(1, 60), 4), (rng.range(1, 300), 3),
                                        (max(1, base + rng.range(-2, 2)), 2),
                                        (max(1, 50 * rng.range(0, 8) + rng.range(-2, 2)), 3),
                                        (rng.range(1, 3000), 0.05)])
            elif kind == 'over':
                op['n'] = self.DIGITS + rng.choice([1, 1, 2, 100, 10 ** 6])
            elif kind == 'all':
                op['n'] = rng.choice([0, 1, self.DIGITS - rng.below(3)])
            ops.append(op)
        long = rng.swept([4096, 9999, 5000, 12345, 8193, 10000, 16384, 7000, 20001, 6500, 25000, 32768, 3200, 40000,
                          11000, 49000], 20, 9)
        if long:
            ops.append({'k': 'all', 't': float(rng.below(5)), 'c': 'c0', 'n': long})
        ops.sort(key=lambda o: o['t'])
        return {'cfg': {}, 'ops': ops}

    def nvariants(self, plan):
        return 1 if any(o['k'] == 'all' for o in plan['ops']) else self.variants

    def do(self, k, op, job):
        m = self.m['pi']
        D = pi_digits()
        if op['k'] == 'text':
            s = m.pi_string
            ok = isinstance(s, str) and s[:2] == '3.' and len(s) == self.DIGITS + 2
            if not ok or s[2:] != D[1:self.DIGITS + 1]:
                bad = [i for i, (a, b) in enumerate(zip(s, D[0] + '.' + D[1:])) if a != b][:1]
                k.violate('wrong-digits', 'text', 'the text has %d characters, first wrong one: %s' % (len(s), bad))
            return
        if op['k'] == 'over':
            r = k.call(m.pi, op['n'])
            k.count('probe:too-many-digits')
            if r.ok:
                k.violate('too-many-digits', 'over', '%d digits were promised, %d are known' % (op['n'], self.DIGITS))
            return
        if op['k'] == 'all':
            n = op['n'] if op['n'] > 1 else self.DIGITS
            r = k.call(m.pi) if op['n'] == 0 else k.call(m.pi, None) if op['n'] == 1 else k.call(m.pi, n)
        else:
            n = max(1, op['n'])
            r = k.call(m.pi, n)
        if not self.must(k, r, 'pi', 'pi with %d digits' % n):
            return
        v = r.value
        try:
            a, b = v.numerator, v.denominator
        except AttributeError:
            k.violate('wrong-digits', 'type', 'pi with %d digits is %s' % (n, show(v)))
            return
        # accurate to n digits: the fraction of these digits
        if not b or a * 10 ** n != int(D[:n + 1]) * b:
            k.violate('wrong-digits', 'fraction', 'pi with %d digits is wrong' % n)
            return
        k.trace('pi', n)


# ---------------------------------------------------------------------------
def parity(x):
    return bin(x).count('1') & 1


def walsh(t):
    """the transform by the butterfly algorithm"""
    v = [1 - 2 * x for x in t]
    h = 1
    while h < len(v):
        for i in range(0, len(v), 2 * h):
            for j in range(i, i + h):
                v[j], v[j + h] = v[j] + v[j + h], v[j] - v[j + h]
        h *= 2
    return v


def nonlin(t):
    return len(t) // 2 - max(abs(x) for x in walsh(t)) / 2.0


def sbox_nonlin(s):
    l = [nonlin([parity(c & y) for y in s]) for c in range(1, len(s))]
    return min(l), max(l)


def orbits(p):
    left = set(range(len(p)))
    out = {}
    while left:
        i = min(left)
        c = [i]
        while p[c[-1]] != i:
            c.append(p[c[-1]])
        out[i] = c
        left -= set(c)
    return out


class C24(Scenario):
    """Threads analyse S-boxes and permutations, some of them shared, some
    rewritten by their owner between calls; callers scribble over the results
    they got."""
    prop = 'C24'
    modules = ('analysis.walshtransform', 'analysis.sbox_nonlinearity', 'analysis.sbox_analysis',
               'analysis.permutation')
    kinds = ('sw', 'intr')
    real = ('analysis/walshtransform.py', 'analysis/sbox_nonlinearity.py', 'analysis/sbox_analysis.py',
            'analysis/permutation.py')
    stub = ('thread scheduler', 'asynchronous exceptions')
    intkeys = ()
    budget = 6000000
    variants = 3

    def table(self, rng, how, m):
        if how == 'bits':
            z = rng.r.random()
            if z < 0.1:
                return [0] * (1 << m)
            if z < 0.2:
                return [1] * (1 << m)
            if z < 0.4:
                c = rng.below(1 << m)
                e = rng.below(2)
                t = [parity(c & x) ^ e for x in range(1 << m)]
                if rng.chance(0.5):
                    t[rng.below(len(t))] ^= 1
                return t
            return [rng.below(2) for _ in range(1 << m)]
        if how == 'sbox':
            if rng.chance(0.2):
                return [rng.below(1 << m) for _ in range(1 << m)]
            if rng.chance(0.2):
                c = rng.below(1 << m)
                return [x ^ c for x in range(1 << m)]
            return rng.shuffled(range(1 << m))
        n = rng.weighted([(rng.range(1, 9), 4), (rng.range(1, 40), 3), (1 << m, 2), (256, 0.3), (0, 0.2)])
        z = rng.r.random()
        if z < 0.15:
            return list(range(n))
        if z < 0.3:
            d = rng.below(n) if n else 0
            return [(i + d) % n for i in range(n)]
        if z < 0.4:
            return list(range(n))[::-1]
        return rng.shuffled(range(n))

    def gen(self, rng):
        tabs = []
        for i in range(rng.range(2, 4)):
            how = rng.choice(['bits', 'sbox', 'perm'])
            m = rng.weighted([(1, 1), (2, 3), (3, 4), (4, 2), (5, 0.2), (6, 0.03), (0, 0.3)]) if how != 'bits' else \
                rng.weighted([(rng.below(6), 6), (6, 0.6), (7, 0.2), (8, 0.05)])
            m = max(1, m) if how == 'sbox' else m
            t = {'how': how, 'v': self.table(rng, how, m), 'm': m, 'fixed': int(rng.chance(0.5)),
                 'tuple': int(rng.chance(0.3))}
            same = [x for x in tabs if x['how'] == how]
            if same and rng.chance(0.4):
                t['v'] = self.near(rng, how, same[-1]['v'])
            if t['fixed'] == 0:
                t['tuple'] = 0
            tabs.append(t)
        ops = []
        hot = [i for i, t in enumerate(tabs) if not t['fixed']] if rng.chance(0.3) else []
        hot = rng.choice(hot) if hot else None         # one table, again and again
        way = rng.below(2), rng.below(2)
        for i in range(rng.range(2, 10)):
            if hot is not None and rng.chance(0.85):
                op = {'k': rng.choice(['table', 'table', 'change']), 't': float(i), 'c': 'c0', 'x': hot,
                      'mod': way[0], 'fn': way[1]}
                if op['k'] == 'change':
                    op['v'] = self.near(rng, tabs[hot]['how'], tabs[hot]['v'])
                ops.append(op)
                continue
            kind = rng.weighted([('table', 10), ('change', 2), ('ip', 2), ('log', 1.5), ('badlog', 1), ('std', 0.3)])
            op = {'k': kind, 't': float(i // 2 + rng.below(3)), 'c': 'c%d' % rng.below(3), 'mod': rng.below(2),
                  'fn': rng.below(2)}
            if kind in ('table', 'change'):
                op['x'] = rng.below(len(tabs))
                if kind == 'change' and tabs[op['x']]['fixed']:
                    op['k'] = 'table'
                if op['k'] == 'change':
                    t = tabs[op['x']]
                    op['v'] = self.near(rng, t['how'], t['v'])
            elif kind == 'ip':
                n = rng.choice([3, 8, 8, 70])
                op['a'], op['b'] = rng.bits(n), rng.bits(n)
            elif kind == 'log':
                op['a'] = rng.choice([0, 1, 2, 3, 8, rng.below(64), 62, 63, 64, rng.below(300)])
            elif kind == 'badlog':
                op['a'] = rng.choice([0, 3, 5, 6, 7, 9, 255, 257, (1 << 40) + 1, 3 << rng.below(70), -4])
            ops.append(op)
        ops.sort(key=lambda o: o['t'])
        return {'cfg': {'tabs': tabs}, 'ops': ops}

    def near(self, rng, how, v):
        """another table of the same sort and size, close to v"""
        v = list(v)
        if len(v) < 2:
            return v
        if how == 'bits':
            v[rng.below(len(v))] ^= 1
        else:
            i, j = rng.below(len(v)), rng.below(len(v))
            v[i], v[j] = v[j], v[i]
        if rng.chance(0.2):
            v.reverse()
        return v

    def locks(self, op):
        if op['k'] in ('table', 'change') and not self.tabs[op['x']]['fixed']:
            return ('t%d' % op['x'],)
        return ()

    def execute(self, k, plan):
        self.tabs = plan['cfg']['tabs']
        return Scenario.execute(self, k, plan)

    def start(self, k, plan):
        self.objs = [tuple(t['v']) if t['tuple'] else list(t['v']) for t in self.tabs]
        self.now = [list(t['v']) for t in self.tabs]

    def scribble(self, v):
        if isinstance(v, list):
            for x in v:
                self.scribble(x)
            v.append(77)
            v[0] = -5
        elif isinstance(v, dict):
            for x in v.values():
                self.scribble(x)
            v[0] = v[99] = [1]

    def do(self, k, op, job):
        S, W = self.m['sbox_nonlinearity'], self.m['walshtransform']
        M = W if op['mod'] else S
        kind = op['k']
        if kind == 'change':
            x = op['x']
            self.objs[x][:] = op['v']
            self.now[x] = list(op['v'])
            k.count('op:table-rewritten')
            return
        if kind == 'ip':
            r = k.call(M.binaryInnerProduct, op['a'], op['b'])
            if self.must(k, r, 'ip', 'an inner product'):
                self.same(k, r.value, parity(op['a'] & op['b']), 'wrong-result', 'binaryInnerProduct',
                          'inner product of %d and %d' % (op['a'], op['b']))
            return
        if kind == 'log':
            r = k.call(M.log2n, 1 << op['a'])
            if self.must(k, r, 'log2n', 'log2n of 2**%d' % op['a']):
                self.same(k, r.value, op['a'], 'wrong-result', 'log2n', 'log2n of 2**%d' % op['a'])
            return
        if kind == 'badlog':
            r = k.call(M.log2n, op['a'])
            k.count('probe:malformed')
            if r.ok:
                k.violate('malformed-accepted', 'log2n', 'log2n(%d) is %s' % (op['a'], show(r.value)))
            return
        A = self.m['sbox_analysis']
        P = self.m['permutation']
        if kind == 'std':
            M = A if op['mod'] else P
            n = 'aes_sbbytes' if op['fn'] else 'sms4_sbbytes'
            return self.perm(k, op, getattr(M, n), list(getattr(M, n)))
        x = op['x']
        how = self.tabs[x]['how']
        t, w = self.objs[x], self.now[x]
        if how == 'perm':
            self.perm(k, op, t, w)
        elif how == 'sbox':
            r = k.call(S.sboxNonlinearity, t)
            if self.must(k, r, 'sboxNonlinearity', 'the nonlinearity of an S-box of %d' % len(w)):
                v = r.value
                ok = isinstance(v, (tuple, list)) and tuple(v) == sbox_nonlin(w)
                if not ok:
                    k.violate('wrong-result', 'sboxNonlinearity', 'S-box %s: got %s, expected %s'
                              % (w, show(v), show(sbox_nonlin(w))))
                k.trace('nl', show(v))
        elif op['fn']:
            r = k.call(M.walshTransform, t)
            if self.must(k, r, 'walsh', 'the transform of %d bits' % len(w)):
                if not isinstance(r.value, (list, tuple)) or list(r.value) != walsh(w):
                    k.violate('wrong-result', 'walshTransform', 'bits %s: got %s, expected %s'
                              % (w, show(r.value), show(walsh(w))))
                k.trace('walsh', show(r.value))
                self.scribble(r.value)
        else:
            r = k.call(M.nonLinearity, t)
            if self.must(k, r, 'nonLinearity', 'the nonlinearity of %d bits' % len(w)):
                v = r.value
                if not isinstance(v, (int, long, float)) or v != nonlin(w):
                    k.violate('wrong-result', 'nonLinearity', 'bits %s: got %s, expected %s' % (w, show(v), nonlin(w)))
                k.trace('nl', show(v))
        if list(t) != w:
            k.violate('argument-modified', how, 'a table was modified')

    def perm(self, k, op, t, w):
        M = self.m['sbox_analysis'] if op['mod'] else self.m['permutation'].permutation
        want = orbits(w)
        if op['fn']:
            r = k.call(M.map_orbits_of_permutation, t)
            if not self.must(k, r, 'map_orbits', 'the orbits of a permutation of %d' % len(w)):
                return
            v = r.value
            if not isinstance(v, dict) or dict((a, list(b)) for a, b in v.items()) != want:
                k.violate('wrong-result', 'map_orbits_of_permutation', 'permutation %s: got %s' % (w, show(v)))
                return
        else:
            r = k.call(M.orbit_start_and_length, t)
            if not self.must(k, r, 'orbits', 'the orbits of a permutation of %d' % len(w)):
                return
            v = r.value
            if not isinstance(v, (list, tuple)) or \
                    sorted(tuple(x) for x in v) != sorted((a, len(b)) for a, b in want.items()):
                k.violate('wrong-result', 'orbit_start_and_length', 'permutation %s: got %s' % (w, show(v)))
                return
        k.trace('orbits', len(want))
        self.scribble(v)
