"""C09-C13: elliptic curves."""
import os
import json
from base import Scenario, hx, un
from kernel import show, Violation
from kernel import HERE
import refs

TOYS = json.load(open(os.path.join(HERE, 'toycurves.json')))
# the named curves, by size class (all of them are covered; the large ones
# less often).  Only names: parameters are read from the tree under test.
SMALL = ['SECP_192r1', 'SECP_224r1', 'SECP_256k1', 'SECP_256r1', 'WAPI', 'SWP256CCAO01', 'SWP256SM2',
         'GOST2001_test', 'GOST2001_CryptoPro_A', 'GOST2001_CryptoPro_B', 'GOST2001_CryptoPro_C', 'FRP256v1',
         'BrainPoolP160r1', 'BrainPoolP160t1', 'BrainPoolP192r1', 'BrainPoolP192t1', 'BrainPoolP224r1',
         'BrainPoolP224t1', 'BrainPoolP256r1', 'BrainPoolP256t1', 'NIST_P192', 'NIST_P224', 'NIST_P256']
LARGE = ['GOST2012_test', 'GOST2012_tc26_A', 'GOST2012_tc26_B', 'GOSTmsg05975sw', 'SECP_384r1', 'SECP_521r1',
         'BrainPoolP320r1', 'BrainPoolP320t1', 'BrainPoolP384r1', 'BrainPoolP384t1', 'BrainPoolP512r1',
         'BrainPoolP512t1', 'NIST_P384', 'NIST_P521']
EDW = ['Ed25519', 'E382', 'Curve3617', 'E521', 'GOSTmsg05975te']
MON = ['Curve25519', 'M383', 'M511']
FAMILY = dict([(n, 'sw') for n in SMALL + LARGE] + [(n, 'ed') for n in EDW] + [(n, 'mo') for n in MON])
CLASS = {'SmallWeierstrass': 'SmallWeierstrassCurveFp', 'Koblitz': 'KoblitzCurveFp',
         'Montgomery': 'MontgomeryCurveFp', 'Edwards': 'EdwardsCurveFp', 'TwistedEdwards': 'TwistedEdwardsCurveFp'}
SWTOYS = [i for i, t in enumerate(TOYS) if t['fam'] == 'sw']


NAMED = SMALL + EDW + MON + LARGE
CHECKED = {}


def sane(cv):
    """What is wrong with the parameters of a named curve, if anything: the
    generator must lie on a non-singular curve over a prime field and have the
    prime order n."""
    key = (cv.which, cv.p, cv.n, cv.G, cv.g.a, cv.g.bd)
    if key not in CHECKED:
        p, n, g = cv.p, cv.n, cv.g
        bad = None
        if p < 5 or pow(3, p - 1, p) != 1:
            bad = 'the modulus is not prime'
        elif n < 5 or pow(3, n - 1, n) != 1:
            bad = 'n is not prime'
        elif not g.on(cv.G):
            bad = 'the generator is not on the curve'
        elif g.mul(n, cv.G) != g.zero:
            bad = 'n is not the order of the generator'
        elif cv.fam == 'sw' and (4 * g.a ** 3 + 27 * g.bd ** 2) % p == 0:
            bad = 'the curve is singular'
        elif cv.fam == 'mo' and (g.a * g.a - 4) % p == 0:
            bad = 'the curve is singular'
        elif cv.fam == 'ed' and (g.a * g.bd * (g.a - g.bd)) % p == 0:
            bad = 'the curve is singular'
        CHECKED[key] = bad
    return CHECKED[key]


def pick_curve(rng, ptoy=0.75, fams=('sw', 'ed', 'mo')):
    if rng.chance(ptoy):
        idx = SWTOYS if fams == ('sw',) else range(len(TOYS))
        for _ in range(50):
            i = rng.choice(list(idx))
            if TOYS[i]['n'] >= 3:
                return i
    fam = rng.choice([f for f in ('sw', 'sw', 'ed', 'mo') if f in fams])
    if fam == 'sw':
        return rng.choice(SMALL) if rng.chance(0.75) else rng.choice(LARGE)
    if rng.chance(0.4):
        return 'Ed25519' if fam == 'ed' else 'Curve25519'
    return rng.choice(EDW if fam == 'ed' else MON)


def same_field(rng, w):
    """another curve over the field of the toy curve w, of the same shape (w itself if there is none)"""
    if not isinstance(w, int):
        return w
    c = [i for i, t in enumerate(TOYS) if i != w and t['p'] == TOYS[w]['p'] and t['fam'] == TOYS[w]['fam'] and t['n'] >= 3]
    return rng.choice(c) if c else w


class Cv(object):
    """a curve of the tree under test together with its reference group"""

    def __init__(self, scn, k, which):
        self.which = which
        ecc, curves = scn.m['ecc'], scn.m['curves']
        if isinstance(which, int):
            t = TOYS[which]
            d = {'p': t['p'], 'n': t['n'], 'h': t['h'], 'xG': t['G'][0], 'yG': t['G'][1],
                 'curveId': 'toy%d' % which, 'oid': None}
            if t['fam'] == 'sw':
                if t['cls'] != 'Koblitz':
                    d['a'] = t['a']
                d['b'] = t['b']
            elif t['fam'] == 'mo':
                d['a'] = t['a']
            else:
                if t['cls'] != 'Edwards':
                    d['a'] = t['a']
                d['d'] = t['b']
            self.cls = type('Toy%d' % which, (getattr(ecc, CLASS[t['cls']]),), d)
            self.fam = t['fam']
            self.extra = [tuple(x) for x in t['x']]
        else:
            self.cls = getattr(curves, which)
            self.fam = FAMILY[which]
            self.extra = []
        c = self.cls
        self.p, self.n = c.p, c.n
        if self.fam == 'sw':
            self.g = refs.Group('sw', c.p, c.a, c.b)
        elif self.fam == 'mo':
            self.g = refs.Group('mo', c.p, c.a)
        else:
            self.g = refs.Group('ed', c.p, c.a, c.d)
        self.G = (c.xG % c.p, c.yG % c.p)
        self.size = (c.p.bit_length() + 7) // 8
        if self.fam != 'sw' and which in EDW + MON:
            self.extra = [(0, c.p - 1)] if self.fam == 'ed' else [(0, 0)]

    def name(self):
        return self.which if isinstance(self.which, str) else 'toy curve %d (%s, p=%d)' % (
            self.which, self.fam, self.p)


def coords(c, cv, P):
    """reference value of a point object"""
    if cv.fam != 'ed' and P.x is None and P.y is None:
        return None
    return (P.x, P.y)


class Ecc(Scenario):
    modules = ('ecc.ecc', 'ecc.curves')
    real = ('ecc/ecc.py', 'ecc/ellipticcurve.py', 'ecc/curves.py', 'ecc/numbertheory.py')
    stub = ('network', 'entropy source', 'clock', 'disk with private keys', 'thread scheduler',
            'asynchronous exceptions')
    budget = 24000000
    orders_matter = False

    def start(self, k, plan):
        self.cvs = []
        self.inst = {}
        for w in plan['cfg']['curves']:
            try:
                self.cvs.append(Cv(self, k, w))
            except (AttributeError, TypeError) as e:
                raise Violation('unexpected-failure', 'curve', 'the curve %s has no usable parameters: %s' % (w, e))
            if not isinstance(w, int):
                bad = sane(self.cvs[-1])
                if bad and (self.orders_matter or not bad.startswith('n is')):
                    raise Violation('bad-curve', 'order' if bad.startswith('n is') else 'curve', '%s: %s' % (w, bad))

    def curve(self, k, i, who=None):
        """curve object: one per owner"""
        key = (i, who)
        if key not in self.inst:
            r = k.call(self.cvs[i].cls)
            if not self.must(k, r, 'curve', 'creating the curve ' + self.cvs[i].name()):
                return None
            self.inst.setdefault(key, r.value)
        return self.inst[key]

    def check_point(self, k, i, P, want, key, what):
        """P must be the group element `want` in canonical form"""
        cv = self.cvs[i]
        try:
            got = coords(None, cv, P)
        except AttributeError:
            k.violate('wrong-point', key, '%s on %s: got %s' % (what, cv.name(), show(P)))
            return False
        if got == want and (got is None or all(isinstance(v, (int, long)) for v in got)):
            return True
        if got is not None and None not in got and not cv.g.on(got):
            kind = 'point-off-curve'
        else:
            kind = 'wrong-point'
        k.violate(kind, key, '%s on %s: got %s, expected %s' % (what, cv.name(), show(got), show(want)))
        return False

    @staticmethod
    def scalar(rng, n):
        return rng.weighted([(1, 1), (2, 1), (n - 1, 1), (max(1, n // 2), 1), (1 + rng.below(max(1, n - 1)), 6)])


# --------------------------------------------------------------------------
class C09(Ecc):
    """parties on a ring: a public point travels round it, every party
    multiplies it with its private scalar; after as many hops as there are
    other parties the result is the shared secret.  Every party starts its
    point several times (retransmission); the last attempt is reliable."""
    prop = 'C09'
    orders_matter = True
    kinds = ('net', 'sw', 'intr', 'crash')
    variants = 2

    def gen(self, rng):
        w = pick_curve(rng, 0.91)
        if rng.i is not None and rng.i < len(NAMED):
            w = NAMED[rng.i]                       # every named curve once
        ws = [w]
        if rng.chance(0.45):
            # the same parties, with the same secrets, on further curves
            fam = (lambda v: TOYS[v]['fam'] if isinstance(v, int) else FAMILY[v])(w)
            for _ in range(rng.range(1, 2)):
                ws.append(pick_curve(rng, 1.0, (fam,) if fam == 'sw' or rng.chance(0.3) else ('sw', 'ed', 'mo')))
                if rng.chance(0.6):
                    ws[-1] = rng.choice([i for i, t in enumerate(TOYS) if t['fam'] == fam and t['n'] >= 3])
                if rng.chance(0.25):
                    ws[-1] = same_field(rng, w)
        m = rng.weighted([(2, 4), (3, 2)]) if isinstance(w, int) and len(ws) == 1 else 2
        tries = rng.range(1, 3) if isinstance(w, int) else 1 if w in LARGE + EDW[1:] + MON[1:] else rng.range(1, 2)
        ops = []
        for v in range(len(ws)):
            for i in range(m):
                for a in range(tries):
                    ops.append({'k': 'offer', 't': float((300 if a == tries - 1 else a * 6) + rng.below(3)), 'c': 'p%d' % i, 'i': i,
                                'v': v, 'last': a == tries - 1})
        ops.sort(key=lambda o: o['t'])
        cfg = {'curves': ws, 'm': m, 'priv': [rng.bits(640) if rng.chance(0.7) else rng.below(4) - 2 for _ in range(m)],
               'shared': rng.chance(0.6), 'ladder': rng.below(2), 'raw': rng.below(2)}
        if any((TOYS[w]['fam'] if isinstance(w, int) else FAMILY[w]) == 'mo' for w in ws):
            cfg['long'] = [rng.choice(['clamp', 'more', 'wide', 'small']), rng.bits(600)]
        return {'cfg': cfg, 'ops': ops}

    def sends(self, op):
        return True

    def nvariants(self, plan):
        return 2 if isinstance(plan['cfg']['curves'][0], int) else 1

    def inject(self, rng, plan, base):
        p = Scenario.inject(self, rng, plan, base)
        for op in p['ops']:
            if op['last']:                     # the network and the nodes have recovered
                op['net'] = [{}]
                f = op.get('f') or {}
                for kk in ('intr', 'ent', 'dev'):
                    f.pop(kk, None)
        return p

    def start(self, k, plan):
        Ecc.start(self, k, plan)
        cfg = plan['cfg']
        self.cfg = cfg
        self.disks = []                       # durable: the private scalars
        self.wants = []
        for cv in self.cvs:
            disk = [1 + (v % (cv.n - 1)) for v in cfg['priv'][:cfg['m']]]
            prod = 1
            for d in disk:
                prod = prod * d % cv.n
            self.disks.append(disk)
            self.wants.append(cv.g.mul(prod, cv.G))
        self.learned = set()                  # in whose memory a secret was, once the network had recovered
        self.mem = {}

    def node(self, k, v, i):
        """volatile state of party i: its curve and generator objects"""
        if (v, i) not in self.mem:
            who = None if self.cfg['shared'] else i
            c = self.curve(k, v, who)
            if c is None:
                return None
            r = k.call(c.generator)
            if not self.must(k, r, 'generator', 'the generator of ' + self.cvs[v].name()):
                return None
            self.mem[v, i] = (c, r.value)
        return self.mem[v, i]

    def crash(self, k, i):
        for v in range(len(self.cvs)):
            self.mem.pop((v, i), None)
            self.inst.pop((v, i), None)

    def do(self, k, op, job):
        i, v = op['i'], op['v']
        cv, disk = self.cvs[v], self.disks[v]
        nd = self.node(k, v, i)
        if nd is None:
            if job.crashed:
                self.crash(k, i)
            return
        c, G = nd
        r = k.call(lambda: disk[i] * G)
        if job.crashed:
            return self.crash(k, i)
        if not self.must(k, r, 'public', 'computing a public point on ' + cv.name()):
            return
        P = r.value
        want = cv.g.mul(disk[i], cv.G)
        if not self.check_point(k, v, P, want, 'public', 'public point of %d' % disk[i]):
            return
        self.ship(k, op, job, i, P, want, 1, self.label(op), op.get('net'))

    def ship(self, k, op, job, i, P, want, hops, label, net):
        cv = self.cvs[op['v']]
        r = k.call(P.encode, 'raw') if self.cfg['raw'] else k.call(P.encode)
        if job.crashed:
            return self.crash(k, i)
        if not self.must(k, r, 'encode', 'encoding a point of ' + cv.name()):
            return
        msg = refs.to_be(want[0], cv.size) + refs.to_be(want[1], cv.size)
        if not self.same(k, r.value, msg, 'wrong-encoding', 'raw', 'octets of a point on ' + cv.name()):
            return
        r = k.call(P.toOctets)
        if job.crashed:
            return self.crash(k, i)
        if r.ok and (not isinstance(r.value, str) or refs.be(r.value) != want[0]):
            k.violate('wrong-encoding', 'x', 'x coordinate %d encoded as %s' % (want[0], show(r.value)))
            return
        if not r.ok and not self.must(k, r, 'encode', 'encoding the x coordinate'):
            return
        k.trace('send', msg.encode('hex'))
        j = (i + 1) % self.cfg['m']
        k.send(net, 'p%d' % j, 'rx-' + label, self.rx, (op, j, msg, hops))

    def rx(self, job, payload, fate):
        k = job.k
        op, j, msg, hops = payload
        v = op['v']
        cv, disk = self.cvs[v], self.disks[v]
        nd = self.node(k, v, j)
        if nd is None:
            if job.crashed:
                self.crash(k, j)
            return
        c, _ = nd
        x, y = refs.be(msg[:cv.size]), refs.be(msg[cv.size:])
        r = k.call(c.point, x, y)
        if job.crashed:
            return self.crash(k, j)
        if not self.must(k, r, 'point', 'decoding a public point of ' + cv.name()):
            return
        P = r.value
        r = k.call(lambda: P * disk[j])
        if job.crashed:
            return self.crash(k, j)
        if not self.must(k, r, 'agree', 'multiplying a received point of ' + cv.name()):
            return
        Q = r.value
        want = cv.g.mul(disk[j], (x, y))
        if not self.check_point(k, v, Q, want, 'agree', 'product of %d and a received point' % disk[j]):
            return
        if cv.fam == 'mo' and hasattr(c, 'montgomery_ladder'):
            f = c.montgomery_ladder2 if self.cfg['ladder'] else c.montgomery_ladder
            if 'long' in self.cfg:
                # scalars as X25519 has them: above the order
                kind, rnd = self.cfg['long']
                e = cv.p.bit_length()
                s = {'clamp': 1 << e - 1 | rnd % (1 << e - 1) >> 3 << 3, 'more': disk[j] + cv.n * (1 + rnd % 9),
                     'wide': rnd % (1 << e + 16), 'small': 1 + rnd % 7}[kind]
                r = k.call(f, s, P)
                if job.crashed:
                    return self.crash(k, j)
                if not self.must(k, r, 'ladder', 'the Montgomery ladder on ' + cv.name()):
                    return
                X = cv.g.mul(s, (x, y))
                if X is not None and not self.same(k, r.value, X[0], 'wrong-ladder', 'ladder%d' % (self.cfg['ladder'] + 1),
                                                   'x coordinate from the ladder for %d on %s' % (s, cv.name())):
                    return
            r = k.call(f, disk[j], P)
            if job.crashed:
                return self.crash(k, j)
            if r.ok:
                if not self.same(k, r.value, want[0], 'wrong-ladder', 'ladder%d' % (self.cfg['ladder'] + 1),
                                 'x coordinate from the ladder for %d on %s' % (disk[j], cv.name())):
                    return
                k.count('probe:ladder')
            elif not self.must(k, r, 'ladder', 'the Montgomery ladder on ' + cv.name()):
                pass
        if hops < self.cfg['m'] - 1:
            self.ship(k, op, job, j, Q, want, hops + 1, '%s.h%d' % (self.label(op), hops), [{}])
            return
        if not self.check_point(k, v, Q, self.wants[v], 'secret', 'shared secret'):
            return
        if k.now >= 300.0:
            # (a crash after that, of a delivery that comes very late, is no lack of progress)
            self.learned.add((v, j))
        k.trace('secret', v, j)

    def finish(self, k, plan):
        m = self.cfg['m']
        missing = []
        for v in range(len(self.cvs)):
            if len(set(o['i'] for o in plan['ops'] if o['last'] and o['v'] == v)) == m:   # (else a minimised plan)
                missing += [(v, j) for j in range(m) if (v, j) not in self.learned]
        # (the last attempts, from 300 s on, are reliable)
        if missing:
            k.violate('no-progress', 'agreement', '(curve, party) %r have no shared secret after the network recovered'
                      % (missing,))


# --------------------------------------------------------------------------
class C10(Ecc):
    prop = 'C10'
    kinds = ('net', 'sw', 'intr')
    variants = 3
    max_drop = 0.1

    def gen(self, rng):
        ws = []
        w = pick_curve(rng, 0.8)
        if rng.i is not None and rng.i < len(NAMED):
            w = NAMED[rng.i]
        ws.append(w)
        if isinstance(w, int):
            t = TOYS[w]
            same = [i for i, u in enumerate(TOYS) if u['fam'] == t['fam'] and i != w and abs(u['p'] - t['p']) < 10]
            ws.append(rng.choice(same) if same and rng.chance(0.7) else pick_curve(rng, 1.0))
        elif rng.chance(0.3):
            ws.append(rng.choice([x for x in SMALL + EDW[:1] + MON[:1] if x != w]))
        ops = []
        hot = rng.chance(0.3)
        for n in range(rng.range(2, 8)):
            k = rng.weighted([('send', 6), ('raw', 4), ('arith', 3), ('mix', 2), ('ident', 2)])
            ci = rng.below(len(ws))
            if hot:
                # bad points while others make points that need no check
                k, ci = rng.weighted([('send', 2), ('raw', 5), ('arith', 2), ('ident', 4)]), 0
            op = {'k': k, 't': float(n // 4 if hot else n + rng.below(2)), 'c': 'c%d' % rng.below(3), 'cv': ci,
                  's': rng.bits(64), 'x': rng.below(5), 'w': rng.below(2) if rng.chance(0.5) else 0}
            if k == 'raw':
                op['how'] = rng.choice(['rand', 'x+1', 'y+1', 'swap', 'negx', 'negy', 'other', 'zero', 'half', 'good',
                                        'y0', 'order2'])
                op['r'] = [rng.bits(600), rng.bits(600)]
            elif k == 'arith':
                op['op'] = rng.choice(['add', 'sub', 'dbl', 'neg', 'mul'])
                op['m'] = rng.bits(20) if rng.chance(0.8) else 0
            elif k == 'ident':
                op['op'] = rng.choice(['call', 'kept', 'self', 'unchecked', 'str', 'gen', 'gen+', 'on'])
            elif k == 'mix':
                op['op'] = rng.choice(['add', 'sub', 'eq', 'radd'])
            ops.append(op)
        ops.sort(key=lambda o: o['t'])
        return {'cfg': {'curves': ws}, 'ops': ops}

    def sends(self, op):
        return op['k'] == 'send'

    def mutation(self, rng, prof):
        if not rng.chance(max(0.4, prof['net'])):
            return None
        return {'how': rng.weighted([('flip', 5), ('swap', 1), ('other', 1), ('mix', 2), ('zero', 1)]),
                'i': rng.below(1 << 16), 'y': rng.choice([1, 2, 4, 8, 16, 32, 64, 128, rng.range(1, 255)])}

    def start(self, k, plan):
        Ecc.start(self, k, plan)
        self.live = []                 # (curve index, object, coordinates)
        self.good = {}

    def a_point(self, ci, s, x):
        """some reference point of the curve"""
        cv = self.cvs[ci]
        if cv.extra and x == 0:
            return cv.extra[s % len(cv.extra)]
        key = (ci, s)
        if key not in self.good:
            self.good[key] = cv.g.mul(1 + s % (cv.n - 1), cv.G)
        return self.good[key]

    def build(self, k, ci, w, x, y, must=True):
        c = self.curve(k, ci, w)
        if c is None:
            return None
        r = k.call(c.point, x, y)
        if not r.ok:
            if must:
                self.must(k, r, 'point', 'building the point (%s,%s) of %s' % (x, y, self.cvs[ci].name()))
            return None
        self.live.append((ci, r.value, (x, y)))
        return r.value

    def judge(self, k, ci, w, x, y):
        """building a point from received coordinates"""
        cv = self.cvs[ci]
        c = self.curve(k, ci, w)
        if c is None:
            return
        whole = x is not None and y is not None
        valid = whole and cv.g.on((x, y))
        reduced = whole and 0 <= x < cv.p and 0 <= y < cv.p
        r = k.call(c.point, x, y)
        k.trace('judge', valid, r.ok)
        if valid and reduced:
            if not r.ok:
                self.must(k, r, 'point', 'building the point (%d,%d) of %s' % (x, y, cv.name()))
                return
            if (r.value.x, r.value.y) != (x, y):
                k.violate('wrong-point', 'point', 'point (%d,%d) has coordinates (%s,%s)' % (x, y, r.value.x, r.value.y))
                return
            self.live.append((ci, r.value, (x, y)))
            k.count('probe:accepted')
        elif not valid:
            if r.ok:
                k.violate('off-curve-accepted', cv.fam, 'the coordinates (%s,%s) are not on %s but were accepted'
                          % (x, y, cv.name()))
                return
            k.count('probe:refused')

    def do(self, k, op, job):
        ci = op['cv']
        if ci >= len(self.cvs):
            return
        cv = self.cvs[ci]
        P = self.a_point(ci, op['s'], op['x'])
        if op['k'] == 'send':
            msg = refs.to_be(P[0], cv.size) + refs.to_be(P[1], cv.size)
            k.send(op.get('net'), 'r%d' % (op['id'] % 2), 'rx-' + self.label(op), self.rx, (ci, op['w'], msg, op['s']))
            return
        if op['k'] == 'raw':
            x, y = P
            how = op['how']
            p = cv.p
            r0, r1 = op['r']
            x, y = {'rand': (r0 % p, r1 % p), 'x+1': ((x + 1) % p, y), 'y+1': (x, (y + 1) % p), 'swap': (y, x),
                    'negx': (-x % p, y), 'negy': (x, -y % p), 'zero': (0, 0), 'good': (x, y), 'y0': (x, 0),
                    'half': (x, None) if r0 & 1 else (None, y),
                    'order2': cv.extra[r0 % len(cv.extra)] if cv.extra else (x, y),
                    'other': self.a_point(len(self.cvs) - 1 - ci, op['s'], op['x'])}[how]
            self.judge(k, ci, op['w'], x, y)
            return
        c = self.curve(k, ci, op['w'])
        A = c and self.build(k, ci, op['w'], *P)
        if A is None:
            return
        if op['k'] == 'arith':
            Q = self.a_point(ci, op['s'] >> 7, (op['x'] + 1) % 5)
            B = self.build(k, ci, op['w'], *Q)
            if B is None:
                return
            o = op['op']
            m = op['m']
            f = {'add': lambda: A + B, 'sub': lambda: A - B, 'dbl': lambda: A.double(), 'neg': lambda: -A,
                 'mul': lambda: A * m}[o]
            g = cv.g
            want = {'add': lambda: g.add(P, Q), 'sub': lambda: g.add(P, g.neg(Q)), 'dbl': lambda: g.add(P, P),
                    'neg': lambda: g.neg(P), 'mul': lambda: g.mul(m, P)}[o]()
            r = k.call(f)
            if self.must(k, r, o, '%s on %s' % (o, cv.name())):
                if self.check_point(k, ci, r.value, want, o, o):
                    self.live.append((ci, r.value, want))
            return
        if op['k'] == 'ident':
            # points that are made without a check
            o = op['op']
            f = {'call': lambda: c.identity(), 'kept': lambda: c.IDENTITY, 'self': lambda: A - A,
                 'unchecked': lambda: c.point(P[0], P[1], False), 'str': lambda: str(A),
                 'gen': lambda: c.generator(), 'gen+': lambda: c.generator() + A,
                 'on': lambda: [bool(c.on_curve(x)) for x in (A, c.IDENTITY, c.generator(),
                                                              c.point(P[0], (P[1] + 1) % cv.p, False))]}[o]
            r = k.call(f)
            if not self.must(k, r, o, '%s on %s' % (o, cv.name())):
                return
            if o == 'on':
                want = [True, True, True, cv.g.on((P[0], (P[1] + 1) % cv.p))]
                if r.value != want:
                    k.violate('wrong-verdict', 'on_curve', 'on_curve for %s, the identity, the generator and %s of %s: '
                              'got %r, expected %r' % (show(P), show((P[0], P[1] + 1)), cv.name(), r.value, want))
                return
            if o == 'str':
                self.same(k, r.value, '(%d,%d)' % P if P != cv.g.zero else 'IDENTITY', 'wrong-text', 'str', 'text of a point')
                return
            want = {'unchecked': P, 'gen': cv.G, 'gen+': cv.g.add(cv.G, P)}.get(o, cv.g.zero)
            if self.check_point(k, ci, r.value, want, o, o):
                self.live.append((ci, r.value, want))
            return
        # mix: points of two curves
        cj = len(self.cvs) - 1 - ci
        if cj == ci:
            return
        B = self.build(k, cj, op['w'], *self.a_point(cj, op['s'] >> 5, op['x']))
        if B is None:
            return
        if op['op'] == 'eq':
            r = k.call(lambda: A == B)
            if r.ok and r.value:
                k.violate('curves-mixed', 'eq', 'points of %s and %s compare equal' % (cv.name(), self.cvs[cj].name()))
            return
        f = {'add': lambda: A + B, 'sub': lambda: A - B, 'radd': lambda: B + A}[op['op']]
        r = k.call(f)
        if r.ok:
            k.violate('curves-mixed', op['op'], 'a point of %s and one of %s were combined to %s'
                      % (cv.name(), self.cvs[cj].name(), show(str(r.value))))
            return
        k.count('probe:mix-refused')

    def rx(self, job, payload, fate):
        k = job.k
        ci, w, msg, s = payload
        cv = self.cvs[ci]
        m = fate.get('m')
        if m:
            k.count('net:corrupt')
            h = m['how']
            n = cv.size
            if h == 'flip':
                i = m['i'] % len(msg)
                msg = msg[:i] + chr(ord(msg[i]) ^ m['y']) + msg[i + 1:]
            elif h == 'swap':
                msg = msg[n:] + msg[:n]
            elif h == 'zero':
                msg = '\0' * n + msg[n:] if m['y'] & 1 else msg[:n] + '\0' * n
            elif h == 'mix':
                o = self.a_point(ci, m['i'], 1)
                msg = msg[:n] + refs.to_be(o[1], n)
            else:
                cj = len(self.cvs) - 1 - ci
                o = self.a_point(cj, s, 1)
                msg = refs.to_be(o[0], max(n, self.cvs[cj].size))[-n:] + refs.to_be(o[1], max(n, self.cvs[cj].size))[-n:]
        self.judge(k, ci, w, refs.be(msg[:cv.size]), refs.be(msg[cv.size:]))

    def finish(self, k, plan):
        for ci, P, want in self.live:
            if not self.check_point(k, ci, P, want, 'kept', 'a point built earlier'):
                return


# --------------------------------------------------------------------------
class C11(Ecc):
    """Replicas of a point; updates reach them in different orders."""
    prop = 'C11'
    kinds = ('net', 'sw', 'intr')
    variants = 2
    REPL = 2

    def sc(self, rng, fam, n, big):
        m = rng.r.random()
        if m < 0.15:
            v = rng.choice([0, 1, 2, 3])
        elif m < 0.35:
            v = n * rng.range(1, 3) + rng.choice([-1, 0, 1])
        elif m < 0.5 or not big:
            v = rng.below(3 * n + 2) if n < 1 << 24 else rng.bits(20)
        else:
            v = rng.bits(rng.choice([8, 40, n.bit_length(), n.bit_length() + 6]))
        if fam == 'sw' and rng.chance(0.3):
            v = -v
        return v

    def expr(self, rng, fam, n, np, depth, big):
        m = rng.r.random()
        if depth == 0 or m < 0.15:
            if rng.chance(0.12):
                return ['0']
            return ['P', rng.below(np)]
        s = lambda: self.expr(rng, fam, n, np, depth - 1, big)
        k = rng.weighted([('add', 5), ('sub', 3), ('neg', 2), ('dbl', 3), ('mul', 2 if big else 3), ('rmul', 1)])
        if k in ('add', 'sub'):
            a = s()
            r = rng.r.random()
            if r < 0.2:
                return [k, a, a]
            if r < 0.35:
                return [k, a, ['neg', a]]
            if r < 0.45:
                return ['i' + k, a, s()]
            return [k, a, s()]
        if k in ('mul', 'rmul'):
            if k == 'mul' and rng.chance(0.1):
                return ['imul', s(), self.sc(rng, fam, n, big)]
            return [k, self.sc(rng, fam, n, big), s()]
        return [k, s()]

    def gen(self, rng):
        w = pick_curve(rng, 0.85)
        if rng.i is not None and rng.i < len(NAMED):
            w = NAMED[rng.i]
        if isinstance(w, int):
            fam, n, np, big = TOYS[w]['fam'], TOYS[w]['n'], 3 + len(TOYS[w]['x']), False
        else:
            fam, np, big = FAMILY[w], 3, True
            n = (1 << 256) - 189         # only steers the choice of scalars
        ws = [w]
        if rng.chance(0.4):
            # expressions on another curve between those on this one
            same = [i for i, t in enumerate(TOYS) if t['fam'] == fam and i != w and t['n'] >= 3]
            ws.append(rng.choice(same) if rng.chance(0.75) else pick_curve(rng, 1.0))
        ops = []
        hot = rng.range(1, 2) if rng.chance(0.3) else 0       # all multiply the same point at once
        for i in range(rng.range(3 if hot else 2, 7 if not big else 4)):
            k = rng.weighted([('upd', 5), ('expr', 4)])
            op = {'k': k, 't': float(i + rng.below(3)), 'c': 'c%d' % rng.below(3)}
            if hot:
                op['t'] = 0.0
                op['e'] = [rng.choice(['mul', 'mul', 'rmul']), self.sc(rng, fam, n, big), ['P', 0 if hot == 1 else rng.below(2)]]
                op['sign'] = rng.below(2)
            elif len(ws) > 1 and rng.chance(0.5):
                t = TOYS[ws[1]]
                op.update({'k': 'expr', 'v': 1,
                           'e': self.expr(rng, t['fam'], t['n'], 3 + len(t['x']), rng.range(1, 3), False)})
            elif k == 'upd':
                op['sign'] = rng.below(2)
                op['e'] = self.expr(rng, fam, n, np, rng.range(0, 1 if big else 2), big)
            else:
                op['e'] = self.expr(rng, fam, n, np, rng.range(1, 2 if big else 3), big)
            ops.append(op)
        if rng.chance(0.08):
            # a whole small group
            what = rng.choice(['table', 'alike'])
            ws.append(rng.choice([i for i, t in enumerate(TOYS) if (5 <= t['n'] <= 130 if what == 'table'
                                                                    else t['n'] > 60)]))
            ops.append({'k': what, 't': float(rng.below(4)), 'c': 'c%d' % rng.below(3), 'v': len(ws) - 1,
                        's': rng.bits(30)})
        ops.sort(key=lambda o: o['t'])
        mult = [1 + rng.below(n - 1), 2]
        return {'cfg': {'curves': ws, 'mult': mult, 'start': rng.below(3)}, 'ops': ops}

    def sends(self, op):
        return op['k'] == 'upd'

    def fates(self, rng, prof):
        out = Scenario.fates(self, rng, prof)
        return out + [{'d': 60.0}]          # the sender repeats until it is through

    def start(self, k, plan):
        Ecc.start(self, k, plan)
        self.pts = []
        for cv in self.cvs:
            pts = [cv.G] + [cv.g.mul(m % cv.n, cv.G) for m in plan['cfg']['mult']] + cv.extra
            self.pts.append([P for P in pts if P is not None])
        self.cv = self.cvs[0]
        self.obj = {}
        pts = self.pts[0]
        self.want0 = [self.cv.g.zero, pts[1 % len(pts)], pts[-1]][plan['cfg']['start']]
        self.state = {}
        self.have = {}
        self.made = []
        self.bent = None

    def pt(self, k, v, i):
        i = i % len(self.pts[v])
        if (v, i) not in self.obj:
            c = self.curve(k, v)
            if c is None:
                return None
            r = k.call(c.point, *self.pts[v][i])
            if not self.must(k, r, 'point', 'building a point of ' + self.cvs[v].name()):
                return None
            self.obj.setdefault((v, i), r.value)
        return self.obj[v, i]

    def prepare(self, k, v, e):
        if e[0] == 'P':
            return self.pt(k, v, e[1]) is not None
        return all([self.prepare(k, v, x) for x in e[1:] if isinstance(x, list)])

    def run(self, c, v, e):
        o = e[0]
        if o == 'P':
            return self.obj[v, e[1] % len(self.pts[v])]
        if o == '0':
            return c.IDENTITY
        if o == 'add':
            return self.run(c, v, e[1]) + self.run(c, v, e[2])
        if o == 'sub':
            return self.run(c, v, e[1]) - self.run(c, v, e[2])
        if o in ('iadd', 'isub', 'imul'):
            # an augmented assignment gives the name a new value; the operand stays
            A = acc = self.run(c, v, e[1])
            x, y = A.x, A.y
            B = e[2] if o == 'imul' else self.run(c, v, e[2])
            if o == 'iadd':
                acc += B
            elif o == 'isub':
                acc -= B
            else:
                acc *= B
            if (A.x, A.y) != (x, y):
                self.bent = 'the operand (%s,%s) of %s became (%s,%s)' % (x, y, o, A.x, A.y)
            return acc
        if o == 'neg':
            return -self.run(c, v, e[1])
        if o == 'dbl':
            return self.run(c, v, e[1]).double()
        if o == 'mul':
            return e[1] * self.run(c, v, e[2])
        return self.run(c, v, e[2]) * e[1]

    def ref(self, v, e):
        g = self.cvs[v].g
        o = e[0]
        if o == 'P':
            return self.pts[v][e[1] % len(self.pts[v])]
        if o == '0':
            return g.zero
        if o in ('add', 'sub', 'iadd', 'isub'):
            b = self.ref(v, e[2])
            return g.add(self.ref(v, e[1]), b if o in ('add', 'iadd') else g.neg(b))
        if o == 'neg':
            return g.neg(self.ref(v, e[1]))
        if o == 'dbl':
            a = self.ref(v, e[1])
            return g.add(a, a)
        if o == 'imul':
            return g.mul(e[2], self.ref(v, e[1]))
        return g.mul(e[1], self.ref(v, e[2]))

    def attempt(self, k, f, key, what):
        """an aborted operation has no effect, so it is simply done again"""
        for _ in range(4):
            r = k.call(f)
            if r.ok or not r.injected:
                break
            k.count('probe:redone-after-abort')
        if self.must(k, r, key, what):
            return r
        return None

    def same_element(self, k, v, P, want, key, what):
        if not self.check_point(k, v, P, want, key, what):
            return False
        c = self.curve(k, v)
        r = self.attempt(k, (lambda: c.IDENTITY) if want is None else (lambda: c.point(*want)), 'point', 'a point')
        if r is None:
            return False
        Q = r.value
        r = self.attempt(k, lambda: (P == Q, Q == P, P != Q, str(P), str(Q), P == c.IDENTITY), 'compare',
                         'comparing points')
        if r is None:
            return False
        a, b, ne, s, t, z = r.value
        if not a or not b or ne:
            k.violate('unequal', key, '%s: two equal elements %s and %s compare unequal' % (what, s, t))
            return False
        if s != t:
            k.violate('text-differs', key, '%s: equal elements have texts %s and %s' % (what, s, t))
            return False
        zero = want == self.cvs[v].g.zero
        if bool(z) != zero:
            k.violate('identity', key, '%s: %s == IDENTITY is %s' % (what, s, z))
            return False
        if not zero and s != '(%d,%d)' % want:
            k.violate('wrong-text', key, '%s: the text of %s is %s' % (what, show(want), s))
            return False
        # other elements are unequal to it
        for w, O in sorted(self.obj.items()):
            if w[0] == v and self.pts[v][w[1]] != want:
                r = self.attempt(k, lambda: (P == O, O == P, str(O)), 'compare', 'comparing points')
                if r is None:
                    return False
                if r.value[0] or r.value[1] or r.value[2] == s:
                    k.violate('equal', key, '%s: different elements %s and %s compare equal' % (what, s, r.value[2]))
                    return False
                break
        return True

    def table(self, k, op):
        """every element of a small group against every other one"""
        v = op['v']
        cv = self.cvs[v]
        c = self.curve(k, v)
        if c is None:
            return
        want = [cv.g.zero]
        for _ in range(cv.n - 1):
            want.append(cv.g.add(want[-1], cv.G))
        if cv.extra and op['s'] & 1:
            more = [cv.g.add(P, cv.extra[0]) for P in want]
            want += [P for P in more if P not in want]
        want = want[:130]
        what = 'the elements of ' + cv.name()

        def build():
            return [c.IDENTITY if P is None else c.point(*P) for P in want]
        r = self.attempt(k, build, 'point', what)
        if r is None:
            return
        els = r.value

        def compare():
            for i, A in enumerate(els):
                for j, B in enumerate(els):
                    if (A == B) != (i == j):
                        return i, j
        r = self.attempt(k, compare, 'compare', what)
        if r is None:
            return
        if r.value is not None:
            i, j = r.value
            k.violate('equal' if i != j else 'unequal', 'table', 'on %s, %s == %s is %s'
                      % (cv.name(), show(want[i]), show(want[j]), i != j))
            return
        r = self.attempt(k, lambda: [str(A) for A in els], 'compare', what)
        if r is None:
            return
        if len(set(r.value)) != len(want):
            k.violate('text-differs', 'table', 'two elements of %s have the same text' % cv.name())
            return
        x = op['s']
        pairs = []
        for _ in range(60):
            x = (x * 1103515245 + 12345) & 0x7fffffff
            pairs.append(((x >> 8) % len(want), (x >> 16) % len(want)))
        r = self.attempt(k, lambda: [(els[i] + els[j], els[i] - els[j]) for i, j in pairs], 'table', 'sums on ' + cv.name())
        if r is None:
            return
        for (i, j), (S, D) in zip(pairs, r.value):
            w = cv.g.add(want[i], want[j]), cv.g.add(want[i], cv.g.neg(want[j]))
            what = '%s and %s' % (show(want[i]), show(want[j]))
            if not self.check_point(k, v, S, w[0], 'table', 'the sum of ' + what) or \
                    not self.check_point(k, v, D, w[1], 'table', 'the difference of ' + what):
                return
        k.count('probe:whole-group')

    def alike(self, k, op):
        """elements that have something in common are still different"""
        v = op['v']
        cv = self.cvs[v]
        c = self.curve(k, v)
        if c is None:
            return
        P, groups = cv.G, {}
        seen = set([P])
        while P is not None and len(seen) < 1200:
            x, y = P
            for key in (('x', x), ('y', y), ('+', x + y), ('-', abs(x - y)), ('^', x ^ y), ('dec', '%d%d' % P),
                        ('hex', '%x%x' % P), ('set', min(P), max(P)), ('low', x & 255, y & 255), ('*', x * y)):
                groups.setdefault(key, []).append(P)
            P = cv.g.add(P, cv.G)
            if P in seen:
                break
            seen.add(P)
        pairs = []
        for kind in ('x', 'y', '+', '-', '^', 'dec', 'hex', 'set', 'low', '*'):
            some = sorted(ps[:2] for key, ps in groups.items() if key[0] == kind and len(ps) > 1)
            step = max(1, len(some) // 15)
            pairs += some[op['s'] % step::step]
        r = self.attempt(k, lambda: [(c.point(*A) == c.point(*B), str(c.point(*A)) == str(c.point(*B))) for A, B in pairs],
                         'compare', 'points of ' + cv.name())
        if r is None:
            return
        for (A, B), (eq, text) in zip(pairs, r.value):
            if eq or text:
                k.violate('equal', 'alike', 'on %s, %s and %s %s' % (cv.name(), show(A), show(B),
                                                                     'compare equal' if eq else 'have the same text'))
                return
        k.count('probe:alike', len(pairs))

    def do(self, k, op, job):
        if op['k'] in ('table', 'alike'):
            return getattr(self, op['k'])(k, op)
        v = op.get('v', 0)
        c = self.curve(k, v)
        if c is None or not self.prepare(k, v, op['e']):
            return
        e = op['e']
        r = self.attempt(k, lambda: self.run(c, v, e), 'expr', 'evaluating %s on %s' % (json.dumps(e), self.cvs[v].name()))
        if r is None:
            return
        want = self.ref(v, e)
        what = json.dumps(e)
        if self.bent:
            k.violate('operand-changed', 'inplace', '%s on %s: %s' % (what, self.cvs[v].name(), self.bent))
            return
        if not self.same_element(k, v, r.value, want, 'expr', what):
            return
        k.trace('val', want)
        self.made.append((v, r.value, want, what))
        if op['k'] == 'upd':
            for rep in range(self.REPL):
                net = op.get('net')
                if rep and net:
                    net = net[::-1]
                k.send(net, 'rep%d' % rep, 'rx-%s' % self.label(op) if rep == 0 else 'ry-%s' % self.label(op),
                       self.rx, (rep, op['id'], r.value, want, op['sign']))

    def rx(self, job, payload, fate):
        k = job.k
        rep, uid, term, want, sign = payload
        have = self.have.setdefault(rep, {})
        if uid in have:
            return
        c = self.curve(k, 0)
        if c is None:
            return
        if rep not in self.state:
            r = self.attempt(k, (lambda: c.IDENTITY) if self.want0 is None else (lambda: c.point(*self.want0)),
                             'point', 'the starting point')
            if r is None:
                return
            self.state[rep] = r.value
        cur = self.state[rep]
        r = self.attempt(k, (lambda: cur - term) if sign else (lambda: term + cur), 'update', 'an update')
        if r is None:
            return
        have[uid] = (self.cv.g.neg(want) if sign else want)
        self.state[rep] = r.value
        total = self.want0
        for v in have.values():
            total = self.cv.g.add(total, v)
        self.same_element(k, 0, r.value, total, 'replica', 'replica %d after %d updates' % (rep, len(have)))

    def finish(self, k, plan):
        for (v, i), P in sorted(self.obj.items()):
            self.check_point(k, v, P, self.pts[v][i], 'operand', 'a shared operand afterwards')
        for v, P, want, what in self.made:
            self.check_point(k, v, P, want, 'operand', 'the value of %s afterwards' % what)
        sets = [set(self.have.get(r, {})) for r in range(self.REPL)]
        if sets[0] != sets[1] and not any(o.get('net') == [] for o in plan['ops']):
            # an update may have been given up after repeated aborts only
            k.count('probe:replica-behind')
        elif len(self.state) == 2:
            a, b = self.state[0], self.state[1]
            if not (a == b) or str(a) != str(b):
                k.violate('replicas-differ', 'replica', 'replicas with the same updates hold %s and %s' % (a, b))


# --------------------------------------------------------------------------
class C12(Ecc):
    prop = 'C12'
    orders_matter = True
    kinds = ('ent', 'sw', 'intr', 'clk')
    variants = 3
    stub = ('entropy source (os.urandom)', 'clock', 'thread scheduler', 'asynchronous exceptions')

    def gen(self, rng):
        nw = rng.range(1, 2)
        ws = []
        while len(ws) < nw:
            w = pick_curve(rng, 0.45, ('sw',))
            if not ws and rng.i is not None and rng.i < len(SMALL + LARGE):
                w = (SMALL + LARGE)[rng.i]
            ws.append(w)
        ops = []
        for i in range(rng.range(2, 9)):
            ops.append({'k': 'gen', 't': float(rng.below(5)), 'c': 'c%d' % rng.below(4), 'cv': rng.below(nw),
                        'pub': rng.chance(0.03)})
        if rng.chance(0.06):
            # many generations on a tiny curve: every key must occur
            tiny = [i for i in SWTOYS if 5 <= TOYS[i]['n'] <= 13]
            ws.append(rng.choice(tiny))
            ops.append({'k': 'many', 't': 9.0, 'c': 'c0', 'cv': len(ws) - 1, 'pub': False, 'm': 300})
        elif rng.chance(0.05):
            ws.append(rng.choice(SMALL + LARGE))
            ops.append({'k': 'many', 't': 9.0, 'c': 'c0', 'cv': len(ws) - 1, 'pub': False, 'm': 70})
        ops.sort(key=lambda o: o['t'])
        return {'cfg': {'curves': ws}, 'ops': ops}

    def entropy(self, rng, op):
        w = self.plan_curves[op['cv']]
        k = rng.weighted([('oserror', 2), ('notimpl', 1), ('fill', 3), ('low', 3), ('hex', 4)])
        if k == 'fill':
            return [k, rng.choice([0, 255, 0, 255, 128, 1])]
        if k == 'low':
            return [k, rng.below(4)]
        if k == 'hex':
            if isinstance(w, int):
                n = TOYS[w]['n']
            else:
                n = self.orders.get(w, 1 << 256)
            v = n * rng.choice([1, 1, 1, 2, 3]) + rng.choice([-2, -1, 0, 1])
            if rng.chance(0.2):
                v = (n - 1) * ((1 << 64) // 3) + rng.choice([-1, 0, 1])
            return [k, hx(refs.min_be(max(0, v)))]
        return [k]

    def inject(self, rng, plan, base):
        self.plan_curves = plan['cfg']['curves']
        return Scenario.inject(self, rng, plan, base)

    orders = json.load(open(os.path.join(HERE, 'orders.json')))

    def start(self, k, plan):
        Ecc.start(self, k, plan)
        self.keys = {}
        self.seen = {}

    def one(self, k, op, job, faulty=True):
        cv = self.cvs[op['cv']]
        c = self.curve(k, op['cv'])
        if c is None:
            return None
        mark = len(k.ent_log)
        before = job.fired
        r = k.call(c.new_private_key)
        draws = [d for d in k.ent_log[mark:] if d[0] == job.label]
        if not r.ok:
            self.must(k, r, 'generate', 'generating a key on ' + cv.name())
            return None
        if any(d[2] is None for d in draws) and job.fired > before:
            k.violate('key-without-entropy', 'source-failed', 'a key was returned although the entropy source failed '
                      'during its generation')
            return None
        v = r.value
        if isinstance(v, bool) or not isinstance(v, (int, long)):
            k.violate('key-range', 'type', 'private key is %s' % show(v))
            return None
        if not 1 <= v < cv.n:
            k.violate('key-range', 'range', 'private key %d is not in 1..%d (%s)' % (v, cv.n - 1, cv.name()))
            return None
        bits = sum(8 * len(d[2]) for d in draws if d[2] is not None)
        if bits < (cv.n - 1).bit_length():
            k.violate('too-little-entropy', 'draw', 'a key for an order of %d bits was made of %d random bits'
                      % (cv.n.bit_length(), bits))
            return None
        k.trace('key', v)
        # same octets from the source may give the same key, different ones may not
        blob = ''.join(d[2] for d in draws if d[2] is not None)
        if cv.n.bit_length() > 100:
            o = self.seen.get((op['cv'], v))
            if o is not None and o != blob and len(blob) == len(o):
                k.count('probe:same-key-other-entropy')
                if refs.be(o) % (cv.n - 1) != refs.be(blob) % (cv.n - 1) and faulty is False:
                    k.violate('key-not-fresh', 'repeat', 'two generations with different entropy gave the key %d' % v)
                    return None
            self.seen[(op['cv'], v)] = blob
        return v

    def do(self, k, op, job):
        cv = self.cvs[op['cv']]
        if op['k'] == 'many':
            vals = []
            for _ in range(op['m']):
                v = self.one(k, op, job, faulty=bool(op.get('f')))
                if v is not None:
                    vals.append(v)
            if len(vals) < op['m'] - 3:
                return
            k.count('probe:distribution')
            if cv.n < 20:
                miss = [v for v in range(1, cv.n) if v not in vals]
                if miss:
                    k.violate('key-distribution', 'tiny', 'in %d generations the keys %r never occurred (order %d)'
                              % (len(vals), miss, cv.n))
            else:
                for lo, hi in ((0, 1), (1, 2), (2, 3), (3, 4)):
                    if not any(cv.n * lo // 4 <= v < cv.n * hi // 4 for v in vals):
                        k.violate('key-distribution', 'quarter', 'in %d generations no key fell into quarter %d of the '
                                  'range (%s)' % (len(vals), hi, cv.name()))
                        return
                if len(set(vals)) != len(vals):
                    k.violate('key-not-fresh', 'repeat', 'a key occurred twice in %d generations' % len(vals))
                    return
                for b in (0, 1, 2):
                    s = set((v >> b) & 1 for v in vals)
                    if len(s) != 2:
                        k.violate('key-distribution', 'low-bits', 'bit %d of %d keys is constant' % (b, len(vals)))
                        return
            return
        v = self.one(k, op, job)
        if v is None:
            return
        if not op.get('f') or not op['f'].get('ent'):
            ks = self.keys.setdefault(op['cv'], {})
            if v in ks and cv.n.bit_length() > 100:
                k.violate('key-not-fresh', 'repeat', 'two generations gave the same key on ' + cv.name())
                return
            ks[v] = 1
        if isinstance(cv.which, int) or op['pub']:
            c = self.curve(k, op['cv'])
            r = k.call(lambda: v * c.generator())
            if self.must(k, r, 'public', 'the public point of a key'):
                r2 = k.call(lambda: r.value == c.IDENTITY)
                if r2.ok and r2.value:
                    k.violate('identity-key', 'public', 'the public point of the key %d is the identity' % v)


# --------------------------------------------------------------------------
class C13(Ecc):
    prop = 'C13'
    kinds = ('net', 'sw', 'intr')
    variants = 3
    max_drop = 0.1

    def gen(self, rng):
        ws = []
        for _ in range(rng.range(1, 2)):
            if rng.chance(0.55):
                # spread over residue classes of p modulo 8
                cl = rng.choice([1, 1, 3, 5, 5, 7])
                ws.append(rng.choice([i for i in SWTOYS if TOYS[i]['p'] % 8 == cl and TOYS[i]['n'] >= 3]))
            else:
                ws.append(rng.choice(['SECP_224r1', 'GOST2001_test', 'GOST2001_CryptoPro_B', 'SWP256CCAO01'])
                          if rng.chance(0.3) else
                          (rng.choice(SMALL) if rng.chance(0.8) else rng.choice(LARGE)))
        if rng.i is not None and rng.i < len(SMALL + LARGE):
            ws[0] = (SMALL + LARGE)[rng.i]
        if rng.chance(0.4):
            ws = [ws[0], same_field(rng, ws[0])]
        ops = []
        for n in range(rng.range(2, 7)):
            op = {'k': 'send', 't': float(n), 'c': 's%d' % rng.below(2), 'cv': rng.below(len(ws)),
                  's': rng.bits(rng.choice([4, 16, 64])), 'x': rng.below(4), 'r': rng.below(3),
                  'inst': rng.below(2)}
            if ops and rng.chance(0.25):
                op['s'], op['x'] = ops[-1]['s'], ops[-1]['x']
                if rng.chance(0.7):
                    # the coordinate of a point of one curve, looked for on another
                    op['cv'], op['on'] = ops[-1]['cv'], rng.below(len(ws))
            ops.append(op)
        return {'cfg': {'curves': ws}, 'ops': ops}

    def sends(self, op):
        return True

    def mutation(self, rng, prof):
        if not rng.chance(max(0.4, prof['net'])):
            return None
        return {'how': rng.weighted([('flip', 5), ('rand', 2), ('zero', 1), ('inc', 2)]),
                'i': rng.below(1 << 16), 'v': rng.bits(600)}

    def do(self, k, op, job):
        ci = op['cv']
        if ci >= len(self.cvs):
            return
        cv = self.cvs[ci]
        if cv.extra and op['x'] == 0:
            P = cv.extra[op['s'] % len(cv.extra)]
        else:
            P = cv.g.mul(1 + op['s'] % (cv.n - 1), cv.G)
        on = op.get('on', ci)
        k.send(op.get('net'), 'r%d' % op['r'], 'rx-' + self.label(op), self.rx,
               (on if on < len(self.cvs) else ci, P, op['inst'], on != ci))

    def rx(self, job, payload, fate):
        k = job.k
        ci, P, inst, m = payload
        cv = self.cvs[ci]
        p = cv.p
        x, y = P[0] % p, P[1]
        par = y & 1
        if fate.get('m'):
            m = fate['m']
            k.count('net:corrupt')
            x = {'flip': x ^ (1 << (m['i'] % p.bit_length())), 'rand': m['v'], 'zero': 0, 'inc': x + 1}[m['how']] % p
        c = self.curve(k, ci)
        if c is None:
            return
        f = c.y_from_x if inst else cv.cls.y_from_x
        rhs = (x * x * x + cv.g.a * x + cv.g.bd) % p
        square = rhs == 0 or pow(rhs, (p - 1) // 2, p) == 1
        r = k.call(f, x)
        what = 'x = %d on %s (p %% 8 = %d)' % (x, cv.name(), p % 8)
        if not r.ok:
            if square:
                self.must(k, r, 'y_from_x', 'recovering y for ' + what)
            else:
                k.count('probe:refused')
            return
        v = r.value
        good = isinstance(v, (int, long)) and 0 <= v < p and (v * v - rhs) % p == 0
        if not square:
            # refusing when the point is built is as good
            r2 = k.call(c.point, x, v)
            if r2.ok:
                k.violate('off-curve-accepted', 'recovered', what + ' is no x coordinate, but a point came out')
            elif not r2.injected:
                k.violate('bogus-y', 'y_from_x', what + ' is no x coordinate; instead of an error the result is %s'
                          % show(v))
            return
        if not good:
            k.violate('wrong-root', 'y_from_x', '%s: y = %s does not satisfy the equation' % (what, show(v)))
            return
        k.trace('y', min(v, p - v))
        if v & 1 != par and v:
            v = p - v
        r = k.call(c.point, x, v)
        if not self.must(k, r, 'point', 'building the recovered point, ' + what):
            return
        if not m:
            self.check_point(k, ci, r.value, P, 'recovered', 'recovered point')
            k.count('probe:recovered')
