"""Common parts of the scenarios: random generation, fault placement, shrinking."""
import random
from kernel import Violation, HarnessError, show


class Rng(object):
    i = None              # number of the workload, for those that sweep a list

    kinship = 0.2         # how often octets() returns a relative of an earlier string

    def __init__(self, seed):
        self.r = random.Random(seed)
        self.seen = []        # strings handed out so far

    def below(self, n):
        return self.r.randrange(n)

    def range(self, a, b):
        return self.r.randrange(a, b + 1)

    def chance(self, p):
        return self.r.random() < p

    def choice(self, xs):
        return xs[self.r.randrange(len(xs))]

    def weighted(self, pairs):
        t = sum(w for _, w in pairs)
        x = self.r.random() * t
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]

    def bits(self, n):
        return self.r.getrandbits(n) if n > 0 else 0

    def raw(self, n):
        if n == 0:
            return ''
        h = '%x' % self.r.getrandbits(8 * n)
        return ('0' * (2 * n - len(h)) + h).decode('hex')

    def octets(self, n):
        """n octets, sometimes degenerate, sometimes related to an earlier string"""
        if n and self.seen and self.chance(self.kinship):
            x = self.kin(self.choice(self.seen), n)
        else:
            x = self.fresh(n)
        if 0 < n <= 256 and len(self.seen) < 64:
            self.seen.append(x)
        return x

    def kin(self, x, n=None):
        """n octets that agree with x nearly everywhere, or are x"""
        n = len(x) if n is None else n
        if len(x) < n:
            x = x + self.raw(n - len(x)) if self.chance(0.5) else self.raw(n - len(x)) + x
        elif len(x) > n:
            x = x[:n] if self.chance(0.5) else x[len(x) - n:]
        if not n:
            return x
        b = bytearray(x)
        m = self.weighted([('same', 2), ('bit', 3), ('octet', 1), ('tail', 2), ('head', 2), ('up', 1), ('down', 1),
                           ('upl', 1), ('downl', 0.5), ('turn', 0.5), ('halves', 0.5), ('last', 1), ('first', 1)])
        w = min(n, self.choice([1, 2, 4, 4, 8, n // 2 or 1]))
        if m == 'bit':
            b[self.below(n)] ^= 1 << self.below(8)
        elif m == 'octet':
            b[self.below(n)] = self.below(256)
        elif m == 'last':
            b[-1] ^= self.range(1, 255)
        elif m == 'first':
            b[0] ^= self.range(1, 255)
        elif m == 'tail':
            b[n - w:] = bytearray(self.raw(w))
        elif m == 'head':
            b[:w] = bytearray(self.raw(w))
        elif m in ('up', 'down', 'upl', 'downl'):
            if m[-1] == 'l':
                b.reverse()
            v = int(str(b).encode('hex'), 16) + (1 if m[0] == 'u' else -1)
            h = '%0*x' % (2 * n, v % (1 << (8 * n)))
            b = bytearray(h.decode('hex'))
            if m[-1] == 'l':
                b.reverse()
        elif m == 'turn':
            b.reverse()
        elif m == 'halves':
            b = b[n // 2:] + b[:n // 2]
        return str(b)

    def resplit(self, a, b):
        """two strings whose concatenation is that of a and b"""
        s = a + b
        i = self.choice([len(a) - 1, len(a) + 1, len(a) + 4, len(a) - 4, 0, len(s), self.below(len(s) + 1)])
        i = max(0, min(len(s), i))
        return s[:i], s[i:]

    def fresh(self, n):
        m = self.r.random()
        if m < 0.72:
            return self.raw(n)
        if m < 0.78:
            return '\0' * n
        if m < 0.84:
            return '\xff' * n
        if m < 0.90:
            z = self.below(n + 1)
            return '\0' * z + self.raw(n - z)
        if m < 0.93:
            z = self.below(n + 1)
            return self.raw(n - z) + '\0' * z
        if m < 0.98 and n:
            # what careless text handling strips, decodes or stops at
            w = self.choice(['\n', '\n', ' ', '\0', '\r\n', '\t', '\r', '\x1a', '\x0b', '\x85', '\xa0', '=', ' \n'])
            x = self.raw(n) if self.chance(0.5) else ''.join(chr(self.range(32, 126)) for _ in range(n))
            at = self.choice([n - len(w), n - len(w), 0, n // 2])
            return (x[:max(0, at)] + w + x[max(0, at) + len(w):])[:n]
        return chr(self.below(256)) * n

    def length(self, top=200, block=16):
        m = self.r.random()
        if m < 0.15:
            return 0
        if m < 0.25:
            return 1
        if m < 0.65:
            v = block * self.below(top // block + 1) + self.choice([-1, 0, 1])
            return max(0, min(v, top))
        return self.below(top + 1)

    def big(self, block=16, top=70000):
        """a length around those where counters and length fields carry"""
        xs = [block * x for x in (127, 128, 255, 256, 257, 511, 512)] + [1 << x for x in (10, 11, 12, 13, 15, 16)]
        n = self.choice([x for x in xs if x <= top])
        return min(top, n + self.choice([-1, 0, 1, block, -block, 1 - block, self.below(block)]))

    def swept(self, xs, every, at=0):
        """the items of the list in turn, for every so-many-th workload"""
        if self.i is None or self.i % every != at:
            return None
        return xs[self.i // every % len(xs)]

    def like(self, op, ops, fields):
        """make op like an earlier one of its kind in all the fields but one"""
        old = [o for o in ops if o['k'] == op['k']]
        if not old:
            return
        o = old[-1] if self.chance(0.6) else self.choice(old)
        keep = self.choice(fields)
        for f in fields:
            if f != keep and f in o:
                op[f] = o[f]

    def shuffled(self, xs):
        xs = list(xs)
        self.r.shuffle(xs)
        return xs

    def subset(self, xs, p=0.5):
        return [x for x in xs if self.chance(p)]


def hx(s):
    return s.encode('hex')


def un(s):
    return s.decode('hex')


INTR = ['KeyboardInterrupt', 'MemoryError', 'SystemExit', 'RuntimeError']


class Scenario(object):
    prop = None
    modules = ()
    # fault kinds this scenario can take: sw intr crash dev ent net clk
    kinds = ('sw', 'intr', 'clk')
    hexkeys = ()
    intkeys = ()
    real = ()
    stub = ()
    variants = 2          # fault plans per workload
    budget = 1200000
    max_drop = 0.35

    # -- to be provided
    def gen(self, rng):
        raise NotImplementedError

    def do(self, k, op, job):
        raise NotImplementedError

    def start(self, k, plan):
        pass

    def finish(self, k, plan):
        pass

    def bulk(self, plan):
        """octets the calls of the plan are given"""
        return sum(len(o[h]) for o in plan['ops'] for h in self.hexkeys if isinstance(o.get(h), str)) // 2

    def nvariants(self, plan):
        return 1 if self.bulk(plan) > 5000 else self.variants

    def step_budget(self, plan):
        """statements one job may take before it counts as not ending"""
        return max(self.budget, 1000 * self.bulk(plan))

    def locks(self, op):
        return ()

    def sends(self, op):
        """does this op send its result over the network?"""
        return False

    # -- running one plan
    def label(self, op):
        return '%s#%d' % (op['k'], op['id'])

    def execute(self, k, plan):
        self.m = {}
        for name in self.modules:
            try:
                self.m[name.split('.')[-1]] = k.load(name)
            except (Exception, SystemExit) as e:
                raise Violation('import-error', name, 'importing %s raised %s: %s'
                                % (name, type(e).__name__, str(e)[:300]))
        self.start(k, plan)
        for op in plan['ops']:
            k.at(op['t'], op['c'], self.label(op),
                 (lambda job, op=op: self.do(k, op, job)), op.get('f'), self.locks(op))
        k.loop()
        self.finish(k, plan)

    # -- oracle helpers
    def expect(self, k, cond, kind, key, detail, *a):
        if not cond:
            k.violate(kind, key, detail % a if a else detail)
            return False
        return True

    def same(self, k, got, want, kind, key, what):
        """got must be the same value of the same sort as want"""
        if isinstance(want, str):
            ok = isinstance(got, str) and got == want
        elif isinstance(want, bool):
            ok = bool(got) == want and isinstance(got, (bool, int))
        elif isinstance(want, (int, long)):
            ok = isinstance(got, (int, long)) and got == want
        else:
            ok = type(got) == type(want) and got == want
        if not ok:
            k.violate(kind, key, '%s: got %s, expected %s' % (what, show(got), show(want)))
        return ok

    def must(self, k, r, key, what):
        """the call had no fault and must therefore succeed"""
        if r.ok:
            return True
        if r.injected:
            return False
        k.violate('unexpected-failure', key, '%s %s' % (what, r.what()))
        return False

    # -- fault placement
    def pick_step(self, rng, rec, total):
        n = len(rec)
        if total <= 0:
            return None
        m = rng.r.random()
        if n and m < 0.5:
            loc = rng.choice(sorted(set(rec)))
            idx = [i for i, l in enumerate(rec) if l == loc]
            e = rng.r.random()
            if e < 0.3:
                return idx[0] + 1
            if e < 0.6:
                return idx[-1] + 1
            return rng.choice(idx) + 1
        if m < 0.85:
            return rng.range(1, total)
        if m < 0.93:
            return max(1, total - rng.below(min(6, total)))
        return 1 + rng.below(min(8, total))

    def inject(self, rng, plan, base):
        """base: labels -> (recorded locations, steps, device calls, entropy calls)"""
        prof = self.profile(rng)
        for op in plan['ops']:
            lab = self.label(op)
            targets = [(lab, op, 'f')]
            if self.sends(op):
                op['net'] = self.fates(rng, prof)
                for i, fate in enumerate(op['net']):
                    targets.append(('rx-%s' % lab, fate, None))
            for label, holder, key in targets:
                b = base.get(label) or base.get(label + '.0')
                if b is None:
                    continue
                f = {} if key else holder
                self.place(rng, prof, f, b, op)
                if key and f:
                    holder[key] = f
        return plan

    def profile(self, rng):
        prof = {}
        for kd in self.kinds:
            prof[kd] = 0.0 if rng.chance(0.3) else rng.choice([0.1, 0.25, 0.5, 0.9])
        if not any(prof.values()):
            prof[rng.choice(list(self.kinds))] = 0.6
        return prof

    def fates(self, rng, prof):
        if not prof.get('net'):
            return [{}]
        if rng.chance(prof['net'] * self.max_drop):
            return []
        out = []
        n = 1
        while rng.chance(prof['net'] * 0.3) and n < 3:
            n += 1
        for i in range(n):
            f = {}
            if rng.chance(prof['net'] * 0.7):
                f['d'] = float(rng.choice([0.5, 1, 2, 3, 5, 8, 13, 40]))
            m = self.mutation(rng, prof)
            if m is not None:
                f['m'] = m
            out.append(f)
        return out

    def mutation(self, rng, prof):
        return None

    def place(self, rng, prof, f, b, op):
        rec, steps, dev, ent = b
        if rng.chance(prof.get('sw', 0)):
            n = rng.choice([1, 1, 1, 2, 3, 5])
            s = []
            for _ in range(n):
                at = self.pick_step(rng, rec, steps)
                if at:
                    s.append([at, rng.below(6)])
            if s:
                f['sw'] = sorted(s)
        if rng.chance(prof.get('intr', 0) * 0.6):
            at = self.pick_step(rng, rec, steps)
            if at:
                f['intr'] = [[at, rng.choice(INTR)]]
        if rng.chance(prof.get('crash', 0) * 0.4) and 'intr' not in f:
            at = self.pick_step(rng, rec, steps)
            if at:
                f['intr'] = [[at, 'crash']]
        if dev and rng.chance(prof.get('dev', 0) * 0.5):
            f['dev'] = [[rng.below(dev), rng.choice(['io-error', 'timeout'])]]
        if ent and rng.chance(prof.get('ent', 0)):
            f['ent'] = [[i] + self.entropy(rng, op) for i in range(ent) if rng.chance(0.8)]
        if rng.chance(prof.get('clk', 0) * 0.15):
            f['clk'] = float(rng.choice([-86400, -1, 1, 3600, 10 ** 9, -10 ** 9]))

    def entropy(self, rng, op):
        return [rng.choice(['oserror', 'notimpl'])]
