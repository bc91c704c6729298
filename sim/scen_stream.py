"""C01-C03: ChaCha20 streams."""
from base import Scenario, hx, un, INTR
from kernel import show
import refs

MAXC = 1 << 32
# lengths past those where block numbers, buffers and length fields carry
LONG = [65600, 4097, 8191, 16400, 70001, 32769, 12345, 5000, 66048, 10001, 2049, 1 << 16, 20000, 16384, 1025]


def blocks(n):
    return (n + 63) // 64


def start_counter(rng, total):
    top = MAXC - total
    m = rng.r.random()
    if m < 0.3:
        return rng.below(3)
    if m < 0.45:
        return rng.below(300)
    if m < 0.6:
        return max(0, min(top, rng.choice([1 << 8, 1 << 16, 1 << 24, 1 << 31]) - rng.below(3)))
    if m < 0.75:
        return top - rng.below(2)
    return rng.below(top + 1)


def relate(rng, streams):
    """make some streams agree with another one in all but a small part"""
    for s in range(1, len(streams)):
        if not rng.chance(0.4):
            continue
        o = rng.choice(streams[:s])
        t = streams[s]
        room = MAXC - max(o.get('tot', 0), t.get('tot', 0))
        m = rng.below(4)
        t['key'] = hx(rng.kin(un(o['key']))) if m == 0 else o['key']
        t['nonce'] = hx(rng.kin(un(o['nonce']))) if m in (1, 2) else o['nonce']
        c = o['ctr'] if m < 3 else o['ctr'] + rng.choice([0, 1, -1, 256, 1 << 16, -1 << 31, 1 << 31])
        t['ctr'] = c if 0 <= c <= room else min(o['ctr'], room)


class C01(Scenario):
    """Senders own streams, receivers decrypt whatever arrives with streams of
    their own positioned at the block number carried in the packet; nodes crash
    and re-create their streams from (key, nonce, next block) on disk."""
    prop = 'C01'
    modules = ('cipher.chacha_poly',)
    kinds = ('sw', 'net', 'crash', 'clk')
    hexkeys = ('data',)
    real = ('cipher/chacha_poly.py',)
    stub = ('network', 'disk holding key/nonce/block', 'entropy source', 'clock', 'thread scheduler')

    def gen(self, rng):
        ns = rng.range(1, 3)
        streams = []
        shared_key = hx(rng.octets(32))
        shared_nonce = hx(rng.octets(12))
        for s in range(ns):
            streams.append({'key': shared_key if rng.chance(0.4) else hx(rng.octets(32)),
                            'nonce': shared_nonce if rng.chance(0.3) else hx(rng.octets(12))})
        ops = []
        nop = rng.range(2, 9)
        for i in range(nop):
            s = rng.below(ns)
            n = rng.length(200, 64) if rng.chance(0.9) else rng.range(200, 900)
            if i == 0:
                n = rng.swept(LONG, 48, 5) or (rng.big(64, 17000) if rng.chance(0.01) else n)
            k = rng.weighted([('enc', 6), ('dec', 3), ('reboot', 1)])
            ops.append({'k': k, 't': float(i + rng.below(3)), 'c': 's%d' % (s if rng.chance(0.7) else rng.below(ns)),
                        's': s, 'data': hx(rng.octets(n)) if k != 'reboot' else ''})
        ops.sort(key=lambda o: o['t'])
        for s in range(ns):
            tot = sum(blocks(len(o['data']) // 2) for o in ops if o['s'] == s) + 2
            streams[s]['ctr'] = start_counter(rng, tot)
            streams[s]['tot'] = tot
        relate(rng, streams)
        return {'cfg': {'streams': streams}, 'ops': ops}

    def sends(self, op):
        return op['k'] != 'reboot'

    def locks(self, op):
        return ('stream%d' % op['s'],)

    def start(self, k, plan):
        self.cfg = plan['cfg']['streams']
        self.obj = {}
        # durable state: the next block of each stream
        self.disk = [s['ctr'] for s in self.cfg]
        self.C = self.m['chacha_poly'].ChaCha

    def get(self, k, s):
        if s not in self.obj:
            c = self.cfg[s]
            key, nonce = un(c['key']), un(c['nonce'])
            if self.disk[s]:
                r = k.call(self.C, key, counter=self.disk[s], nonce=nonce)
            else:
                r = k.call(self.C, key, nonce=nonce)
            if not r.ok:
                self.must(k, r, 'create', 'creating a stream')
                return None
            self.obj[s] = r.value
        return self.obj[s]

    def do(self, k, op, job):
        s = op['s']
        if op['k'] == 'reboot':
            k.count('node:reboot')
            self.obj.pop(s, None)
            return
        o = self.get(k, s)
        if o is None:
            return
        data = un(op['data'])
        r = k.call(o.encrypt if op['k'] == 'enc' else o.decrypt, data)
        if job.crashed:
            self.obj.pop(s, None)          # memory is gone, the disk is not
            return
        if not self.must(k, r, op['k'], 'encryption'):
            return
        c = self.cfg[s]
        at = self.disk[s]
        want = refs.chacha(un(c['key']), un(c['nonce']), at, data)
        if not self.same(k, r.value, want, 'wrong-keystream', 'stream',
                         'stream %d, block %d, %d octets' % (s, at, len(data))):
            return
        k.trace('out', r.value.encode('hex'))
        self.disk[s] = at + blocks(len(data))
        k.send(op.get('net'), 'r%d' % (op['id'] % 2), 'rx-' + self.label(op), self.rx,
               (s, at, r.value, data))

    def rx(self, k_job, payload, fate):
        k = k_job.k
        s, at, ct, data = payload
        c = self.cfg[s]
        r = k.call(self.C, un(c['key']), counter=at, nonce=un(c['nonce']))
        if not self.must(k, r, 'create', 'creating a receiving stream'):
            return
        r = k.call(r.value.decrypt, ct)
        if not self.must(k, r, 'dec', 'decryption'):
            return
        self.same(k, r.value, data, 'wrong-plaintext', 'receiver',
                  'packet of stream %d at block %d' % (s, at))
        k.trace('rx', r.value.encode('hex'))


class C02(Scenario):
    """One long-lived stream per client thread, calls aborted at arbitrary
    statements or rejected, counters at the end of their range."""
    prop = 'C02'
    modules = ('cipher.chacha_poly',)
    kinds = ('sw', 'intr')
    hexkeys = ('data',)
    real = ('cipher/chacha_poly.py',)
    stub = ('entropy source', 'clock', 'thread scheduler', 'asynchronous exceptions')
    variants = 3

    def gen(self, rng):
        ns = rng.range(1, 2)
        streams = []
        for s in range(ns):
            m = rng.r.random()
            if m < 0.5:
                ctr = start_counter(rng, 40)
            else:
                ctr = MAXC - rng.below(8)
            streams.append({'key': hx(rng.octets(32)), 'nonce': hx(rng.octets(12)), 'ctr': ctr})
        relate(rng, streams)
        ops = []
        for i in range(rng.range(2, 8)):
            s = rng.below(ns)
            k = rng.weighted([('enc', 7), ('dec', 3), ('bad', 1.2)])
            n = rng.length(260, 64)
            if rng.chance(0.005):
                n = rng.big(64, 17000)
            op = {'k': k, 't': float(i), 'c': 's%d' % s, 's': s, 'data': hx(rng.octets(n))}
            if k == 'bad':
                op['bad'] = rng.choice(['none', 'int', 'intlist', 'mixed', 'wide'])
            ops.append(op)
        return {'cfg': {'streams': streams}, 'ops': ops}

    def start(self, k, plan):
        self.cfg = plan['cfg']['streams']
        self.obj = {}
        self.C = self.m['chacha_poly'].ChaCha
        self.pos = [(c['ctr'], c['ctr']) for c in self.cfg]   # possible next blocks

    def do(self, k, op, job):
        s = op['s']
        c = self.cfg[s]
        key, nonce = un(c['key']), un(c['nonce'])
        if s not in self.obj:
            r = k.call(self.C, key, counter=c['ctr'], nonce=nonce)
            if not r.ok:
                if c['ctr'] < MAXC:
                    self.must(k, r, 'create', 'creating a stream at block %d' % c['ctr'])
                return
            self.obj[s] = r.value
        o = self.obj[s]
        data = un(op['data'])
        arg = data
        if op['k'] == 'bad':
            b = op['bad']
            arg = {'none': None, 'int': 7, 'intlist': [1] * len(data),
                   'mixed': list(data[:-1]) + [None], 'wide': data[:70].decode('latin1') + u'\u1234'}[b]
            data = None
        nb = blocks(len(arg)) if hasattr(arg, '__len__') else 0
        lo, hi = self.pos[s]
        r = k.call(o.decrypt if op['k'] == 'dec' else o.encrypt, arg)
        if not r.ok:
            k.count('call:aborted' if r.injected else 'call:rejected')
            k.trace('fail', type(r.exc).__name__)
            if not r.injected and data is not None and hi + nb <= MAXC:
                k.violate('unexpected-failure', 'encrypt', 'encryption of %d octets at block %d..%d %s'
                          % (len(data), lo, hi, r.what()))
                return
            self.pos[s] = (lo, min(MAXC, hi + nb))
            return
        if data is None:
            # an odd argument was taken after all: output must be real keystream
            k.count('odd-argument-accepted')
            self.pos[s] = (lo, min(MAXC, hi + nb))
            return
        got = r.value
        if not isinstance(got, str) or len(got) != len(data):
            k.violate('wrong-keystream', 'length', 'result for %d octets is %s' % (len(data), show(got)))
            return
        if not data:
            return
        ks = refs.xor(got, data)
        fits = [p for p in range(lo, hi + 1)
                if p + nb <= MAXC and refs.chacha_stream(key, nonce, p, len(data)) == ks]
        if not fits:
            why = 'no keystream of this key and nonce'
            kind = 'foreign-keystream'
            if lo + nb > MAXC:
                why = 'output produced although the block counter is used up'
                kind = 'counter-overrun'
            else:
                for p in range(max(0, c['ctr'] - 2), lo):
                    if refs.chacha_stream(key, nonce, p, len(data)) == ks:
                        why = 'keystream from block %d used again' % p
                        kind = 'keystream-reuse'
            k.violate(kind, 'stream', 'call of %d octets, next block may be %d..%d: %s'
                      % (len(data), lo, hi, why))
            return
        if lo != hi:
            k.count('probe:resync-after-abort')
        if fits[-1] + nb == MAXC:
            k.count('probe:last-block-used')
        k.trace('out', got.encode('hex'))
        self.pos[s] = (fits[0] + nb, fits[-1] + nb)


class C03(Scenario):
    """Several threads create streams with and without a nonce while the entropy
    source misbehaves."""
    prop = 'C03'
    modules = ('cipher.chacha_poly',)
    kinds = ('sw', 'intr', 'ent', 'clk')
    real = ('cipher/chacha_poly.py',)
    stub = ('entropy source (os.urandom)', 'clock', 'thread scheduler')
    intkeys = ('klen', 'nlen')

    def gen(self, rng):
        ops = []
        nc = rng.range(1, 4)
        key0 = hx(rng.octets(32))
        for i in range(rng.range(2, 10)):
            k = rng.weighted([('new', 6), ('given', 3), ('badlen', 1.5), ('badkey', 0.7)])
            op = {'k': k, 't': float(rng.below(6)), 'c': 'c%d' % rng.below(nc),
                  'key': key0 if rng.chance(0.6) else hx(rng.octets(32)), 'ctr': rng.choice([0, 0, 1, 77])}
            if k == 'new':
                op['how'] = rng.choice(['omit', 'none', 'positional'])
            if k == 'given':
                op['nonce'] = hx(rng.octets(12))
            if k == 'badlen':
                op['nonce'] = hx(rng.octets(rng.choice([0, 0, 1, 4, 8, 11, 13, 16, 24])))
            if k == 'badkey':
                op['key'] = hx(rng.octets(rng.choice([0, 16, 31, 33, 64])))
                op['nonce'] = hx(rng.octets(12)) if rng.chance(0.5) else None
            ops.append(op)
        return {'cfg': {}, 'ops': ops}

    def entropy(self, rng, op):
        k = rng.weighted([('oserror', 2), ('notimpl', 1), ('short', 3), ('fill', 3)])
        if k == 'short':
            return [k, rng.below(12)]
        if k == 'fill':
            return [k, rng.choice([0, 0, 255, 10, 32])]
        return [k]

    def start(self, k, plan):
        self.C = self.m['chacha_poly'].ChaCha
        self.used = {}

    def do(self, k, op, job):
        key = un(op['key'])
        ctr = op['ctr']
        mark = len(k.ent_log)
        if op['k'] == 'new':
            if op['how'] == 'omit':
                r = k.call(self.C, key) if ctr == 0 else k.call(self.C, key, counter=ctr)
            elif op['how'] == 'none':
                r = k.call(self.C, key, counter=ctr, nonce=None)
            else:
                r = k.call(self.C, key, ctr, None)
        else:
            nonce = un(op['nonce']) if op['nonce'] is not None else None
            r = k.call(self.C, key, nonce=nonce) if ctr == 0 and op['id'] & 1 else \
                k.call(self.C, key, counter=ctr, nonce=nonce)
        draws = [d for d in k.ent_log[mark:] if d[0] == job.label]
        k.trace('draws', [d[1] for d in draws], r.ok)
        if op['k'] in ('badlen', 'badkey'):
            if r.ok:
                # accepted: then it must at least be what was given - it cannot be
                what = 'a nonce of %d octets' % len(un(op['nonce'])) if op['k'] == 'badlen' \
                    else 'a key of %d octets' % len(key)
                k.violate('bad-length-accepted', op['k'], '%s was accepted' % what)
            return
        if not r.ok:
            if op['k'] == 'new' and any(d[2] is None or len(d[2]) < d[1] for d in draws):
                k.count('probe:creation-refused-without-entropy')
                return
            self.must(k, r, 'create', 'creating a stream')
            return
        o = r.value
        r = k.call(o.encrypt, '\0' * 64)
        if not self.must(k, r, 'use', 'using a new stream'):
            return
        if op['k'] == 'given':
            want = refs.chacha_stream(key, un(op['nonce']), ctr, 64)
            self.same(k, r.value, want, 'nonce-not-verbatim', 'given',
                      'stream with nonce %s' % op['nonce'])
            return
        pool = ''.join(d[2] for d in draws if d[2] is not None)
        for i in range(0, len(pool) - 11):
            n = pool[i:i + 12]
            if refs.chacha_stream(key, n, ctr, 64) == r.value:
                k.trace('nonce', n.encode('hex'))
                return
        k.violate('nonce-not-fresh', 'draws:%s' % ('short' if pool else 'none'),
                  'stream created without a nonce does not use 12 octets drawn for it '
                  '(its draws gave %d octets: %s)' % (len(pool), show(pool)))
