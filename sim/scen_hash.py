"""C16, C17: HMAC objects, PBKDF2, the 802.11 PRF and a four-way handshake."""
from base import Scenario, hx, un
from kernel import show
import refs

UNK = None


class C16(Scenario):
    """Every object belongs to one caller at a time; the callers interleave."""
    prop = 'C16'
    modules = ('hash.hmac',)
    kinds = ('sw', 'intr', 'crash')
    hexkeys = ('data', 'key')
    real = ('hash/hmac.py',)
    stub = ('hash functions of the old crypto package (on hashlib)', 'thread scheduler', 'asynchronous exceptions')
    budget = 1000000
    variants = 3

    def key(self, rng, keys):
        n = rng.weighted([(rng.below(64), 4), (64, 1.5), (65, 1.2), (63, 1), (rng.range(66, 200), 3), (0, 0.6),
                          (16, 1), (20, 1), (128, 0.7)])
        k = rng.octets(n)
        if keys and rng.chance(0.25):
            k = rng.choice(keys)
            k = k + '\0' * rng.below(4) if rng.chance(0.5) else k[:-1]
        return k

    def gen(self, rng):
        objs, keys = [], []
        for i in range(rng.range(1, 4)):
            keys.append(self.key(rng, keys))
            objs.append({'alg': rng.choice(['SHA1', 'MD5']), 'how': rng.choice(['ctor', 'ctor', 'set', 'kw', 'gen']),
                         'key': hx(keys[-1])})
        ops = []
        for i in range(rng.range(2, 16)):
            o = rng.below(len(objs))
            kind = rng.weighted([('update', 7), ('digest', 4), ('call', 3), ('reset', 2), ('setKey', 1.5),
                                 ('chunks', 2.5), ('unkeyed', 0.3)])
            op = {'k': kind, 'o': o, 't': float(i + rng.below(3)), 'c': 'o%d' % o if rng.chance(0.8) else 'x'}
            if kind in ('update', 'call', 'chunks'):
                op['data'] = hx(rng.octets(rng.length(150 if rng.chance(0.9) else 700, 64)))
                if rng.chance(0.004):
                    op['data'] = hx(rng.octets(rng.big(64, 70000)))
                if kind == 'call' and keys[o] and rng.chance(0.15):
                    # this key and data are those of another call, joined
                    p = [x for x in range(len(objs)) if keys[o].startswith(keys[x])]
                    op['o'] = x = rng.choice(p)
                    op['c'] = 'o%d' % x
                    op['data'] = hx(keys[o][len(keys[x]):] + un(op['data']))
            if kind == 'setKey':
                op['key'] = hx(self.key(rng, keys))
            if kind == 'chunks':
                op['cuts'] = [rng.bits(16) for _ in range(rng.below(6))]
                op['peek'] = rng.below(4)
            if kind == 'call':
                op['more'] = int(rng.chance(0.1))
            ops.append(op)
        ops.sort(key=lambda o: o['t'])
        return {'cfg': {'objs': objs}, 'ops': ops}

    def locks(self, op):
        return ('o%d' % op['o'],)

    def start(self, k, plan):
        self.cfg = plan['cfg']['objs']
        self.obj = {}
        self.keys = {}          # object -> key, or UNK after an interrupted key change
        self.data = {}          # object -> data since reset, or UNK after an interrupted call

    def cls(self, i):
        return getattr(self.m['hmac'], 'HMAC_' + self.cfg[i]['alg'])

    def get(self, k, i):
        if i in self.obj:
            return self.obj[i]
        how = self.cfg[i]['how']
        key = un(self.cfg[i]['key'])
        if how == 'ctor':
            r = k.call(self.cls(i), key)
        elif how == 'kw':
            r = k.call(self.cls(i), key=key)
        elif how == 'gen':
            r = k.call(self.m['hmac'].HMAC, getattr(self.m['hmac'], self.cfg[i]['alg']), key)
        else:
            r = k.call(self.cls(i))
        if not self.must(k, r, 'create', 'creating an HMAC object'):
            return None
        o = r.value
        if how == 'set':
            r = k.call(o.setKey, key)
            if not self.must(k, r, 'setKey', 'setting the first key'):
                return None
        self.obj[i] = o
        self.keys[i] = key
        self.data[i] = ''
        return o

    def do(self, k, op, job):
        i = op['o']
        if op['k'] == 'unkeyed':
            r = k.call(self.cls(i))
            if r.ok:
                for n, a in (('digest', ()), ('update', ('x',)), ('reset', ())):
                    r2 = k.call(getattr(r.value, n), *a)
                    if r2.ok:
                        k.violate('unkeyed-accepted', n, '%s worked without a key' % n)
            return
        o = self.get(k, i)
        if o is None:
            return
        getattr(self, 'op_' + op['k'])(k, op, i, o)
        if job.crashed:
            # power loss: the object is gone; the caller starts anew
            k.count('node:reboot')
            self.obj.pop(i, None)

    def done(self, k, i, r, what):
        if r.ok:
            return True
        self.data[i] = UNK
        return self.must(k, r, what, what)

    def check(self, k, i, got, what):
        key, data = self.keys[i], self.data[i]
        if key is UNK or data is UNK:
            k.count('probe:unknown-state')
            return
        k.trace(what, got if not isinstance(got, str) else got.encode('hex'))
        self.same(k, got, refs.hmac(self.cfg[i]['alg'].lower(), key, data), 'wrong-hmac', what,
                  '%s by %s, key of %d octets, %d octets of data' % (self.cfg[i]['alg'], what, len(key), len(data)))

    def op_update(self, k, op, i, o):
        d = un(op['data'])
        if self.done(k, i, k.call(o.update, d), 'update') and self.data[i] is not UNK:
            self.data[i] += d

    def op_digest(self, k, op, i, o):
        r = k.call(o.digest)
        if self.done(k, i, r, 'digest'):
            self.check(k, i, r.value, 'digest')

    def op_call(self, k, op, i, o):
        d = un(op['data'])
        if op.get('more') and self.data[i] is not UNK:
            r = k.call(o, d, 1)
            if self.done(k, i, r, 'call'):
                self.data[i] += d
                self.check(k, i, r.value, 'continued call')
            return
        r = k.call(o, d)
        if self.done(k, i, r, 'call'):
            self.data[i] = d
            self.check(k, i, r.value, 'one-shot call')

    def op_reset(self, k, op, i, o):
        if self.done(k, i, k.call(o.reset), 'reset'):
            self.data[i] = ''

    def op_setKey(self, k, op, i, o):
        key = un(op['key'])
        r = k.call(o.setKey, key)
        if r.ok:
            self.keys[i] = key
            self.data[i] = ''
        else:
            self.keys[i] = self.data[i] = UNK
            self.must(k, r, 'setKey', 'setting a key of %d octets' % len(key))

    def op_chunks(self, k, op, i, o):
        """a whole message, in pieces, with intermediate digests"""
        d = un(op['data'])
        if self.keys[i] is UNK:
            return
        if not self.done(k, i, k.call(o.reset), 'reset'):
            return
        self.data[i] = ''
        cuts = [0] + sorted(c % (len(d) + 1) for c in op['cuts']) + [len(d)]
        for n, (a, b) in enumerate(zip(cuts, cuts[1:])):
            if not self.done(k, i, k.call(o.update, d[a:b]), 'update'):
                return
            self.data[i] += d[a:b]
            if op['peek'] and n % op['peek'] == 0:
                r = k.call(o.digest)
                if not self.done(k, i, r, 'digest'):
                    return
                self.check(k, i, r.value, 'intermediate digest')
        r = k.call(o.digest)
        if self.done(k, i, r, 'digest'):
            self.check(k, i, r.value, 'digest after updates')


class C17(Scenario):
    """An access point and its stations map pass-phrases to keys and run the
    four-way handshake over a network; direct derivations run beside them."""
    prop = 'C17'
    modules = ('hash.pbkdf2', 'hash.prf_dot11', 'hash.hmac')
    kinds = ('net', 'sw', 'intr', 'crash', 'clk')
    hexkeys = ('pw', 'salt', 'key', 'data')
    real = ('hash/pbkdf2.py', 'hash/prf_dot11.py', 'hash/hmac.py', 'cipher/common.py')
    stub = ('hash functions of the old crypto package (on hashlib)', 'network', 'nodes of the handshake',
            'thread scheduler', 'asynchronous exceptions')
    budget = 6000000
    max_drop = 0.2

    def gen(self, rng):
        pws = []
        for _ in range(rng.range(1, 3)):
            n = rng.choice([8, 9, 63, rng.range(8, 63)])
            p = rng.octets(n) if rng.chance(0.4) else ''.join(chr(33 + rng.below(94)) for _ in range(n))
            if pws and rng.chance(0.5):
                p = rng.choice(pws)
                p = p[:-1] + chr(ord(p[-1]) ^ 1) if rng.chance(0.7) else (p + '\0')[:63]
                p = (p + '12345678')[:max(8, len(p))]
            pws.append(p)
        ns = rng.range(1, 3)
        iters = rng.choice([1, 2, 3, 5])
        if rng.chance(0.02):
            return self.gen_psk(rng)
        big = rng.chance(0.02)
        ops = []
        # some workloads derive again and again from a few values only
        few = rng.chance(0.12)
        if few:
            keys = [hx(rng.octets(rng.choice([16, 20, 32]))) for _ in range(2)]
            datas = [hx(rng.octets(rng.choice([6, 20, 76]))) for _ in range(2)]
            labels = [rng.choice(['Pairwise key expansion', 'Group key expansion', 'Init Counter', '']) for _ in range(2)]
            wraps = [rng.choice([16, 24, 32, 48, 64, 96]) for _ in range(2)]
        for i in range(rng.range(5, 9) if few else rng.range(1, 7)):
            kind = rng.weighted([('shake', 6), ('pbk', 3), ('prf', 3), ('bad', 0.7)])
            if few and rng.chance(0.9):
                ops.append({'k': 'prf', 't': float(i + rng.below(2)), 'c': 'x%d' % rng.below(2), 'key': rng.choice(keys),
                            'label': rng.choice(labels), 'data': rng.choice(datas), 'size': rng.choice(wraps),
                            'wrap': int(rng.chance(0.85))})
                continue
            op = {'k': kind, 't': float(3 * i + rng.below(8)), 'c': 'ap'}
            if kind == 'shake':
                op['s'] = rng.below(ns)
                op['an'] = hx(rng.octets(32))
                op['sn'] = hx(rng.octets(32))
                op['bits'] = rng.choice([384, 512])
            elif kind == 'pbk':
                op['c'] = 'x%d' % rng.below(3)
                pw = rng.choice(pws) if rng.chance(0.5) else rng.octets(rng.below(64))
                salt = rng.octets(rng.length(48, 8))
                last = [o for o in ops if o['k'] == 'pbk']
                if last and rng.chance(0.3):
                    o = rng.choice(last)
                    pw, salt = un(o['pw']), un(o['salt'])
                    m = rng.below(4)
                    if m == 0:
                        pw, salt = rng.resplit(pw, salt)
                        if len(pw) > 63:
                            pw, salt = pw[:63], pw[63:] + salt
                    elif m == 1:
                        salt = rng.kin(salt)
                    elif m == 2:
                        pw = rng.kin(pw)
                op['pw'], op['salt'] = hx(pw), hx(salt)
                op['it'] = rng.weighted([(1, 3), (2, 3), (3, 2), (rng.range(4, 12), 2), (rng.range(20, 60), 0.3)])
                op['size'] = rng.weighted([(rng.choice([0, 1, 16, 19, 20, 21, 32, 39, 40, 41, 60, 64]), 5),
                                           (rng.below(130), 3), (rng.range(130, 700), 0.3), (10000 - rng.below(2), 0.02)])
                if op['size'] > 9000:
                    op['it'] = 1
                if op['it'] <= 5 and op['size'] and rng.chance(0.12):
                    # a salt for which an octet at an end of the key is zero
                    op['size'] = max(20, op['size'])
                    end = rng.choice([0, 19])
                    for _ in range(400):
                        if refs.pbkdf2(un(op['pw']), un(op['salt']), op['it'], 20)[end] == '\0':
                            break
                        op['salt'] = hx(rng.raw(max(2, len(salt))))
                if rng.chance(0.015):
                    # more blocks than an octet can count
                    op['size'], op['it'] = 20 * rng.choice([127, 128, 255, 256, 257]) + rng.range(-1, 1), 1
                op['md5'] = int(rng.chance(0.1))
                if rng.chance(0.25):
                    rng.like(op, ops, ('pw', 'salt', 'it', 'size', 'md5'))
                    if rng.chance(0.2):
                        # the other function of the same arguments
                        o = rng.choice([o for o in ops if o['k'] == 'pbk'] or [op])
                        op.update({f: o[f] for f in ('pw', 'salt', 'it', 'size')}, md5=1 - o['md5'])
                    if op['it'] > 5 and op['size'] > 700:
                        op['it'] = 1
            elif kind == 'prf':
                op['c'] = 'x%d' % rng.below(3)
                op['key'] = hx(rng.octets(rng.choice([0, 16, 20, 32, 32, 63, 64, 65, 90])))
                op['label'] = rng.choice(['Pairwise key expansion', 'Group key expansion', 'Init Counter', '', 'a\0b'])
                op['data'] = hx(rng.octets(rng.length(90, 20)))
                last = [o for o in ops if o['k'] == 'prf']
                if last and rng.chance(0.2):
                    # the same octets, divided differently between label and data
                    o = rng.choice(last)
                    op['key'] = o['key']
                    a, b = rng.resplit(o['label'], '\0' + un(o['data']))
                    op['label'], op['data'] = ''.join(chr(ord(c) & 127) for c in a), hx(b)
                op['size'] = rng.weighted([(rng.choice([16, 24, 32, 48, 64, 96]), 4), (rng.below(130), 3),
                                           (20 * rng.range(1, 8), 2), (rng.choice([5119, 5000, 2560]), 0.05)])
                op['wrap'] = int(rng.chance(0.5))
                if rng.chance(0.4):
                    rng.like(op, ops, ('key', 'label', 'data', 'size', 'wrap'))
            else:
                op['c'] = 'x%d' % rng.below(3)
                op['what'] = rng.choice(['bits', 'long', 'short', 'psk-long', 'size'])
                op['n'] = rng.choice([0, 7, rng.below(8)])
            ops.append(op)
        ops.sort(key=lambda o: o['t'])
        return {'cfg': {'pws': [hx(p) for p in pws], 'ap': 0,
                        'st': [0 if rng.chance(0.6) else rng.below(len(pws)) for _ in range(ns)],
                        'ssid': hx(rng.octets(rng.range(0, 32))), 'it': 4096 if big else iters,
                        'macs': [hx(rng.octets(6)) for _ in range(ns + 1)]}, 'ops': ops}

    def gen_psk(self, rng):
        """pass-phrases of several networks, related ones"""
        def phrase(n):
            return ''.join(chr(33 + rng.below(94)) for _ in range(n))
        n = rng.choice([8, 9, 12, rng.range(8, 63), 62, 63])
        pairs = [(phrase(n), phrase(rng.range(0, 32)) if rng.chance(0.7) else rng.octets(rng.range(0, 32)))]
        for _ in range(rng.range(1, 2)):
            p, s = rng.choice(pairs)
            m = rng.below(5)
            if m < 2:
                p, s = rng.resplit(p, s)
            elif m == 2:
                p = p[:-1] + chr(ord(p[-1]) ^ 1)
            elif m == 3:
                s = rng.kin(s)
            else:
                p, s = (s + phrase(8)), p
            if len(p) > 63:
                p, s = p[:63], p[63:] + s
            p = p + phrase(max(0, 8 - len(p)))
            pairs.append((p, s[:32]))
        ops = [{'k': 'psk', 't': float(i + rng.below(3)), 'c': 'x%d' % rng.below(2), 'pw': hx(p), 'salt': hx(s)}
               for i, (p, s) in enumerate(pairs)]
        return {'cfg': {'pws': [hx('12345678')], 'ap': 0, 'st': [], 'ssid': '', 'it': 1, 'macs': [hx('\0' * 6)]},
                'ops': ops}

    def nvariants(self, plan):
        return 1 if any(o['k'] == 'psk' or o.get('size', 0) > 2000 for o in plan['ops']) else self.variants

    def sends(self, op):
        return op['k'] == 'shake'

    def inject(self, rng, plan, base):
        plan = Scenario.inject(self, rng, plan, base)
        prof = self.profile(rng)
        for op in plan['ops']:
            if self.sends(op):
                for h in ('net2', 'net3'):
                    op[h] = self.fates(rng, prof)
                    b = base.get('rx%s-%s.0' % (h[3], self.label(op)))
                    for f in op[h]:
                        if b:
                            self.place(rng, prof, f, b, op)
        return plan

    def start(self, k, plan):
        c = self.cfg = plan['cfg']
        self.pws = [un(x) for x in c['pws']]
        self.ssid = un(c['ssid'])
        self.macs = [un(x) for x in c['macs']]
        self.refs = {}
        self.pmk = {}           # node -> pairwise master key kept in memory
        self.ap = {}            # (station, nonce of the access point) -> data of this attempt
        self.st = {}            # station -> (an, sn, keys)

    def wpmk(self, pw):
        if pw not in self.refs:
            self.refs[pw] = refs.pbkdf2(pw, self.ssid, self.cfg['it'], 32)
        return self.refs[pw]

    def master(self, k, node, pw, job):
        """the key a node derives from its pass-phrase, once per boot"""
        if node in self.pmk:
            return self.pmk[node]
        m = self.m['pbkdf2']
        if self.cfg['it'] == 4096:
            k.count('op:psk4096')
            r = k.call(m.dot11PassPhraseToPSK, pw, self.ssid)
        else:
            r = k.call(m.pbkdf2, pw, self.ssid, self.cfg['it'], 32)
        if job.crashed:
            return None
        if not self.must(k, r, 'psk', 'mapping a pass-phrase of %d octets' % len(pw)):
            return None
        if not self.same(k, r.value, self.wpmk(pw), 'wrong-psk', 'psk', 'pass-phrase of %d octets, network name of '
                         '%d octets, %d iterations' % (len(pw), len(self.ssid), self.cfg['it'])):
            return None
        self.pmk[node] = r.value
        return r.value

    def ptk(self, k, node, pmk, an, sn, s, bits, job):
        a, b = self.macs[0], self.macs[s + 1]
        data = min(a, b) + max(a, b) + min(an, sn) + max(an, sn)
        m = self.m['prf_dot11']
        r = k.call(getattr(m, 'PRF_%d' % bits), pmk, 'Pairwise key expansion', data)
        if not self.must(k, r, 'prf', 'the pairwise key expansion'):
            return None
        if not self.same(k, r.value, refs.prf80211(pmk, 'Pairwise key expansion', data, bits // 8), 'wrong-prf',
                         'pairwise', 'PRF-%d at %s' % (bits, node)):
            return None
        k.trace('ptk', node, r.value.encode('hex'))
        return r.value

    def mic(self, k, ptk, data):
        r = k.call(self.m['hmac'].HMAC_SHA1, ptk[:16])
        if not self.must(k, r, 'mic', 'creating an HMAC object'):
            return None
        r = k.call(r.value, data)
        if not self.must(k, r, 'mic', 'the code of a handshake message'):
            return None
        if not self.same(k, r.value, refs.hmac('sha1', ptk[:16], data), 'wrong-mic', 'handshake',
                         'code of a handshake message'):
            return None
        return r.value[:16]

    def reboot(self, k, node):
        k.count('node:reboot')
        self.pmk.pop(node, None)

    def do(self, k, op, job):
        if op['k'] == 'shake':
            # the access point opens the exchange
            an = un(op['an'])
            self.ap[(op['s'], an)] = None
            k.send(op.get('net'), 'st%d' % op['s'], 'rx-' + self.label(op), self.m1, (op, an))
        elif op['k'] == 'psk':
            pw, ssid = un(op['pw']), un(op['salt'])
            if not 8 <= len(pw) <= 63:
                return          # only in shrunk plans
            k.count('op:psk4096')
            r = k.call(self.m['pbkdf2'].dot11PassPhraseToPSK, pw, ssid)
            if self.must(k, r, 'psk', 'mapping a pass-phrase of %d octets' % len(pw)):
                self.same(k, r.value, refs.pbkdf2(pw, ssid, 4096, 32), 'wrong-psk', 'psk', 'pass-phrase of %d octets, '
                          'network name of %d octets' % (len(pw), len(ssid)))
        elif op['k'] == 'pbk':
            pw, salt = un(op['pw'])[:63], un(op['salt'])
            m = self.m['pbkdf2']
            it = max(1, op['it'])
            if op['md5']:
                r = k.call(m.pbkdf2, pw, salt, it, op['size'], self.m['hmac'].HMAC_MD5)
                if self.must(k, r, 'pbkdf2', 'pbkdf2 with HMAC-MD5'):
                    self.same(k, r.value, refs.pbkdf2_gen('md5', pw, salt, it, op['size']), 'wrong-pbkdf2', 'md5',
                              'with HMAC-MD5, password of %d octets, %d octets of key' % (len(pw), op['size']))
                return
            r = k.call(m.pbkdf2, pw, salt, it, op['size'])
            if self.must(k, r, 'pbkdf2', 'pbkdf2, %d octets' % op['size']):
                k.trace('pbk', r.value.encode('hex') if isinstance(r.value, str) else '')
                self.same(k, r.value, refs.pbkdf2(pw, salt, it, op['size']), 'wrong-pbkdf2', 'pbkdf2',
                          'password of %d octets, salt of %d, %d iterations, %d octets of key'
                          % (len(pw), len(salt), it, op['size']))
        elif op['k'] == 'prf':
            m = self.m['prf_dot11']
            key, lab, data = un(op['key']), op['label'], un(op['data'])
            n = op['size']
            if op['wrap'] and n in (16, 24, 32, 48, 64, 96):
                r = k.call(getattr(m, 'PRF_%d' % (8 * n)), key, lab, data)
            else:
                r = k.call(m.PRF, key, lab, data, 8 * n)
            if self.must(k, r, 'prf', 'PRF, %d octets' % n):
                k.trace('prf', r.value.encode('hex') if isinstance(r.value, str) else '')
                self.same(k, r.value, refs.prf80211(key, lab, data, n), 'wrong-prf', 'direct',
                          'PRF, key of %d octets, label %r, %d octets of data, %d octets asked for'
                          % (len(key), lab, len(data), n))
        else:
            self.bad(k, op)

    def bad(self, k, op):
        w = op['what']
        k.count('probe:malformed')
        if w == 'bits':
            r = k.call(self.m['prf_dot11'].PRF, 'k', 'l', 'd', 8 * (op['n'] * 5) + 1 + op['n'] % 7)
        elif w == 'long':
            r = k.call(self.m['pbkdf2'].pbkdf2, 'p' * (64 + op['n']), 's', 1, 16)
        elif w == 'short':
            r = k.call(self.m['pbkdf2'].dot11PassPhraseToPSK, 'p' * op['n'], 's')
        elif w == 'size':
            r = k.call(self.m['pbkdf2'].pbkdf2, 'pass', 's', 1, 10001 + op['n'])
        else:
            r = k.call(self.m['pbkdf2'].dot11PassPhraseToPSK, 'p' * (64 + op['n']), 's')
        if r.ok:
            k.violate('malformed-accepted', w, 'a call that is outside the definition was answered')

    def m1(self, job, payload, fate):
        """a station gets the nonce of the access point"""
        k = job.k
        op, an = payload
        s = op['s']
        node = 'st%d' % s
        sn = un(op['sn'])
        pmk = self.master(k, node, self.pws[self.cfg['st'][s] % len(self.pws)], job)
        ptk = pmk and self.ptk(k, node, pmk, an, sn, s, op['bits'], job)
        mic = ptk and self.mic(k, ptk, 'M2' + sn)
        if job.crashed:
            self.reboot(k, node)
            return
        if mic:
            self.st[s] = (an, sn, ptk)
            k.send(op.get('net2'), 'ap', 'rx2-' + self.label(op), self.m2, (op, an, sn, mic))

    def m2(self, job, payload, fate):
        k = job.k
        op, an, sn, mic = payload
        s = op['s']
        pw = self.pws[self.cfg['ap'] % len(self.pws)]
        pmk = self.master(k, 'ap', pw, job)
        ptk = pmk and self.ptk(k, 'ap', pmk, an, sn, s, op['bits'], job)
        my = ptk and self.mic(k, ptk, 'M2' + sn)
        m3 = my and self.mic(k, ptk, 'M3' + an)
        if job.crashed:
            self.reboot(k, 'ap')
            return
        if not m3:
            return
        other = self.pws[self.cfg['st'][s] % len(self.pws)]
        equal = self.wpmk(other) == self.wpmk(pw)
        if (my == mic) != equal:
            k.violate('handshake', 'm2', 'pass-phrases are %s but the code of message 2 %s' %
                      ('equal' if equal else 'different', 'is right' if my == mic else 'is wrong'))
        if my != mic:
            k.count('probe:refused')
            return
        k.send(op.get('net3'), 'st%d' % s, 'rx3-' + self.label(op), self.m3, (op, an, sn, m3, ptk))

    def m3(self, job, payload, fate):
        k = job.k
        op, an, sn, mic, ptk = payload
        s = op['s']
        have = self.st.get(s)
        if have is None or have[:2] != (an, sn) or len(have[2]) != len(ptk):
            return              # of an older attempt
        my = self.mic(k, have[2], 'M3' + an)
        if job.crashed:
            self.st.pop(s, None)
            self.reboot(k, 'st%d' % s)
            return
        if my is None:
            return
        if my != mic or ptk != have[2]:
            k.violate('handshake', 'm3', 'both ends finished the handshake with different keys')
        k.count('op:handshake-done')
