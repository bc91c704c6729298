"""C04, C05: ChaCha20-Poly1305 packets over an unreliable network."""
from base import Scenario, hx, un
from kernel import show
import refs


LONG = [('aad', 65536), ('data', 4096), ('aad', 65537), ('data', 10000), ('aad', 65535), ('data', 8192), ('aad', 66048),
        ('data', 16384), ('aad', 70000), ('data', 65600), ('aad', 32768), ('data', 4097), ('aad', 8192), ('data', 5001),
        ('aad', 16384), ('data', 66048), ('aad', 4096), ('data', 20000), ('aad', 1 << 17), ('data', 4352)]


class Aead(Scenario):
    modules = ('cipher.chacha_poly',)
    hexkeys = ('data', 'aad')
    real = ('cipher/chacha_poly.py',)
    stub = ('network', 'entropy source', 'clock', 'thread scheduler', 'asynchronous exceptions')
    budget = 1200000
    huge = 0.006          # share of workloads with a part of more than 65535 octets

    def gen(self, rng):
        sized = rng.swept(LONG, 20 if self.prop == 'C04' else 30, 7)
        if sized or rng.chance(self.huge):
            return self.gen_huge(rng, sized)
        assoc = []
        key0 = hx(rng.octets(32))
        for i in range(rng.range(1, 3)):
            n = rng.weighted([(4, 6), (0, 1), (12, 0.6), (1, 1), (8, 1), (11, 0.5)])
            assoc.append({'key': key0 if rng.chance(0.4) else hx(rng.octets(32)), 'const': hx(rng.octets(n)),
                          'form': rng.choice(['two', 'one']),
                          'shared': rng.chance(0.6)})
        ops = []
        ivs = {}
        for i in range(rng.range(2, self.maxops)):
            a = rng.below(len(assoc))
            n = 12 - len(assoc[a]['const']) // 2
            iv = hx(rng.octets(n))
            if a in ivs and rng.chance(0.15):
                iv = ivs[a]                     # a retransmission reuses its iv
            elif ivs and rng.chance(0.12):
                x = un(rng.choice(sorted(ivs.values())))
                iv = hx((x + rng.raw(n))[:n])
            ivs[a] = iv
            big = 200 if rng.chance(0.9) else 700
            aad, data = rng.octets(rng.length(64, 16)), rng.octets(rng.length(big, rng.choice([16, 64])))
            if ops and rng.chance(0.12):
                # the same octets, divided differently between the two parts
                aad, data = rng.resplit(un(ops[-1]['aad']), un(ops[-1]['data']))
            elif rng.chance(0.08):
                aad, data = self.aimed(rng, un(assoc[a]['key']), un(assoc[a]['const'] + iv), aad, data)
            ops.append({'k': 'seal', 't': float(i + rng.below(3)), 'c': 's%d' % rng.below(3), 'a': a,
                        'r': rng.below(3), 'iv': iv, 'aad': hx(aad), 'data': hx(data)})
        ops.sort(key=lambda o: o['t'])
        return {'cfg': {'assoc': assoc}, 'ops': ops}

    @staticmethod
    def aimed(rng, key, nonce, aad, data):
        """a packet with a special tag or a special state of the MAC's accumulator"""
        if len(aad) + len(data) < 16:
            data = data + rng.raw(16)
        otk = refs.chacha_stream(key, nonce, 0, 32)
        ct = refs.chacha(key, nonce, 1, data)
        z = lambda d: '\0' * (-len(d) % 16)
        na, nc = len(aad) // 16, len(ct) // 16
        if not na + nc:
            return aad, data
        for _ in range(30):
            i = rng.below(na + nc)
            mac = aad + z(aad) + ct + z(ct) + refs.struct.pack('<QQ', len(aad), len(ct))
            at = i if i < na else (len(aad) + 15) // 16 + i - na
            b = refs.poly_aim(otk, mac, at, refs.poly_target(rng, otk), rng.chance(0.7))
            if b is None:
                continue
            if i < na:
                return aad[:16 * i] + b + aad[16 * i + 16:], data
            i -= na
            ct = ct[:16 * i] + b + ct[16 * i + 16:]
            return aad, refs.chacha(key, nonce, 1, ct)
        return aad, data

    def gen_huge(self, rng, sized=None):
        """one packet around the sizes where length fields and counters carry"""
        n = rng.choice([65535, 65536, 65537, 65552, 70000]) if rng.chance(0.6) else rng.big()
        part = rng.weighted([('aad', 5), ('data', 1 if self.prop == 'C04' else 0.3)])
        if part == 'data' and rng.chance(0.7):
            n = rng.big(64, 17000)
        if sized:
            part, n = sized
        m = {'aad': rng.below(40), 'data': rng.below(80)}
        m[part] = n
        a = {'key': hx(rng.octets(32)), 'const': hx(rng.octets(4)), 'form': rng.choice(['two', 'one']), 'shared': True}
        return {'cfg': {'assoc': [a]},
                'ops': [{'k': 'seal', 't': 0.0, 'c': 's0', 'a': 0, 'r': 0, 'iv': hx(rng.octets(8)),
                         'aad': hx(rng.octets(m['aad'])), 'data': hx(rng.octets(m['data']))}]}

    def sends(self, op):
        return True

    def start(self, k, plan):
        self.assoc = []
        for a in plan['cfg']['assoc']:
            d = dict(a)
            d['key'] = un(a['key'])
            d['const'] = un(a['const'])
            self.assoc.append(d)
        M = self.m['chacha_poly']
        self.cls = {'two': M.ChaCha20_AEAD, 'one': M.ChaCha_Poly_AEAD}
        self.obj = {}
        self.sent = []

    def get(self, k, a, who):
        d = self.assoc[a]
        key = (a, 'all' if d['shared'] else who)
        if key not in self.obj:
            r = k.call(self.cls[d['form']], d['key'], d['const'])
            if not self.must(k, r, 'create', 'creating an AEAD object'):
                return None
            # another thread may have won meanwhile; both objects are good
            self.obj.setdefault(key, r.value)
        return self.obj[key]

    def do(self, k, op, job):
        d = self.assoc[op['a']]
        o = self.get(k, op['a'], job.client)
        if o is None:
            return
        iv, aad, pt = un(op['iv']), un(op['aad']), un(op['data'])
        r = k.call(o.encrypt, aad, iv, pt)
        if not self.must(k, r, 'seal-' + d['form'], 'sealing (%s-part form)' % d['form']):
            return
        ct, tag = refs.aead(d['key'], d['const'] + iv, aad, pt)
        what = 'packet of %d octets, aad %d octets, constant %d octets' % (len(pt), len(aad), len(d['const']))
        if d['form'] == 'two':
            want = (ct, tag)
            got = r.value
            if not isinstance(got, (tuple, list)) or len(got) != 2:
                k.violate('wrong-packet', 'seal-two', '%s: got %s' % (what, show(got)))
                return
            if not (self.same(k, got[0], ct, 'wrong-packet', 'seal-two', what + ', ciphertext') and
                    self.same(k, got[1], tag, 'wrong-packet', 'seal-two', what + ', tag')):
                return
        else:
            if not self.same(k, r.value, iv + ct + tag, 'wrong-packet', 'seal-one', what):
                return
        k.trace('sealed', (ct + tag).encode('hex'))
        pkt = (iv, aad, ct, tag)
        self.sent.append((op['a'], pkt, pt))
        k.send(op.get('net'), 'r%d' % op['r'], 'rx-' + self.label(op), self.rx, (op['a'], pkt, pt))

    def open_(self, k, job, a, pkt):
        """the real receiver; returns (accepted, plaintext, injected) or None"""
        d = self.assoc[a]
        o = self.get(k, a, job.client)
        if o is None:
            return None
        iv, aad, ct, tag = pkt
        if d['form'] == 'two':
            r = k.call(o.decrypt, aad, iv, ct)
            if not r.ok:
                return (False, None, r)
            got = r.value
            if not isinstance(got, (tuple, list)) or len(got) != 2:
                k.violate('wrong-plaintext', 'open-two', 'opening returned %s' % show(got))
                return None
            return (got[1] == tag, got[0], r)
        r = k.call(o.decrypt, aad, iv + ct + tag)
        return (r.ok, r.value, r)


class C04(Aead):
    prop = 'C04'
    kinds = ('sw', 'intr', 'net', 'clk')
    maxops = 7

    def rx(self, job, payload, fate):
        k = job.k
        a, pkt, pt = payload
        form = self.assoc[a]['form']
        res = self.open_(k, job, a, pkt)
        if res is None:
            return
        acc, got, r = res
        if not r.ok:
            self.must(k, r, 'open-' + form, 'opening a genuine packet')
            return
        if not acc:
            k.violate('genuine-refused', 'open-' + form, 'the tag computed for a genuine packet of %d octets '
                      'differs from its tag' % len(pt))
            return
        self.same(k, got, pt, 'wrong-plaintext', 'open-' + form, 'opening a packet of %d octets' % len(pt))
        k.trace('opened', len(pt))


class C05(Aead):
    prop = 'C05'
    kinds = ('net', 'sw', 'intr')
    maxops = 6
    variants = 4
    max_drop = 0.1

    def mutation(self, rng, prof):
        if not rng.chance(max(0.35, prof['net'])):
            return None
        part = rng.weighted([('ct', 4), ('tag', 4), ('iv', 2), ('aad', 4), ('packet', 2), ('assoc', 1)])
        how = rng.weighted([('flip', 5), ('cut', 2), ('ext', 2), ('drop', 1), ('swap', 2), ('zero', 1),
                            ('cuthead', 1), ('move', 1), ('perm', 1)])
        return {'part': part, 'how': how, 'x': rng.below(1 << 16), 'y': rng.choice([1, 2, 4, 8, 16, 32, 64, 128,
                                                                                  0xff, rng.range(1, 255)]),
                'with': rng.below(8)}

    def fates(self, rng, prof):
        out = Scenario.fates(self, rng, prof)
        if prof.get('net') and out and rng.chance(0.6):
            if rng.chance(0.5):
                out = out + [{'d': float(rng.choice([1, 4, 9]))}]    # the genuine packet, later
            else:
                for f in out:                                        # or before all the others
                    f['d'] = float(rng.choice([1, 2, 4, 9]))
                out = [{}] + out
        return out

    @staticmethod
    def alter(s, m, other):
        how, x, y = m['how'], m['x'], m['y']
        if how == 'flip' and s:
            i = x % len(s)
            return s[:i] + chr(ord(s[i]) ^ y) + s[i + 1:]
        if how == 'cut':
            return s[:x % (len(s) + 1)]
        if how == 'cuthead':
            return s[x % (len(s) + 1):]
        if how == 'drop' and s:
            i = x % len(s)
            return s[:i] + s[i + 1:]
        if how == 'zero':
            return '\0' * len(s)
        if how == 'swap':
            return other
        if how == 'perm' and len(s) > 1:
            i = 1 + x % (len(s) - 1)
            return s[i:] + s[:i]
        i = x % (len(s) + 1)
        return s[:i] + '\0' * (1 + x % 17) + s[i:] if y & 1 else s + chr(y) * (1 + x % 17)

    def rx(self, job, payload, fate):
        k = job.k
        a, pkt, pt = payload
        m = fate.get('m')
        if m:
            k.count('net:corrupt')
            iv, aad, ct, tag = pkt
            src = self.sent[m['with'] % len(self.sent)][1]
            p = m['part']
            if p == 'assoc':
                a = m['x'] % len(self.assoc)
            elif m['how'] == 'move':
                if m['y'] & 1:
                    n = m['x'] % (len(ct) + 1)
                    aad, ct = aad + ct[:n], ct[n:]
                else:
                    n = m['x'] % (len(aad) + 1)
                    aad, ct = aad[:n], aad[n:] + ct
            elif p == 'iv':
                iv = self.alter(iv, m, src[0])
            elif p == 'aad':
                aad = self.alter(aad, m, src[1])
            elif p == 'ct':
                ct = self.alter(ct, m, src[2])
            elif p == 'tag':
                tag = self.alter(tag, m, src[3])
            else:
                s = self.alter(iv + ct + tag, m, src[0] + src[2] + src[3])
                iv, ct, tag = s[:len(iv)], s[len(iv):max(len(iv), len(s) - 16)], s[max(len(iv), len(s) - 16):]
            pkt = (iv, aad, ct, tag)
        d = self.assoc[a]
        iv, aad, ct, tag = pkt
        if d['form'] == 'one':
            # how the receiver has to split what arrived
            s = iv + ct + tag
            n = 12 - len(d['const'])
            genuine = False
            if len(s) >= n + 16:
                want, t = self.unseal(d, s[:n], aad, s[n:-16])
                genuine = t == s[-16:]
        else:
            genuine = False
            if len(d['const'] + iv) == 12:
                want, t = self.unseal(d, iv, aad, ct)
                genuine = t == tag
        res = self.open_(k, job, a, pkt)
        if res is None:
            return
        acc, got, r = res
        k.trace('rx', genuine, acc, r.ok)
        what = 'packet (iv %d, aad %d, ciphertext %d, tag %d octets)' % tuple(map(len, (iv, aad, ct, tag)))
        if acc and not genuine:
            k.violate('forgery-accepted', d['form'], what + ' that nobody sent was accepted; change: %r' % (m,))
            return
        if genuine:
            if m:
                k.count('probe:altered-into-genuine')
            if not r.ok:
                self.must(k, r, 'open-' + d['form'], 'opening a genuine packet')
            elif not acc:
                k.violate('genuine-refused', d['form'], 'genuine ' + what + ' is refused')
            else:
                self.same(k, got, want, 'wrong-plaintext', d['form'], 'genuine ' + what)
        elif r.ok:
            k.count('probe:tag-mismatch-seen')
        else:
            k.count('probe:refused')

    @staticmethod
    def unseal(d, iv, aad, ct):
        key, nonce = d['key'], d['const'] + iv
        pt = refs.chacha(key, nonce, 1, ct)
        return pt, refs.aead(key, nonce, aad, pt)[1]


class C22(Scenario):
    """one-time authenticator: keys given or generated from a session key, tags
    sent with their messages and recomputed at the far end"""
    prop = 'C22'
    modules = ('cipher.chacha_poly',)
    kinds = ('sw', 'intr', 'net', 'clk')
    hexkeys = ('data',)
    real = Aead.real
    stub = ('network', 'clock', 'thread scheduler', 'asynchronous exceptions')
    budget = 1000000
    variants = 3

    def one_time(self, rng):
        m = rng.r.random()
        r, s = rng.octets(16), rng.octets(16)
        if m < 0.12:
            r = chr(rng.range(0, 5)) + '\0' * 15
        elif m < 0.2:
            # every bit that clamping leaves, and one that it does not
            r = '\xff' * 16
        elif m < 0.3:
            # only bits that clamping clears, and one that it leaves
            r = bytearray('\0\0\0\xf0\x03\0\0\xf0\x03\0\0\xf0\x03\0\0\xf0')
            if rng.chance(0.6):
                r[rng.below(16)] |= rng.choice([4, 8])
            r = str(r)
        if rng.chance(0.25):
            s = refs.to_be(refs.special128(rng), 16)
        return r + s

    def message(self, rng, otk):
        n = rng.length(100 if rng.chance(0.92) else 500, 16)
        d = rng.octets(n)
        if n and rng.chance(0.25):
            d = ''.join(rng.choice(['\xff' * 16, '\0' * 16, '\xfb' + '\xff' * 15, '\xfa' + '\xff' * 15,
                                    '\xfe' + '\xff' * 15, '\x01' + '\0' * 15, '\0' * 15 + '\x80', rng.raw(16)])
                        for _ in range(n // 16 + 1))[:n]
        elif n >= 16 and rng.chance(0.4):
            for _ in range(20):
                i = rng.below(n // 16)
                b = refs.poly_aim(otk, d, i, refs.poly_target(rng, otk), rng.chance(0.6))
                if b:
                    return d[:16 * i] + b + d[16 * i + 16:]
                d = rng.raw(16) + d[16:]
        return d

    def gen(self, rng):
        cfg = {'otk': [hx(self.one_time(rng)) for _ in range(rng.range(1, 3))], 'key': [hx(rng.octets(32)) for _ in range(2)]}
        if len(cfg['otk']) > 1 and rng.chance(0.3):
            # two keys with one r or one s
            a, b = cfg['otk'][:2]
            cfg['otk'][1] = a[:32] + b[32:] if rng.chance(0.5) else b[:32] + a[32:]
        ops = []
        for i in range(rng.range(2, 9)):
            op = {'k': rng.weighted([('mac', 7), ('keygen', 1), ('session', 3)]), 't': float(i + rng.below(3)),
                  'c': 's%d' % rng.below(3), 'r': rng.below(3)}
            if op['k'] == 'mac':
                op['key'] = rng.below(len(cfg['otk']))
                otk = un(cfg['otk'][op['key']])
            else:
                op['key'] = rng.below(2)
                op['nonce'] = hx(rng.octets(12))
                if ops and rng.chance(0.2):
                    op['nonce'] = rng.choice([o.get('nonce') or op['nonce'] for o in ops])
                otk = refs.chacha_stream(un(cfg['key'][op['key']]), un(op['nonce']), 0, 32)
            if op['k'] != 'keygen':
                if i == 0 and rng.chance(0.02):
                    op['data'] = hx(rng.octets(rng.big(16, 9000)))
                else:
                    op['data'] = hx(self.message(rng, otk))
            ops.append(op)
        ops.sort(key=lambda o: o['t'])
        return {'cfg': cfg, 'ops': ops}

    def sends(self, op):
        return op['k'] != 'keygen'

    def mutation(self, rng, prof):
        if not rng.chance(prof['net'] * 0.5):
            return None
        return {'part': rng.choice(['msg', 'msg', 'tag', 'key']),
                'how': rng.weighted([('flip', 5), ('cut', 2), ('ext', 3), ('drop', 1), ('swap', 1), ('zero', 1),
                                     ('perm', 1)]),
                'x': rng.below(1 << 16), 'y': rng.choice([1, 128, 255, rng.range(1, 255)]), 'with': rng.below(8)}

    def start(self, k, plan):
        self.sent = []
        self.plan = plan

    def key(self, k, op, who):
        """the one-time key this op uses, from the real key generation"""
        cfg = self.plan['cfg']
        if op['k'] == 'mac':
            return un(cfg['otk'][op['key']])
        key, nonce = un(cfg['key'][op['key']]), un(op['nonce'])
        r = k.call(self.m['chacha_poly'].poly1305_key_gen, key, nonce)
        if not self.must(k, r, who + '-keygen', 'generating a one-time key'):
            return None
        want = refs.chacha_stream(key, nonce, 0, 32)
        return want if self.same(k, r.value, want, 'wrong-key', who, 'one-time key') else None

    def do(self, k, op, job):
        otk = self.key(k, op, 'sender')
        if otk is None or op['k'] == 'keygen':
            return
        data = un(op['data'])
        r = k.call(self.m['chacha_poly'].poly1305_mac, data, otk)
        if not self.must(k, r, 'tag', 'the tag of %d octets' % len(data)):
            return
        if not self.same(k, r.value, refs.poly1305(otk, data), 'wrong-tag', 'tag', 'tag of %d octets, key %s'
                         % (len(data), hx(otk))):
            return
        k.trace('tag', r.value.encode('hex'))
        self.sent.append((op, data, r.value))
        k.send(op.get('net'), 'r%d' % op['r'], 'rx-' + self.label(op), self.rx, self.sent[-1])

    def rx(self, job, payload, fate):
        k = job.k
        op, data, tag = payload
        m = fate.get('m')
        if m:
            k.count('net:corrupt')
            src = self.sent[m['with'] % len(self.sent)]
            if m['part'] == 'msg':
                data = C05.alter(data, m, src[1])
            elif m['part'] == 'tag':
                tag = C05.alter(tag, m, src[2])
            else:
                op = src[0]
        otk = self.key(k, op, 'receiver')
        if otk is None:
            return
        r = k.call(self.m['chacha_poly'].poly1305_mac, data, otk)
        if not self.must(k, r, 'verify', 'verifying a message of %d octets' % len(data)):
            return
        genuine = refs.poly1305(otk, data) == tag
        k.count('probe:verified' if genuine else 'probe:refused')
        if (r.value == tag) != genuine:
            k.violate('wrong-verdict', 'verify', 'message of %d octets: verifier says %s' % (len(data), r.value == tag))
            return
        k.trace('rx', genuine)
