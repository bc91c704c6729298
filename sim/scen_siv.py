"""C06-C08: AES-SIV packets and AES-CMAC tags; the block cipher is a device
that can fail."""
from base import Scenario, hx, un
from kernel import show
from scen_aead import C05
import refs

SIZES = (16, 24, 32)


def leading_zero(key):
    a, b = refs.cmac_subkeys(key)
    return a[0] == '\0' or b[0] == '\0'


def cmac_key(rng, n):
    k = rng.octets(n)
    if rng.chance(0.35):
        for _ in range(600):
            if leading_zero(k):
                break
            k = rng.raw(n)
    return k


def siv_key(rng):
    n = rng.choice(SIZES)
    return cmac_key(rng, n) + rng.octets(n)


def ad_list(rng):
    n = rng.weighted([(0, 2), (1, 4), (2, 3), (3, 2), (5, 1), (12, 0.3)])
    return [hx(rng.octets(rng.length(40, 16))) for _ in range(n)]


def special_iv(rng):
    """a synthetic iv next to where the counter carries, or with runs of zeros or ones"""
    v = refs.special128(rng)
    if rng.chance(0.6):
        low = rng.choice([0x7fffffff, 0xffffffff, 0x80000000, 0x7ffffffe, 0, 0x7fffff00 + rng.below(256)])
        v = v >> 32 << 32 | low
        if rng.chance(0.5):
            v = v >> 64 << 64 | rng.choice([0x7fffffff, 0xffffffff, 0x80000000, 0]) << 32 | low
    return refs.to_be(v, 16)


class Siv(Scenario):
    modules = ('cipher.aes_siv',)
    hexkeys = ('data',)
    real = ('cipher/aes_siv.py', 'cipher/aes_cmac.py', 'cipher/common.py', 'cipher/encoding.py')
    stub = ('AES block cipher (javax.crypto behind PyCrypto\'s interface, failures injected)', 'network',
            'thread scheduler', 'asynchronous exceptions')
    budget = 1800000

    def gen(self, rng):
        keys = [hx(siv_key(rng)) for _ in range(rng.range(1, 2))]
        if len(keys) == 2 and rng.chance(0.3):
            # the two keys share a half
            h = len(keys[0]) // 2
            keys[1] = keys[0][:h] + hx(rng.raw(h // 2)) if rng.chance(0.5) else hx(rng.raw(h // 2)) + keys[0][h:]
        lists = [ad_list(rng) for _ in range(2)]
        ops = []
        for i in range(rng.range(1, self.maxops)):
            ads = rng.below(2) if rng.chance(0.6) else ad_list(rng)
            data = hx(rng.octets(rng.length(70 if rng.chance(0.9) else 300, 16)))
            aimed = False
            if ops and rng.chance(0.15):
                ads, data = self.redivided(rng, ops[-1], lists)
            elif rng.chance(0.12):
                # a plaintext whose synthetic iv is chosen
                l = lists[ads] if isinstance(ads, int) else ads
                head = rng.octets(16 * rng.below(4))
                data = hx(head + refs.siv_aim(un(keys[0]), head, [un(x) for x in l], special_iv(rng)))
                aimed = True
            elif i == 0 and rng.chance(0.02):
                if rng.chance(0.5):
                    data = hx(rng.octets(rng.big(16, 9000)))
                else:
                    ads = [hx(rng.octets(rng.big(16, 9000)))]
            elif i == 0 and rng.chance(0.01):
                # the longest vector there is a definition for, or the longest but one
                ads = [hx(rng.raw(rng.below(3))) for _ in range(rng.choice([124, 125, 126, 126]))]
            ops.append({'k': 'seal', 't': float(i + rng.below(3)), 'c': 's%d' % rng.below(3), 'r': rng.below(3),
                        'key': 0 if aimed else rng.below(len(keys)), 'ads': ads,
                        'form': 'obj' if rng.chance(0.7) else 'fn', 'data': data})
        ops.sort(key=lambda o: o['t'])
        return {'cfg': {'keys': keys, 'lists': lists}, 'ops': ops}

    def redivided(self, rng, op, lists):
        """the strings of an earlier call, their octets divided differently"""
        ads, data = op['ads'], op['data']
        ads = list(lists[ads] if isinstance(ads, int) else ads)
        i = rng.below(len(ads) + 1)
        if i >= len(ads) - 1:
            if ads:
                a, b = rng.resplit(un(ads[-1]), un(data))
                ads[-1], data = hx(a), hx(b)
            else:
                a, b = rng.resplit('', un(data))
                ads, data = [hx(a)], hx(b)
        else:
            a, b = rng.resplit(un(ads[i]), un(ads[i + 1]))
            ads[i:i + 2] = [hx(x) for x in (a, b) if x or rng.chance(0.5)]
        return ads, data

    def bulk(self, plan):
        n = Scenario.bulk(self, plan)
        for o in plan['ops']:
            if not isinstance(o['ads'], int):
                n += sum(len(x) // 2 + 16 for x in o['ads'])
        return n

    def sends(self, op):
        return True

    def start(self, k, plan):
        self.keys = [un(x) for x in plan['cfg']['keys']]
        self.want_lists = [[un(x) for x in l] for l in plan['cfg']['lists']]
        self.lists = [list(l) for l in self.want_lists]      # shared by all callers
        self.obj = {}
        self.sent = []

    def ads(self, a):
        if isinstance(a, int):
            return self.lists[a], self.want_lists[a]
        l = [un(x) for x in a]
        return l, list(l)

    def get(self, k, i):
        if i not in self.obj:
            r = k.call(self.m['aes_siv'].AES_SIV, self.keys[i])
            if not self.must(k, r, 'create', 'creating a cipher object'):
                return None
            self.obj.setdefault(i, r.value)
        return self.obj[i]

    def fn(self, k, form, key, how):
        if form == 'obj':
            o = self.get(k, key)
            return None if o is None else (o.encrypt if how == 'seal' else o.decrypt)
        f = self.m['aes_siv'].siv_encrypt if how == 'seal' else self.m['aes_siv'].siv_decrypt
        kk = self.keys[key]
        return lambda a, b: f(kk, a, b)

    def unmodified(self, k, ads, want, what):
        if ads != want:
            k.violate('argument-modified', what, 'the list of associated data had %d strings and has %d now, or '
                      'they differ' % (len(want), len(ads)))
            return False
        return True

    def do(self, k, op, job):
        f = self.fn(k, op['form'], op['key'], 'seal')
        if f is None:
            return
        ads, want_ads = self.ads(op['ads'])
        pt = un(op['data'])
        r = k.call(f, pt, ads)
        if not self.unmodified(k, ads, want_ads, 'seal'):
            return
        if not self.must(k, r, 'seal', 'sealing'):
            return
        want = refs.siv_seal(self.keys[op['key']], pt, want_ads)
        if not self.same(k, r.value, want, 'wrong-packet', 'seal', 'sealing %d octets with %d strings of '
                         'associated data, key of %d octets' % (len(pt), len(want_ads), len(self.keys[op['key']]))):
            return
        k.trace('sealed', want.encode('hex'))
        pkt = (op['key'], want, op['ads'])
        self.sent.append((pkt, op['form']))
        k.send(op.get('net'), 'r%d' % op['r'], 'rx-' + self.label(op), self.rx, (pkt, op['form']))

    def rx(self, job, payload, fate):
        k = job.k
        (key, packet, adref), form = payload
        m = fate.get('m')
        ads, want_ads = self.ads(adref)
        if m:
            k.count('net:corrupt')
            key, packet, ads = self.corrupt(m, key, packet, list(want_ads))
            want_ads = list(ads)
        want = refs.siv_open(self.keys[key], packet, want_ads)
        f = self.fn(k, form, key, 'open')
        if f is None:
            return
        r = k.call(f, packet, ads)
        if not self.unmodified(k, ads, want_ads, 'open'):
            return
        k.trace('rx', want is not None, r.ok)
        what = 'packet of %d octets with %d strings of associated data' % (len(packet), len(want_ads))
        if want is None:
            if r.ok:
                k.violate('forgery-accepted', 'open', 'altered %s was opened (%s); change: %r'
                          % (what, show(r.value), m))
            else:
                k.count('probe:refused')
            return
        if not r.ok:
            self.must(k, r, 'open', 'opening a genuine ' + what)
            return
        self.same(k, r.value, want, 'wrong-plaintext', 'open', 'opening a genuine ' + what)

    def corrupt(self, m, key, packet, ads):
        src = self.sent[m['with'] % len(self.sent)][0]
        p = m['part']
        if p == 'key':
            return m['x'] % len(self.keys), packet, ads
        if p == 'packet':
            return key, C05.alter(packet, m, src[1]), ads
        if p == 'ad' and ads:
            i = m['x'] % len(ads)
            o, _ = self.ads(src[2])
            ads[i] = C05.alter(ads[i], dict(m, x=m['z']), o[m['z'] % len(o)] if o else '')
            return key, packet, ads
        how = m['how2']
        i = m['x'] % (len(ads) + 1)
        if how == 'drop' and ads:
            del ads[i % len(ads)]
        elif how == 'swap' and len(ads) > 1:
            j = m['z'] % len(ads)
            i = i % len(ads)
            ads[i], ads[j] = ads[j], ads[i]
        elif how == 'split' and ads:
            i = i % len(ads)
            n = m['z'] % (len(ads[i]) + 1)
            ads[i:i + 1] = [ads[i][:n], ads[i][n:]]
        elif how == 'join' and len(ads) > 1:
            i = i % (len(ads) - 1)
            ads[i:i + 2] = [ads[i] + ads[i + 1]]
        elif how == 'shift' and len(ads) > 1:
            i = i % (len(ads) - 1)
            n = m['z'] % (len(ads[i]) + 1)
            ads[i], ads[i + 1] = ads[i][:n], ads[i][n:] + ads[i + 1]
        elif how == 'other':
            ads = list(self.ads(src[2])[0])
        elif how == 'pad' and ads:
            i = i % len(ads)
            ads[i] = ads[i] + '\x80' + '\0' * (m['z'] % 16)
        elif how == 'rot' and ads:
            n = i % len(ads)
            ads = ads[n:] + ads[:n]
        else:
            ads.insert(i, '' if m['z'] & 1 else chr(m['y']) * (m['z'] % 20))
        return key, packet, ads


class C06(Siv):
    prop = 'C06'
    kinds = ('sw', 'intr', 'dev', 'net')
    maxops = 6

    def gen(self, rng):
        plan = Siv.gen(self, rng)
        for op in plan['ops']:
            if rng.chance(0.08):
                op['k'] = 's2v'
                if rng.chance(0.3):
                    op['ads'] = []
        return plan

    def sends(self, op):
        return op['k'] == 'seal'

    def do(self, k, op, job):
        if op['k'] == 'seal':
            Siv.do(self, k, op, job)
            return
        # the vector itself, over the strings alone
        ads, want = self.ads(op['ads'])
        key = self.keys[op['key']]
        key = key[:len(key) // 2]
        r = k.call(self.m['aes_siv'].s2v, key, ads)
        if self.unmodified(k, ads, want, 's2v') and self.must(k, r, 's2v', 'the vector of %d strings' % len(want)):
            self.same(k, r.value, refs.s2v(key, want), 'wrong-vector', 's2v', 'the vector of %d strings' % len(want))
            k.trace('s2v', refs.be(r.value))


class C07(Siv):
    prop = 'C07'
    kinds = ('net', 'sw', 'intr', 'dev')
    maxops = 5
    variants = 4
    max_drop = 0.1

    def mutation(self, rng, prof):
        if not rng.chance(max(0.35, prof['net'])):
            return None
        return {'part': rng.weighted([('packet', 5), ('ad', 3), ('ads', 4), ('key', 1)]),
                'how': rng.weighted([('flip', 5), ('cut', 3), ('ext', 2), ('drop', 1), ('swap', 2), ('zero', 1),
                                     ('cuthead', 1), ('perm', 1)]),
                'how2': rng.choice(['drop', 'swap', 'split', 'join', 'shift', 'other', 'pad', 'ins', 'rot']),
                'x': rng.below(1 << 16), 'z': rng.below(1 << 16),
                'y': rng.choice([1, 2, 4, 8, 16, 32, 64, 128, 255, rng.range(1, 255)]), 'with': rng.below(8)}

    def fates(self, rng, prof):
        out = Scenario.fates(self, rng, prof)
        if prof.get('net') and out and rng.chance(0.6):
            if rng.chance(0.5):
                out = out + [{'d': float(rng.choice([1, 4, 9]))}]
            else:
                for f in out:                   # the genuine packet before all the others
                    f['d'] = float(rng.choice([1, 2, 4, 9]))
                out = [{}] + out
        return out


class C08(Scenario):
    """tags computed by several threads, sent with their messages, verified at
    the far end by recomputing them"""
    prop = 'C08'
    modules = ('cipher.aes_cmac',)
    kinds = ('sw', 'intr', 'dev', 'net')
    hexkeys = ('data',)
    real = ('cipher/aes_cmac.py', 'cipher/encoding.py')
    stub = Siv.stub
    budget = 1000000

    def gen(self, rng):
        keys = [hx(cmac_key(rng, rng.choice(SIZES))) for _ in range(rng.range(1, 3))]
        ops = []
        for i in range(rng.range(2, 8)):
            k = 'tag' if rng.chance(0.85) else 'subkey'
            n = rng.length(80 if rng.chance(0.9) else 400, 16)
            if i == 0 and rng.chance(0.02):
                n = rng.big(16, 20000)
            ops.append({'k': k, 't': float(i + rng.below(3)), 'c': 's%d' % rng.below(3), 'r': rng.below(3),
                        'key': rng.below(len(keys)), 'data': hx(rng.octets(n)) if k == 'tag' else ''})
            if k == 'tag' and rng.chance(0.12):
                # a message whose tag is chosen
                head = rng.octets(16 * rng.below(4))
                tag = refs.to_be(refs.special128(rng), 16)
                ops[-1]['data'] = hx(head + refs.cmac_aim(un(keys[ops[-1]['key']]), head, tag))
        ops.sort(key=lambda o: o['t'])
        return {'cfg': {'keys': keys}, 'ops': ops}

    def sends(self, op):
        return op['k'] == 'tag'

    def mutation(self, rng, prof):
        if not rng.chance(prof['net'] * 0.5):
            return None
        return {'part': rng.choice(['msg', 'tag', 'key']),
                'how': rng.weighted([('flip', 5), ('cut', 2), ('ext', 2), ('drop', 1), ('swap', 1), ('zero', 1)]),
                'x': rng.below(1 << 16), 'y': rng.choice([1, 128, 255, rng.range(1, 255)]), 'with': rng.below(8)}

    def start(self, k, plan):
        self.keys = [un(x) for x in plan['cfg']['keys']]
        self.sent = []

    def do(self, k, op, job):
        key = self.keys[op['key']]
        if op['k'] == 'subkey':
            r = k.call(self.m['aes_cmac'].subkey, key)
            if self.must(k, r, 'subkey', 'sub-key derivation'):
                want = refs.cmac_subkeys(key)
                got = r.value
                if not isinstance(got, (tuple, list)) or tuple(got) != want:
                    k.violate('wrong-subkey', 'subkey', 'key %s: got %s, expected %s' % (hx(key), show(got), show(want)))
            return
        data = un(op['data'])
        r = k.call(self.m['aes_cmac'].aes_cmac, key, data)
        if not self.must(k, r, 'tag', 'the tag of %d octets' % len(data)):
            return
        if not self.same(k, r.value, refs.cmac(key, data), 'wrong-tag', 'tag', 'tag of %d octets, key of %d octets'
                         % (len(data), len(key))):
            return
        k.trace('tag', r.value.encode('hex'))
        self.sent.append((op['key'], data, r.value))
        k.send(op.get('net'), 'r%d' % op['r'], 'rx-' + self.label(op), self.rx, self.sent[-1])

    def rx(self, job, payload, fate):
        k = job.k
        i, data, tag = payload
        m = fate.get('m')
        if m:
            k.count('net:corrupt')
            src = self.sent[m['with'] % len(self.sent)]
            if m['part'] == 'msg':
                data = C05.alter(data, m, src[1])
            elif m['part'] == 'tag':
                tag = C05.alter(tag, m, src[2])
            else:
                i = m['x'] % len(self.keys)
        r = k.call(self.m['aes_cmac'].aes_cmac, self.keys[i], data)
        if not self.must(k, r, 'verify', 'verifying a message of %d octets' % len(data)):
            return
        genuine = refs.cmac(self.keys[i], data) == tag
        k.count('probe:verified' if genuine else 'probe:refused')
        if (r.value == tag) != genuine:
            k.violate('wrong-verdict', 'verify', 'message of %d octets: verifier says %s' % (len(data), r.value == tag))
            return
        k.trace('rx', genuine)
