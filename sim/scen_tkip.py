"""C14, C15: TKIP per-packet keys and TKIP message integrity codes."""
from base import Scenario, hx, un
from kernel import show
import refs


def related(rng, xs, n):
    """n octets, often sharing most of their octets with one of xs"""
    if not xs or rng.chance(0.5):
        return rng.octets(n)
    b = bytearray(rng.choice(xs))
    for _ in range(rng.range(1, 2)):
        b[rng.below(n)] = rng.below(256)
    return str(b)


class C14(Scenario):
    """Senders mix a key per packet; receivers follow key and address changes
    announced in the packet and mix the key of whatever packet number arrives."""
    prop = 'C14'
    modules = ('hash.tkip_key_mixing',)
    kinds = ('net', 'sw', 'intr', 'clk')
    intkeys = ('key', 'ta')
    real = ('hash/tkip_key_mixing.py',)
    stub = ('network', 'thread scheduler', 'asynchronous exceptions', 'AES S-box table and binascii_plus of the '
            'old crypto package')
    budget = 600000

    def gen(self, rng):
        tks, tas = [], []
        for _ in range(rng.range(1, 3)):
            tks.append(related(rng, tks, 16))
            tas.append(related(rng, tas, 6))
        links = rng.range(1, 3)
        made = []
        for i in range(2 * links):
            made.append({'how': rng.choice(['both', 'key-ta', 'ta-key', 'pn', 'tk-only', 'none']),
                         'pn': self.pn(rng, 0)})
        ops = []
        pns = [self.start_pn(rng) for _ in range(links)]
        for i in range(rng.range(2, 14)):
            l = rng.below(links)
            kind = rng.weighted([('send', 8), ('key', 1.6), ('ta', 1), ('bad', 0.8), ('mix', 2)])
            op = {'k': kind, 't': float(i + rng.below(3)), 'l': l, 'c': 'l%d' % l}
            if kind in ('send', 'mix'):
                pns[l] = self.pn(rng, pns[l])
                op['pn'] = '%012x' % pns[l]
            if kind == 'mix':
                op['side'] = rng.below(2)
            if kind == 'key':
                op['key'] = rng.below(len(tks))
            elif kind == 'ta':
                op['ta'] = rng.below(len(tas))
            elif kind == 'bad':
                op['what'] = rng.choice(['key', 'ta', 'pn'])
                op['side'] = rng.below(2)
                op['n'] = rng.choice([0, 1, 5, 7, 8, 15, 17, 32])
            ops.append(op)
        ops.sort(key=lambda o: o['t'])
        return {'cfg': {'tks': [hx(x) for x in tks], 'tas': [hx(x) for x in tas], 'made': made,
                        'k0': [rng.below(len(tks)) for _ in range(links)],
                        'a0': [rng.below(len(tas)) for _ in range(links)]}, 'ops': ops}

    def start_pn(self, rng):
        return rng.choice([0, 0, rng.bits(48), 0xfffe, 0xffffffff - 1, (1 << 48) - 5, 0x10000 - 2,
                           rng.bits(32) << 16, rng.bits(16)]) & ((1 << 48) - 1)

    def pn(self, rng, cur):
        M = (1 << 48) - 1
        m = rng.r.random()
        if m < 0.45:
            v = cur + 1
        elif m < 0.55:
            v = cur
        elif m < 0.65:
            v = cur + rng.choice([2, 7, 255, 256, 65535, 65536, 65537])
        elif m < 0.75:
            v = cur - rng.choice([1, 2, 256, 65536])
        elif m < 0.9:
            # one octet differs
            v = cur ^ (rng.range(1, 255) << (8 * rng.below(6)))
        else:
            v = rng.bits(48)
        return v & M

    def sends(self, op):
        return op['k'] == 'send'

    def locks(self, op):
        if op['k'] in ('mix', 'bad'):
            return ('m%d' % (2 * op['l'] + op['side']),)
        return ('m%d' % (2 * op['l']),)

    def start(self, k, plan):
        c = plan['cfg']
        self.tks = [un(x) for x in c['tks']]
        self.tas = [un(x) for x in c['tas']]
        self.made = c['made']
        n = len(c['k0'])
        self.mix = {}
        # what each mixer may hold: sets of temporal keys and addresses
        self.tk = [set([self.tks[c['k0'][i // 2]]]) for i in range(2 * n)]
        self.ta = [set([self.tas[c['a0'][i // 2]]]) for i in range(2 * n)]
        self.want = [[c['k0'][i], c['a0'][i]] for i in range(n)]     # announced on each link

    def get(self, k, i):
        if i in self.mix:
            return self.mix[i]
        M = self.m['tkip_key_mixing'].TKIP_Mixer
        tk = sorted(self.tk[i])[0]
        ta = sorted(self.ta[i])[0]
        how = self.made[i]['how']
        if how == 'both':
            r = k.call(M, tk, ta)
        elif how == 'pn':
            r = k.call(M, tk, ta, ('%012x' % self.made[i]['pn']).decode('hex'))
        elif how == 'tk-only':
            r = k.call(M, tk)
        else:
            r = k.call(M)
        if not self.must(k, r, 'create', 'creating a mixer'):
            return None
        m = r.value
        if how not in ('both', 'pn'):
            r = k.call(m.newKey, '\1\0\0\0\0\0')
            if r.ok:
                k.violate('unset-accepted', 'newKey', 'a mixer without key and address returned a key')
        steps = {'key-ta': ['k', 'a'], 'ta-key': ['a', 'k'], 'tk-only': ['a'], 'none': ['a', 'k']}.get(how, [])
        for s in steps:
            r = k.call(m.setKey, tk) if s == 'k' else k.call(m.setTA, ta)
            if not r.ok:
                self.must(k, r, 'create', 'setting up a mixer')
                return None
        self.mix[i] = m
        return m

    def set(self, k, i, what, v):
        m = self.get(k, i)
        if m is None:
            return False
        s = (self.tk if what == 'key' else self.ta)[i]
        r = k.call(m.setKey if what == 'key' else m.setTA, v)
        if r.ok:
            s.clear()
        s.add(v)
        k.trace('set', i, what, r.ok)
        return self.must(k, r, 'set-' + what, 'setting the ' + what)

    def key(self, k, i, pn, what):
        """a packet key from mixer i, checked"""
        m = self.get(k, i)
        if m is None:
            return None
        r = k.call(m.newKey, pn)
        if not r.ok:
            self.must(k, r, 'newKey', 'mixing the key of packet %s' % pn.encode('hex'))
            return None
        fit = [(a, b) for a in self.tk[i] for b in self.ta[i] if refs.tkip_rc4key(a, b, pn) == r.value]
        if not fit:
            a, b = sorted(self.tk[i])[0], sorted(self.ta[i])[0]
            k.violate('wrong-key', what, 'mixer %d, packet number octets %s: got %s, expected %s'
                      % (i, pn.encode('hex'), show(r.value), show(refs.tkip_rc4key(a, b, pn))))
            return None
        self.tk[i] = set(x[0] for x in fit)
        self.ta[i] = set(x[1] for x in fit)
        k.trace('key', i, r.value.encode('hex'))
        return r.value

    def do(self, k, op, job):
        l = op['l']
        if op['k'] == 'key':
            if self.set(k, 2 * l, 'key', self.tks[op['key'] % len(self.tks)]):
                self.want[l][0] = op['key'] % len(self.tks)
        elif op['k'] == 'ta':
            if self.set(k, 2 * l, 'ta', self.tas[op['ta'] % len(self.tas)]):
                self.want[l][1] = op['ta'] % len(self.tas)
        elif op['k'] == 'bad':
            self.bad(k, op)
        elif op['k'] == 'mix':
            self.key(k, 2 * l + op['side'], op['pn'].decode('hex'), 'mix')
        else:
            i = 2 * l
            pn = op['pn'].decode('hex')
            # a sender whose last key change was cut short repeats it
            for what, ix, tab in (('key', 0, self.tks), ('ta', 1, self.tas)):
                s = (self.tk if what == 'key' else self.ta)[i]
                if s != set([tab[self.want[l][ix]]]) and not self.set(k, i, what, tab[self.want[l][ix]]):
                    return
            v = self.key(k, i, pn, 'sender')
            if v is not None:
                k.send(op.get('net'), 'r%d' % l, 'rx-' + self.label(op), self.rx,
                       (l, list(self.want[l]), pn, v), locks=('m%d' % (i + 1),))

    def rx(self, job, payload, fate):
        k = job.k
        l, want, pn, v = payload
        i = 2 * l + 1
        for what, ix, tab in (('key', 0, self.tks), ('ta', 1, self.tas)):
            s = (self.tk if what == 'key' else self.ta)[i]
            if s != set([tab[want[ix]]]) and not self.set(k, i, what, tab[want[ix]]):
                return
        got = self.key(k, i, pn, 'receiver')
        if got is not None and got != v:
            k.violate('ends-disagree', 'receiver', 'packet number octets %s: sender %s, receiver %s'
                      % (pn.encode('hex'), show(v), show(got)))

    def bad(self, k, op):
        i = 2 * op['l'] + op['side']
        m = self.get(k, i)
        if m is None:
            return
        n = op['n']
        if n == {'key': 16, 'ta': 6, 'pn': 6}[op['what']]:
            n += 1
        f = {'key': m.setKey, 'ta': m.setTA, 'pn': m.newKey}[op['what']]
        r = k.call(f, '\xa5' * n)
        k.count('probe:malformed')
        if r.ok:
            k.violate('malformed-accepted', op['what'], '%d octets were accepted as %s' % (n, op['what']))


class C15(Scenario):
    """Frames carry their MIC to receivers that share one MIC object or re-key
    their own; frames are altered on the way."""
    prop = 'C15'
    modules = ('hash.michael', 'hash.tkip_mic')
    kinds = ('net', 'sw', 'intr')
    hexkeys = ('data', 'sa', 'da')
    real = ('hash/michael.py', 'hash/tkip_mic.py')
    stub = ('network', 'thread scheduler', 'asynchronous exceptions', 'binascii_plus of the old crypto package')
    budget = 600000
    max_drop = 0.15
    variants = 3

    def gen(self, rng):
        keys = []
        for _ in range(rng.range(1, 3)):
            keys.append(related(rng, keys, 8))
        ops = []
        addrs = []
        for _ in range(4):
            addrs.append(related(rng, addrs, 6))
        for i in range(rng.range(2, 10)):
            kind = rng.weighted([('frame', 7), ('mic', 4), ('bad', 1)])
            n = rng.length(80 if rng.chance(0.9) else 600, 4)
            if i == 0 and rng.chance(0.02):
                n = rng.big(4, 20000)
            op = {'k': kind, 't': float(i + rng.below(3)), 'c': 's%d' % rng.below(3), 'key': rng.below(len(keys)),
                  'own': int(rng.chance(0.45)), 'r': rng.below(3), 'ver': rng.choice(['D3', 'D3', 'D2', 'dflt']),
                  'pri': rng.choice([0, 0, 7, 15, rng.below(16)]),
                  'data': hx(rng.octets(n))}
            if kind == 'frame':
                op['sa'] = hx(rng.choice(addrs))
                op['da'] = hx(rng.choice(addrs))
                last = [o for o in ops if 'sa' in o]
                if last and rng.chance(0.15):
                    # the octets of an earlier frame, moved between its fields
                    o = rng.choice(last)
                    s = un(o['da']) + un(o['sa']) + un(o['data'])
                    s = s[-rng.range(1, 6):] + s if rng.chance(0.5) else s[rng.range(1, 4):]
                    s += '\0' * 12
                    op['da'], op['sa'], op['data'] = hx(s[:6]), hx(s[6:12]), hx(s[12:-12])
            elif kind == 'mic':
                op['call'] = int(rng.chance(0.4))
            else:
                op['what'] = rng.choice(['key', 'sa', 'da', 'pri+', 'pri-', 'keyc', 'mkey'])
                op['n'] = rng.choice([0, 1, 5, 7, 9, 12, 16])
            ops.append(op)
        ops.sort(key=lambda o: o['t'])
        return {'cfg': {'keys': [hx(x) for x in keys]}, 'ops': ops}

    def sends(self, op):
        return op['k'] != 'bad'

    def mutation(self, rng, prof):
        if not rng.chance(max(0.4, prof['net'])):
            return None
        return {'part': rng.weighted([('data', 6), ('sa', 2), ('da', 2), ('pri', 2), ('key', 2), ('mic', 2),
                                      ('swap', 1), ('shift', 1)]),
                'how': rng.choice(['flip', 'trunc', 'ext', 'set', 'del', 'zero']), 'x': rng.bits(16),
                'y': rng.range(1, 255)}

    def start(self, k, plan):
        self.keys = [un(x) for x in plan['cfg']['keys']]
        self.shared = {}
        self.mine = {}          # (client, version) -> [object, possible keys]

    def mk(self, k, ver, key, what='create'):
        if ver == 'mic':
            r = k.call(self.m['michael'].Michael, key)
        elif ver == 'dflt':
            r = k.call(self.m['tkip_mic'].TKIP_MIC, key)
        else:
            r = k.call(self.m['tkip_mic'].TKIP_MIC, key, ver)
        if not self.must(k, r, what, 'creating a %s object' % ver):
            return None
        return r.value

    def get(self, k, who, ver, key, own):
        """an object that has this key"""
        if not own:
            i = (ver, key)
            if i not in self.shared:
                o = self.mk(k, ver, key)
                if o is None:
                    return None
                self.shared.setdefault(i, o)
            return self.shared[i]
        i = (who, ver)
        if i not in self.mine:
            o = self.mk(k, ver, None)
            if o is None:
                return None
            self.mine[i] = [o, None]
        ent = self.mine[i]
        if ent[1] != key:
            ent[1] = None
            r = k.call(ent[0].setKey, key)
            if not self.must(k, r, 'setKey', 'setting the key'):
                return None
            ent[1] = key
        return ent[0]

    def want(self, ver, key, f):
        if ver == 'mic':
            return refs.michael(key, f['data'])
        if ver == 'D2':
            return refs.michael(key, f['da'] + f['sa'] + f['data'])
        return refs.michael(key, f['da'] + f['sa'] + chr(f['pri']) + '\0\0\0' + f['data'])

    def compute(self, k, who, ver, key, own, f, call=0):
        o = self.get(k, who, ver, key, own)
        if o is None:
            return None
        if ver == 'mic':
            r = k.call(o if call else o.hash, f['data'])
        else:
            r = k.call(o.hash, f['sa'], f['da'], f['pri'], f['data'])
        if not self.must(k, r, 'hash', 'computing a %s MIC' % ver):
            return None
        w = self.want(ver, key, f)
        if not self.same(k, r.value, w, 'wrong-mic', ver, '%s, %d octets, key %s%s'
                         % (ver, len(f['data']), key.encode('hex'), ', own object' if own else ', shared object')):
            return None
        k.trace('mic', r.value.encode('hex'))
        return r.value

    def do(self, k, op, job):
        key = self.keys[op['key'] % len(self.keys)]
        f = {'data': un(op['data']), 'pri': op['pri']}
        if op['k'] == 'bad':
            return self.bad(k, op, key, f)
        if op['k'] == 'frame':
            ver = op['ver']
            f['sa'], f['da'] = (un(op['sa']) + '\0' * 6)[:6], (un(op['da']) + '\0' * 6)[:6]
        else:
            ver = 'mic'
        v = self.compute(k, op['c'], ver, key, op['own'], f, op.get('call'))
        if v is not None:
            k.send(op.get('net'), 'r%d' % op['r'], 'rx-' + self.label(op), self.rx,
                   ('r%d' % op['r'], ver, key, op['own'], f, v))

    def rx(self, job, payload, fate):
        k = job.k
        who, ver, key, own, f, mic = payload
        m = fate.get('m')
        f = dict(f)
        orig = (key, dict(f), mic)
        if m:
            k.count('net:corrupt')
            key, mic = self.corrupt(m, ver, key, f, mic)
        v = self.compute(k, who, ver, key, own, f)
        if v is None:
            return
        want = self.want(ver, key, f)
        ok = v == mic
        k.trace('rx', ok)
        if ok != (want == mic):
            k.violate('verify', ver, 'frame %s; change %r' % ('accepted' if ok else 'refused', m))
        same = (key, f, mic) == orig
        if same and not ok:
            k.violate('genuine-refused', ver, 'an unaltered frame of %d octets did not verify' % len(f['data']))
        if m and not same:
            k.count('probe:altered')

    def corrupt(self, m, ver, key, f, mic):
        p = m['part']
        if p in ('sa', 'da') and p in f:
            b = bytearray(f[p])
            b[m['x'] % 6] ^= m['y']
            f[p] = str(b)
        elif p == 'pri':
            f['pri'] = m['x'] % 16
        elif p == 'key':
            key = self.keys[m['x'] % len(self.keys)] if m['y'] & 1 else \
                ''.join(chr(ord(c) ^ (m['y'] if i == m['x'] % 8 else 0)) for i, c in enumerate(key))
        elif p == 'mic':
            b = bytearray(mic)
            b[m['x'] % 8] ^= m['y']
            mic = str(b)
        elif p == 'swap' and 'sa' in f:
            f['sa'], f['da'] = f['da'], f['sa']
        elif p == 'shift' and 'sa' in f:
            f['sa'] = f['sa'][1:] + (f['data'][:1] or '\0')
            f['data'] = f['data'][1:]
        else:
            d = bytearray(f['data'])
            how = m['how']
            i = m['x'] % len(d) if d else 0
            if how == 'flip' and d:
                d[i] ^= m['y']
            elif how == 'trunc' and d:
                d = d[:i]
            elif how == 'set' and d:
                d[i] = m['y']
            elif how == 'del' and d:
                del d[i]
            elif how == 'zero' and d:
                for j in range(i, len(d)):
                    d[j] = 0
            else:
                d += bytearray([m['y']] if m['x'] & 1 else [0] * (1 + m['x'] % 9))
            f['data'] = str(d)
        return key, mic

    def bad(self, k, op, key, f):
        """refused calls; the objects must work on as before"""
        n = op['n']
        what = op['what']
        k.count('probe:malformed')
        if what == 'keyc':
            r = k.call(self.m['tkip_mic'].TKIP_MIC, '\x5a' * (n if n != 8 else 9))
        elif what == 'mkey':
            r = k.call(self.m['michael'].Michael, '\x5a' * (n if n != 8 else 9))
        else:
            ver = op['ver']
            o = self.get(k, op['c'], ver, key, op['own'])
            if o is None:
                return
            a = {'sa': '\1' * 6, 'da': '\2' * 6, 'pri': op['pri']}
            if what == 'key':
                r = k.call(o.setKey, '\x5a' * (n if n != 8 else 9))
            else:
                if what == 'pri+':
                    a['pri'] = 16 + n
                elif what == 'pri-':
                    a['pri'] = -1 - n
                else:
                    a[what] = '\3' * (n if n != 6 else 7)
                r = k.call(o.hash, a['sa'], a['da'], a['pri'], f['data'])
        if r.ok:
            k.violate('malformed-accepted', what, 'a malformed %s was accepted' % what)
        k.trace('refused', what)
