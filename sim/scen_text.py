"""C20: octet strings travel as integers and as text."""
from base import Scenario, hx, un
from kernel import show
import refs

LONG = [('xor', 4097), ('text', 257), ('int', 300), ('xor', 65600), ('text', 1025), ('int', 1030), ('xor', 8193), ('custom', 513),
        ('text', 1400), ('int', 4100), ('xor', 1025), ('xor', 16385), ('text', 513), ('int', 2049), ('xor', 32769)]
ALPHA = {'b27': refs.B27, 'b85': refs.B85, 'b94': refs.B94}


class C20(Scenario):
    """Senders encode, the network carries (and alters) the text, receivers
    decode with the length that was announced."""
    prop = 'C20'
    modules = ('cipher.encoding', 'cipher.common', 'ecc.ecc', 'cipher.aes_cmac')
    kinds = ('net', 'sw', 'intr')
    hexkeys = ('data',)
    real = ('cipher/encoding.py', 'cipher/common.py', 'cipher/aes_cmac.py (xor)', 'ecc/ecc.py (conversions)')
    stub = ('network', 'thread scheduler', 'asynchronous exceptions')
    budget = 1000000
    max_drop = 0.1
    variants = 3

    def octets(self, rng):
        n = rng.weighted([(rng.range(1, 8), 4), (16, 3), (rng.range(1, 40), 4), (rng.range(40, 130), 0.7), (1, 1)])
        d = rng.octets(n)
        m = rng.r.random()
        if m < 0.3:
            z = rng.range(1, 4)
            d = ('\0' * z + d)[:max(n, z)]
        elif m < 0.4:
            # next to a power of the base
            b = rng.choice([27, 85, 94, 256])
            v = b ** rng.range(0, 20) + rng.choice([-1, 0, 1])
            d = refs.min_be(max(0, v)) or '\0'
        return d

    def gen(self, rng):
        ops = []
        for i in range(rng.range(2, 12)):
            kind = rng.weighted([('text', 8), ('int', 4), ('neg', 0.4), ('small', 0.6), ('custom', 1), ('xor', 1)])
            op = {'k': kind, 't': float(i // 2 + rng.below(3)), 'c': 's%d' % rng.below(3), 'r': rng.below(3),
                  'data': hx(self.octets(rng)), 'mod': rng.choice(['encoding', 'common', 'ecc']),
                  'enc': rng.choice(['b27', 'b85', 'b94']), 'pad': rng.weighted([(0, 6), (1, 1), (5, 1)])}
            if kind == 'custom':
                op['al'] = hx(rng.choice(['01', '0123456789abcdef', '0123456789', 'ZYX', refs.B94[::-1],
                                       ''.join(map(chr, range(256)))]))
            elif kind == 'xor':
                d = self.octets(rng)
                if rng.chance(0.7):
                    d = (d * (len(op['data']) // 2))[:len(op['data']) // 2] or d
                op.update(other=hx(d), fn=rng.choice(['common.xor', 'aes_cmac.xor', 'common.xor_min']))
                if rng.chance(0.1):
                    op[rng.choice(['data', 'other'])] = ''
            if rng.chance(0.3):
                rng.like(op, ops, ('data', 'mod', 'enc', 'pad', 'al', 'other', 'fn'))
                if kind == 'xor' and len(op['data']) != len(op['other']) and rng.chance(0.8):
                    # one of them is as before
                    d = hx(self.octets(rng) * 130)
                    a, b = rng.shuffled(['data', 'other'])
                    op[b] = d[:len(op[a])]
            ops.append(op)
        long = rng.swept(LONG, 40, 3)
        if long:
            d = rng.octets(long[1])
            op = dict(ops[0], k=long[0], data=hx(d))
            if long[0] == 'custom':
                op['al'] = hx('0123456789')
            if long[0] == 'xor':
                op.update(other=hx(d[::-1]), fn=rng.choice(['common.xor', 'aes_cmac.xor', 'common.xor_min']))
            ops[0] = op
        ops.sort(key=lambda o: o['t'])
        return {'cfg': {}, 'ops': ops}

    def sends(self, op):
        return op['k'] in ('text', 'int', 'custom')

    def mutation(self, rng, prof):
        if not rng.chance(max(0.3, prof['net'])):
            return None
        return {'how': rng.choice(['alien', 'alien', 'aliens', 'insert', 'other', 'drop', 'dup', 'lead']),
                'x': rng.bits(16), 'y': rng.below(256)}

    def start(self, k, plan):
        pass

    def xor(self, k, op):
        a, b = un(op['data']), un(op['other'])
        mod, name = op['fn'].split('.')
        r = k.call(getattr(self.m[mod], name), a, b)
        if len(a) != len(b) and name == 'xor':
            k.count('probe:malformed')
            if r.ok:
                k.violate('truncated', op['fn'], 'strings of %d and %d octets: %s' % (len(a), len(b), show(r.value)))
            return
        if self.must(k, r, op['fn'], 'combining %d and %d octets' % (len(a), len(b))):
            self.same(k, r.value, refs.xor(a, b), 'wrong-octets', op['fn'], '%s of %d and %d octets'
                      % (op['fn'], len(a), len(b)))
            k.trace('xor', r.value.encode('hex'))

    def do(self, k, op, job):
        if op['k'] == 'xor':
            self.xor(k, op)
            return
        d = un(op['data']) or '\0'
        m = self.m[op['mod']]
        if op['k'] == 'text':
            r = k.call(getattr(self.m['encoding'], op['enc'] + 'encode'), d)
            al = ALPHA[op['enc']]
        elif op['k'] == 'custom':
            al = un(op['al'])
            r = k.call(self.m['encoding'].base_N_encode, d, al)
        elif op['k'] == 'int':
            r = k.call(m.string_to_int, d)
            if self.must(k, r, 'string_to_int', 'converting %d octets' % len(d)) and \
                    self.same(k, r.value, refs.be(d), 'wrong-integer', 'string_to_int', 'integer of ' + show(d)):
                k.trace('int', r.value)
                k.send(op.get('net'), 'r%d' % op['r'], 'rx-' + self.label(op), self.rx_int, (op, d, r.value))
            return
        elif op['k'] == 'neg':
            r = k.call(m.int_to_string, -1 - refs.be(d))
            k.count('probe:malformed')
            if r.ok:
                k.violate('negative-accepted', 'int_to_string', 'a negative integer became %s' % show(r.value))
            return
        else:
            # a length that cannot hold the value
            v = refs.be(d) + 256
            n = len(refs.min_be(v)) - 1
            r = k.call(m.int_to_string, v, n)
            k.count('probe:malformed')
            if r.ok:
                k.violate('truncated', 'int_to_string', '%d was converted to %d octets: %s' % (v, n, show(r.value)))
            return
        if not self.must(k, r, 'encode', 'encoding %s' % show(d)):
            return
        what = '%s of %s' % (op['enc'] if op['k'] == 'text' else 'base %d text' % len(al), show(d))
        t = r.value
        if not isinstance(t, str):
            k.violate('not-text', op['enc'], '%s is %s' % (what, show(t)))
            return
        if [c for c in t if c not in al]:
            k.violate('alien-character', op['enc'], '%s is %r' % (what, t))
            return
        if not self.same(k, t.lstrip(al[0]), refs.base_n(refs.be(d), al), 'wrong-text', op['enc'], what):
            return
        k.trace('text', t.encode('hex'))
        k.send(op.get('net'), 'r%d' % op['r'], 'rx-' + self.label(op), self.rx_text, (op, d, t, al))

    def rx_int(self, job, payload, fate):
        k = job.k
        op, d, v = payload
        m = self.m[op['mod']]
        n = len(d) + op['pad']
        r = k.call(m.int_to_string, v, n)
        if self.must(k, r, 'int_to_string', 'converting %d back' % v):
            self.same(k, r.value, '\0' * op['pad'] + d, 'wrong-octets', 'int_to_string',
                      '%s, %d octets' % (op['mod'], n))
        r = k.call(m.int_to_string, v)
        if self.must(k, r, 'int_to_string', 'converting %d back' % v):
            self.same(k, r.value, d.lstrip('\0') or '\0', 'wrong-octets', 'int_to_string', '%s, no length' % op['mod'])

    def decode(self, op, al):
        if op['k'] == 'text':
            return getattr(self.m['encoding'], op['enc'] + 'decode')
        f = self.m['encoding'].base_N_decode
        return lambda t, pad=None: f(t, al, pad)

    def rx_text(self, job, payload, fate):
        k = job.k
        op, d, t, al = payload
        m = fate.get('m')
        orig = t
        if m:
            t = self.corrupt(m, t, al)
            k.count('net:corrupt')
        f = self.decode(op, al)
        pad = len(d) + op['pad']
        alien = [c for c in t if c not in al]
        what = '%s text of %d characters' % (op['enc'] if op['k'] == 'text' else 'base %d' % len(al), len(t))
        r = k.call(f, t, pad)
        k.trace('rx', bool(alien), r.ok)
        if alien:
            if r.ok:
                k.violate('alien-accepted', op['enc'], '%s with character %r was decoded to %s'
                          % (what, alien[0], show(r.value)))
            else:
                k.count('probe:refused')
            return
        v = 0
        for c in t:
            v = v * len(al) + al.index(c)
        if t != orig and len(refs.min_be(v)) > pad:
            if r.ok:
                k.violate('truncated', op['enc'], '%s stands for more than %d octets but decoded to %s'
                          % (what, pad, show(r.value)))
            return
        want = '\0' * op['pad'] + d if t == orig else refs.to_be(v, pad)
        if self.must(k, r, 'decode', 'decoding ' + what):
            self.same(k, r.value, want, 'wrong-octets', op['enc'], 'decoding %s, %d octets' % (what, pad))

    def corrupt(self, m, t, al):
        x = m['x']
        i = x % len(t) if t else 0
        how = m['how']
        aliens = [c for c in map(chr, range(256)) if c not in al]
        if how in ('alien', 'insert', 'aliens') and not aliens:
            how = 'other'
        if how == 'alien' and t:
            return t[:i] + aliens[m['y'] % len(aliens)] + t[i + 1:]
        if how == 'insert' or (how == 'alien' and not t):
            i = x % (len(t) + 1)
            return t[:i] + aliens[m['y'] % len(aliens)] + t[i:]
        if how == 'aliens':
            # the likely ones: what a mail system or a reader would put there
            c = [a for a in ' \n\t\r\0"\',./:[\\]lIOo01\x7f\xa0' if a in aliens] or aliens
            c = c[m['y'] % len(c)]
            i = [0, len(t), x % (len(t) + 1)][x % 3]
            return t[:i] + c + t[i:]
        if how == 'drop' and t:
            return t[:i] + t[i + 1:]
        if how == 'dup' and t:
            return t[:i] + t[i] + t[i:]
        if how == 'lead':
            return al[0] * (1 + x % 4) + t
        if t:
            return t[:i] + al[m['y'] % len(al)] + t[i + 1:]
        return al[m['y'] % len(al)]
