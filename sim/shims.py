"""Stand-ins for packages that nymble/cryptopy imports but that are not part of
the repository and not installed here: a block-cipher device (PyCrypto's AES
interface, on the Java runtime's AES, with injectable failures) and the old
`crypto.*` package's hash objects (on hashlib).  Everything else under the old
`crypto.*` names is the repository's own file (see kernel.ALIASES)."""
import hashlib
from javax.crypto import Cipher
from javax.crypto.spec import SecretKeySpec
from jarray import array
import refs

NAMES = set(['Crypto', 'Crypto.Cipher', 'Crypto.Cipher.AES',
             'crypto', 'crypto.hash', 'crypto.hash.hash', 'crypto.hash.sha1Hash',
             'crypto.hash.md5Hash', 'crypto.keyedHash', 'crypto.cipher',
             'crypto.cipher.rijndael', 'binascii_plus'])


class _AES(object):
    block_size = 16

    def __init__(self, k, key, mode=1, iv=None):
        if not isinstance(key, str) or len(key) not in (16, 24, 32):
            raise ValueError('AES key must be either 16, 24, or 32 bytes long')
        if mode != 1:
            raise ValueError('only ECB in this stand-in')
        self.mode = mode
        self.key_size = len(key)
        self._k = k
        self._e = refs.aes_enc(key)
        self._c = Cipher.getInstance('AES/ECB/NoPadding')
        self._c.init(Cipher.DECRYPT_MODE, SecretKeySpec(refs._ba(key), 'AES'))

    def encrypt(self, data):
        if len(data) % 16:
            raise ValueError('Input strings must be a multiple of 16 in length')
        out = []
        for i in range(0, len(data), 16):
            self._k.device_call()
            out.append(self._e(data[i:i + 16]))
        return ''.join(out)

    def decrypt(self, data):
        if len(data) % 16:
            raise ValueError('Input strings must be a multiple of 16 in length')
        out = []
        for i in range(0, len(data), 16):
            self._k.device_call()
            out.append(self._c.doFinal(refs._ba(data[i:i + 16])).tostring())
        return ''.join(out)


class Hash(object):
    """the conventions of the old crypto.hash package"""

    def __init__(self):
        raise NotImplementedError('must be overloaded')

    def reset(self):
        raise NotImplementedError('must be overloaded')

    def __call__(self, data, more=None):
        return self.hash(data, more)

    def hash(self, data, more=None):
        if more is None:
            self.reset()
        self.update(data)
        return self.digest()


def _mk(hname, cname, size, k):
    # the old package's hashes are Python code: a thread can lose the processor
    # (and an asynchronous exception arrive) inside them
    at = k.stub_points(cname)

    class H(Hash):
        def __init__(self):
            self.name = cname
            self.blocksize = 1
            self.raw_block_size = 64
            self.digest_size = size
            self.reset()

        def reset(self):
            k.point(at[0])
            self._h = hashlib.new(hname)

        def update(self, data):
            k.point(at[1])
            self._h.update(data)

        def digest(self):
            k.point(at[2])
            return self._h.digest()
    H.__name__ = cname
    return H


def fill(name, m, k):
    d = m.__dict__
    if name == 'Crypto.Cipher.AES':
        d['block_size'] = 16
        d['key_size'] = (16, 24, 32)
        d['MODE_ECB'] = 1
        d['MODE_CBC'] = 2
        d['MODE_CTR'] = 6
        d['new'] = lambda key, mode=1, *a, **kw: _AES(k, key, mode)
    elif name == 'crypto.hash.hash':
        d['Hash'] = Hash
    elif name == 'crypto.hash.sha1Hash':
        d['SHA1'] = _mk('sha1', 'SHA1', 20, k)
    elif name == 'crypto.hash.md5Hash':
        d['MD5'] = _mk('md5', 'MD5', 16, k)
    elif name == 'crypto.cipher.rijndael':
        d['Sbox'] = list(refs.AES_SBOX)
    elif name == 'binascii_plus':
        import binascii
        for n in ('hexlify', 'unhexlify', 'b2a_hex', 'a2b_hex', 'b2a_base64', 'a2b_base64', 'crc32'):
            d[n] = getattr(binascii, n)
        d['a2b_p'] = lambda s: ''.join(s.split()).decode('hex')
        d['b2a_p'] = lambda s: ' '.join(c.encode('hex') for c in s)
