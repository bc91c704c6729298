"""Cooperative replacements for `threading`/`thread`, should the code under
test use locks or thread-local storage: blocking is decided by the kernel, and
a simulated client (not the Java thread that happens to run it) is the thread."""
import types


class _Lock(object):
    def __init__(self, k, re):
        self.k = k
        self.re = re
        self.owner = None
        self.n = 0

    def _me(self):
        j = self.k.cur
        return ('job', id(j)) if j is not None else 'main'

    def acquire(self, blocking=1, timeout=-1):
        me = self._me()
        if self.owner is not None:
            if self.re and self.owner == me:
                self.n += 1
                return True
            if not blocking:
                return False
            self.k.count('lock:contended')
            self.k.block(lambda: self.owner is None)
        self.owner = me
        self.n = 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.n -= 1
        if self.n == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class _Thread(object):
    def __init__(self, name):
        self.name = name
        self.ident = hash(name) & 0xffff
        self.daemon = False

    def getName(self):
        return self.name


def facade(k, modname):
    m = types.ModuleType(modname)

    def ident():
        j = k.cur
        return 1 + (sum(ord(c) * 31 ** i for i, c in enumerate(str(j.client))) % 100003) if j is not None else 0

    class local(object):
        def _d(self):
            j = k.cur
            c = j.client if j is not None else None
            d = k.tls.setdefault(id(self), {})
            return d.setdefault(c, {})

        def __getattr__(self, n):
            if n.startswith('__'):
                raise AttributeError(n)
            try:
                return self._d()[n]
            except KeyError:
                raise AttributeError(n)

        def __setattr__(self, n, v):
            self._d()[n] = v

        def __delattr__(self, n):
            self._d().pop(n)

    m.Lock = lambda: _Lock(k, False)
    m.RLock = lambda *a: _Lock(k, True)
    m.allocate_lock = m.Lock
    m.local = local
    m._local = local
    m.get_ident = ident
    m.currentThread = m.current_thread = lambda: _Thread('c%d' % ident())
    m.error = RuntimeError
    m.ThreadError = RuntimeError
    return m
