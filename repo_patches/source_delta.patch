From 46919956968787cac79516a5b1195e6ea06d2f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:41 +0000
Subject: [PATCH 01/30] fix: ChaCha replaced an explicitly given empty nonce by
 a random one

Only a missing nonce is drawn from urandom now; a nonce of the wrong
length, the empty one included, is rejected like any other.
---
 cipher/chacha_poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cipher/chacha_poly.py b/cipher/chacha_poly.py
index 7ec1698..5e674bc 100644
--- a/cipher/chacha_poly.py
+++ b/cipher/chacha_poly.py
@@ -228,7 +228,7 @@ class ChaCha(object):
 
     def __init__(self, key, counter=0, nonce=None):
         """ Random nonce if not provided. """
-        if not nonce:
+        if nonce is None:
             nonce = urandom(12)
         
         self.initialize( key, counter, nonce )
-- 
2.43.0


From d9ebfdbf1db0398a9780e3d838b47c43beb284f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:41 +0000
Subject: [PATCH 02/30] fix: ChaCha produced output beyond the end of the
 32-bit block counter

The key stream after block 2**32-1 is not a ChaCha20 key stream of the key
and nonce. Raise ValueError instead.
---
 cipher/chacha_poly.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cipher/chacha_poly.py b/cipher/chacha_poly.py
index 5e674bc..a96cc9c 100644
--- a/cipher/chacha_poly.py
+++ b/cipher/chacha_poly.py
@@ -189,6 +189,9 @@ class ChaCha(object):
             A key stream of 256 bytes is returned as
             a function of the current state matrix.
         """
+        # the block counter is one 32-bit word, beyond it key stream would repeat
+        if not 0 <= self.state[12] <= 0xFFFFFFFF:
+            raise ValueError('ChaCha20 block counter out of range')
         working_state = list(self.state) # a copy of state
 
         for i in range(10):
-- 
2.43.0


From 5ccc5ffae3e7b5bf01780beea5383b7050f8b643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:41 +0000
Subject: [PATCH 03/30] fix: ChaCha20_AEAD.decrypt computed the tag over the
 plain text

The Poly1305 tag is defined over the cipher text, so the tag decrypt()
returned never matched the one encrypt() had produced.
---
 cipher/chacha_poly.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cipher/chacha_poly.py b/cipher/chacha_poly.py
index a96cc9c..44276a0 100644
--- a/cipher/chacha_poly.py
+++ b/cipher/chacha_poly.py
@@ -556,8 +556,13 @@ class ChaCha20_AEAD(object):
         return (cipher_text, tag)
     
     def decrypt(self, aad, iv, cipher_text):
-        """ decrypt is same as encrypt """
-        return self.encrypt(aad, iv, cipher_text)
+        """ Returns the plain text and the tag calculated over the
+            received cipher text, for comparison with the received tag.
+        """
+        chacha20 = ChaCha(self.__key, counter=1, nonce=self.constant + iv)
+        plain_text = chacha20.decrypt( cipher_text )
+        tag = ChaCha20_AEAD.encrypt(self, aad, iv, plain_text)[1]
+        return (plain_text, tag)
     
 class ChaCha_Poly_AEAD(ChaCha20_AEAD):
     """ """
-- 
2.43.0


From 31e8292ca54ca475ddd4e8dad2016791a538375b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:41 +0000
Subject: [PATCH 04/30] fix: ChaCha_Poly_AEAD could neither encrypt nor decrypt

It used super() without arguments (Python 3 only) and undefined names, cut
the packet wrongly and returned no plain text.
---
 cipher/chacha_poly.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/cipher/chacha_poly.py b/cipher/chacha_poly.py
index 44276a0..dc94680 100644
--- a/cipher/chacha_poly.py
+++ b/cipher/chacha_poly.py
@@ -565,16 +565,24 @@ class ChaCha20_AEAD(object):
         return (plain_text, tag)
     
 class ChaCha_Poly_AEAD(ChaCha20_AEAD):
-    """ """
+    """ Combined form, packets are: iv | cipher_text | tag """
+    tag_length = 16
+
     def encrypt(self, aad, iv, plain_text):
-        cipher_text, tag = super().encrypt(aad, iv, plain_text)
+        cipher_text, tag = ChaCha20_AEAD.encrypt(self, aad, iv, plain_text)
         return iv + cipher_text + tag
     
     def decrypt(self, aad, iv_cipher_text_tag):
-        iv = iv_cipher_text_tag[0:]
-        tag = iv_cipher_text_tag[-tag_length:]
-        plain_text, calculated_tag = super().encrypt(aad, iv, plain_text)
-        assert tag == calculated_tag
+        iv_length = 12 - len(self.constant)
+        if len(iv_cipher_text_tag) < iv_length + self.tag_length:
+            raise ValueError('packet too short')
+        iv = iv_cipher_text_tag[:iv_length]
+        cipher_text = iv_cipher_text_tag[iv_length:-self.tag_length]
+        tag = iv_cipher_text_tag[-self.tag_length:]
+        plain_text, calculated_tag = ChaCha20_AEAD.decrypt(self, aad, iv, cipher_text)
+        if tag != calculated_tag:
+            raise ValueError('authentication tag does not match')
+        return plain_text
 
 
     """
-- 
2.43.0


From 6669bc220d9828cf9b9b44baf828fbec7c8b19d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:16 +0000
Subject: [PATCH 05/30] fix: AES-CMAC failed for keys whose sub-keys have
 leading zero octets

The sub-keys were not padded to the block size, so aes_cmac() and AES-SIV
raised an AssertionError for about one key in 128.
---
 cipher/aes_cmac.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cipher/aes_cmac.py b/cipher/aes_cmac.py
index 55b1610..99e0817 100644
--- a/cipher/aes_cmac.py
+++ b/cipher/aes_cmac.py
@@ -54,8 +54,8 @@ def subkey(key, CIPH=AES):
     else:      # xor only if high bit set
         k2 = ((k1<<1) & 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF) ^ 0x87 
 
-    k1 = int_to_string(k1)
-    k2 = int_to_string(k2)
+    k1 = int_to_string(k1, padto=block_size)
+    k2 = int_to_string(k2, padto=block_size)
     return k1, k2
 
 def pad(octet_string, block_size=16):
-- 
2.43.0


From 919c73e78f566d5f34e50b7911e3455979c087ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:02 +0000
Subject: [PATCH 06/30] fix: encoding points as octets raised a NameError

ellipticcurve.py used int_to_string() without having it. The two octet
string conversions move there from ecc.py (which still provides them), and
zero is padded like every other value.
---
 ecc/ecc.py           | 27 +--------------------------
 ecc/ellipticcurve.py | 23 +++++++++++++++++++++++
 2 files changed, 24 insertions(+), 26 deletions(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index e51ac1a..4927c72 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -21,7 +21,7 @@
 
     Copyright Paul A. Lambert 2017
 """
-from ellipticcurve import EllipticCurveFp
+from ellipticcurve import EllipticCurveFp, int_to_string, string_to_int
 from numbertheory import square_root_mod_prime
 from os import urandom
 
@@ -303,28 +303,3 @@ def cswap(x2, x3, bit):
     x2 = x2 - dummy
     x3 = x3 + dummy
     return (x2, x3)
-
-def int_to_string( x, padto=None ):
-    """ Convert integer x into a string of bytes, as per X9.62.
-        If 'padto' defined, result is zero padded to this length.
-    """
-    assert x >= 0
-    if x == 0: return chr(0)
-    result = ""
-    while x > 0:
-        q, r = divmod( x, 256 )
-        result = chr( r ) + result
-        x = q
-    if padto:
-        padlen = padto - len(result)
-        assert padlen >= 0
-        result = padlen*chr(0) + result
-    return result
-
-def string_to_int( octet_string ):
-    """ Convert a string of bytes into an integer, as per X9.62. """
-    long_int = 0L
-    for c in octet_string:
-        long_int = 256 * long_int + ord( c )
-    return long_int
-
diff --git a/ecc/ellipticcurve.py b/ecc/ellipticcurve.py
index eb6d2fc..794fe93 100755
--- a/ecc/ellipticcurve.py
+++ b/ecc/ellipticcurve.py
@@ -23,6 +23,29 @@ from numbertheory import inverse_mod, square_root_mod_prime
 
 class EllipticCurveError(Exception): pass
 
+def int_to_string( x, padto=None ):
+    """ Convert integer x into a string of bytes, as per X9.62.
+        If 'padto' defined, result is zero padded to this length.
+    """
+    assert x >= 0
+    result = chr(0) if x == 0 else ""
+    while x > 0:
+        q, r = divmod( x, 256 )
+        result = chr( r ) + result
+        x = q
+    if padto:
+        padlen = padto - len(result)
+        assert padlen >= 0
+        result = padlen*chr(0) + result
+    return result
+
+def string_to_int( octet_string ):
+    """ Convert a string of bytes into an integer, as per X9.62. """
+    long_int = 0L
+    for c in octet_string:
+        long_int = 256 * long_int + ord( c )
+    return long_int
+
 class EllipticCurve(object):
     """ Base class for elliptic curves. """
     def point(self, x, y, validate=True):
-- 
2.43.0


From 89f71e3ab2726644fcf0d5eec0ccce79b08ac3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:02 +0000
Subject: [PATCH 07/30] fix: Weierstrass points: negation and doubling of
 special points

The negative of a point had a y outside 0..p-1, so it was unequal to the
same point reached another way. Negating or doubling the identity and
doubling a point of order two raised exceptions.
---
 ecc/ecc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index 4927c72..5d4d43b 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -62,12 +62,16 @@ class SmallWeierstrassCurveFp( EllipticCurveFp ):
 
     def negate(curve, point):
         """ Negate a point """
-        return curve.point( point.x, -point.y )
+        if point == curve.IDENTITY:
+            return point
+        return curve.point( point.x, -point.y % curve.p )
 
     def double_point(curve, point):
         """Return a new point that is twice the old (X9.62 B.3)."""
         p = curve.p; a = curve.a; inv = curve.inverse
         x = point.x; y = point.y
+        if point == curve.IDENTITY or y % p == 0:  # identity or point of order two
+            return curve.IDENTITY
 
         l = ( (3*x*x + a) * inv(2*y) ) % p
         x3 = (l*l - 2*x) % p
-- 
2.43.0


From 8acaccc4199276b7db37d87ab37226e8632cbd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:02 +0000
Subject: [PATCH 08/30] fix: Weierstrass scalar multiples were wrong for points
 outside <G>

The scalar was reduced modulo the order of the generator also for points of
another order (on curves with a cofactor).
---
 ecc/ecc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index 5d4d43b..eabf39d 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -87,8 +87,9 @@ class SmallWeierstrassCurveFp( EllipticCurveFp ):
             while result <= x: result = 2 * result
             return result / 2
 
+        if scalar < 0:
+            return curve.scalar_multiple( -point, -scalar )
         e = scalar
-        e = e % point.curve.n
         if e == 0:
             return INFINITY
         if point == INFINITY:
@@ -96,7 +97,7 @@ class SmallWeierstrassCurveFp( EllipticCurveFp ):
         assert e > 0
 
         e3 = 3 * e
-        negative_self = curve.point( point.x, -point.y )
+        negative_self = -point
         i = leftmost_bit( e3 ) / 2
         result = point
         while i > 1:
-- 
2.43.0


From 93ad5e983455729982edf961edb31c6670a0248d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:02 +0000
Subject: [PATCH 09/30] fix: Edwards curves were unusable

Wrong curve equation and identity, a call of a method that does not exist,
unreduced negatives and no check that both operands are on one curve.
---
 ecc/ecc.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index eabf39d..166de98 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -148,10 +148,11 @@ class TwistedEdwardsCurveFp( EllipticCurveFp ):
 
         #return  (a*x**2 + y*y - 1 - d*x*x*y*y)  % p == 0
         xx = x*x
-        return  (a*xx - 1 + y*(1 - d*xx*y))  % p == 0
+        return  (a*xx - 1 + y*(y - d*xx*y))  % p == 0
 
     def add_points(curve, p1, p2):
         """ Add two points on the curve """
+        assert p1.curve == p2.curve    # points must be on the same curve
         x1 = p1.x;  x2 = p2.x;  y1 = p1.y;  y2 = p2.y
         d = curve.d; a = curve.a; p = curve.p; inv = curve.inverse
 
@@ -162,7 +163,7 @@ class TwistedEdwardsCurveFp( EllipticCurveFp ):
 
     def negate(curve, p):
         """ Negate a point """
-        return curve.point(-p.x, p.y)
+        return curve.point(-p.x % curve.p, p.y)
 
     def double_point(curve, point):
         """ Return a new point that is twice the old """
@@ -179,7 +180,7 @@ class TwistedEdwardsCurveFp( EllipticCurveFp ):
     def scalar_multiple(curve, point, scalar):
         if scalar == 0:
             return curve.IDENTITY
-        q = curve.scalarmult(point, scalar/2)
+        q = curve.scalar_multiple(point, scalar/2)
         q = q + q
         if scalar & 1:
             q = q + point
@@ -187,7 +188,7 @@ class TwistedEdwardsCurveFp( EllipticCurveFp ):
 
     def identity(curve):
         """ The additive identity """
-        return curve.point(0,-1)
+        return curve.point(0, 1)
 
 class EdwardsCurveFp( TwistedEdwardsCurveFp ):
     """ An Edwards curve is a Twisted Edwards curve with a = 1
-- 
2.43.0


From b83d30b1479decb89e45c4584f9bb6f0b6666cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:02 +0000
Subject: [PATCH 10/30] fix: Montgomery curves: identity, negation and special
 cases of addition

(0,-1) is on no Montgomery curve, so no curve object could be created. The
negative of (x,y) is (x,-y), and adding a point to its negative gives the
identity.
---
 ecc/ecc.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index 166de98..411ca43 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -204,12 +204,15 @@ class MontgomeryCurveFp( EllipticCurveFp ):
     """
     def on_curve(curve, g):
         """ Is the point 'g' on the curve? """
+        if g == curve.IDENTITY:
+            return True
         x = g.x; y = g.y; a = curve.a; p = curve.p; x_sqrd = x*x
 
         return (y*y) % p == (x*x_sqrd + a*x_sqrd + x) % p
 
     def add_points(curve, p1, p2):
         """ Montgomery elliptic curve point addition"""
+        assert p1.curve == p2.curve    # points must be on the same curve
         if p2 == curve.IDENTITY:
             return p1
         if p1 == curve.IDENTITY:
@@ -219,11 +222,10 @@ class MontgomeryCurveFp( EllipticCurveFp ):
         a = curve.a; p = curve.p; inv = curve.inverse
 
         if x1 == x2:
-            if y1 == y2:
-                return p1.double()
+            if ( y1 + y2 ) % p == 0:
+                return curve.IDENTITY
             else:
-                assert y1 + y2 == 0
-                return p1
+                return p1.double()
         l = (y2-y1)*inv(x2-x1)
         x3 = l**2 - a - x1 - x2
         y3 = l*(x1 - x3) - y1
@@ -231,13 +233,17 @@ class MontgomeryCurveFp( EllipticCurveFp ):
 
     def negate(curve, p1):
         """ Negate a point """
-        return curve.point(-p1.x % p, p1.y)
+        if p1 == curve.IDENTITY:
+            return p1
+        return curve.point(p1.x, -p1.y % curve.p)
 
     def double_point(curve, point):
         """ Return a new point that is twice the old
         """
         x1 = point.x; y1 = point.y; a = curve.a; inv = curve.inverse
         p = curve.p
+        if point == curve.IDENTITY or y1 % p == 0:  # identity or point of order two
+            return curve.IDENTITY
 
         l = (3*x1*x1 + 2*a*x1 + 1)*inv(2*y1)
         x3 = l*l - a - 2*x1
@@ -255,7 +261,7 @@ class MontgomeryCurveFp( EllipticCurveFp ):
 
     def identity(curve):
         """ The additive identity """
-        return curve.point(0,-1)
+        return curve.point(None, None, validate=False)
 
     def montgomery_ladder(curve, scalar, point):
         """ Scalar multiplication on a Montgomery curve
-- 
2.43.0


From 6616b3a8e658b2aade697a09ddc9f5e7895ce779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:02 +0000
Subject: [PATCH 11/30] fix: Montgomery ladders

The ladders never reduced modulo p (and so never finished), silently dropped
scalar bits above 255, and the second one used undefined names, wrong
starting values and a wrong final inversion.
---
 ecc/ecc.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index 411ca43..e36e547 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -269,15 +269,15 @@ class MontgomeryCurveFp( EllipticCurveFp ):
         x1 = point.x; a = curve.a; p = curve.p
 
         x2,z2,x3,z3 = 1, 0, point.x, 1
-        for i in reversed(range(255)):
+        for i in reversed(range(max(p.bit_length(), scalar.bit_length()))):
             bit = 1 & (scalar >> i)
             x2, x3 = cswap(x2, x3, bit)
             z2, z3 = cswap(z2, z3, bit)
-            x3, z3 = ((x2*x3 - z2*z3)**2,  x1*(x2*z3 - z2*x3)**2)
-            x2, z2 = ((x2**2 - z2**2)**2,  4*x2*z2*(x2**2 + a*x2*z2+z2**2))
+            x3, z3 = ((x2*x3 - z2*z3)**2 % p,  x1*(x2*z3 - z2*x3)**2 % p)
+            x2, z2 = ((x2**2 - z2**2)**2 % p,  4*x2*z2*(x2**2 + a*x2*z2+z2**2) % p)
             x2, x3 = cswap(x2, x3, bit)
             z2, z3 = cswap(z2, z3, bit)
-        return ( x2*z2**(p-2) ) % p
+        return ( x2*pow(z2, p-2, p) ) % p
 
     def montgomery_ladder2(curve, scalar, point):
         """
@@ -285,10 +285,10 @@ class MontgomeryCurveFp( EllipticCurveFp ):
             methods of factorization", page 261, fifth and sixth displays,
             plus common-subexpression elimination, plus assumption Z1=1.
         """
-        x1 = point.x; a = curve.a; p = curve.p
-        a24 = (a - 2) / 4
-        x_2, z_2, x_3, z_3 = 0, 1, x_1, 1
-        for t in reversed(range(255)):
+        x_1 = point.x; a = curve.a; p = curve.p
+        a24 = (a - 2) * curve.inverse(4)
+        x_2, z_2, x_3, z_3 = 1, 0, x_1, 1
+        for t in reversed(range(max(p.bit_length(), scalar.bit_length()))):
             s_t = 1 & (scalar >> t)
             (x_2, x_3) = cswap(x_2, x_3, s_t)
             (z_2, z_3) = cswap(z_2, z_3, s_t)
@@ -301,13 +301,13 @@ class MontgomeryCurveFp( EllipticCurveFp ):
             D = x_3 - z_3
             DA = D * A
             CB = C * B
-            x_3 = (DA + CB)**2
-            z_3 = x_1 * (DA - CB)**2
-            x_2 = AA * BB
-            z_2 = E * (AA + a24 * E)   #BB?
+            x_3 = (DA + CB)**2 % p
+            z_3 = x_1 * (DA - CB)**2 % p
+            x_2 = AA * BB % p
+            z_2 = E * (AA + a24 * E) % p
             (x_2, x_3) = cswap (x_2, x_3, s_t)
             (z_2, z_3) = cswap (z_2, z_3, s_t)
-        return (x_2 * (z_2**(p - 1))) % p
+        return (x_2 * pow(z_2, p - 2, p)) % p
 
 def cswap(x2, x3, bit):
     """ Swap routine used by Montgomery Ladder """
-- 
2.43.0


From e7b36c11fe536f696d09cf6190417130f3d9f95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:02 +0000
Subject: [PATCH 12/30] fix: the curve M511 had no coefficient a

y**2 == x**3+530438*x**2+x mod 2**511-187
---
 ecc/curves.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecc/curves.py b/ecc/curves.py
index f5b4746..438ceea 100755
--- a/ecc/curves.py
+++ b/ecc/curves.py
@@ -718,6 +718,7 @@ class M511( MontgomeryCurveFp ):
     strength = 254
     oid = None
     p  = 2**511-187
+    a  = 530438
     xG = 5
     yG = 2500410645565072423368981149139213252211568685173608590070979264248275228603899706950518127817176591878667784247582124505430745177116625808811349787373477
     n  = 2**508 + 10724754759635747624044531514068121842070756627434833028965540808827675062043
-- 
2.43.0


From 1208c682fae56e6bba2ad0cde761b0400550ed48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:02 +0000
Subject: [PATCH 13/30] fix: n of the GOSTmsg05975 curves was not the order of
 the generator

For GOSTmsg05975te it was that of the twist, for GOSTmsg05975sw the number of
all points. Scalars in 1..n-1 could give the identity.
---
 ecc/curves.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecc/curves.py b/ecc/curves.py
index 438ceea..6453720 100755
--- a/ecc/curves.py
+++ b/ecc/curves.py
@@ -335,8 +335,7 @@ class GOSTmsg05975te( TwistedEdwardsCurveFp ):
     a = 1  # was e in msg
     n  = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF26336E91941AAC0130CEA7FD451D40B323B6A79E9DA6849A5188F3BD1FC08FB4
     q  = 0x3FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFC98CDBA46506AB004C33A9FF5147502CC8EDA9E7A769A12694623CEF47F023ED
-    #???
-    n  = 0x40000000000000000000000000000000000000000000000000000000000000003673245b9af954ffb3cc5600aeb8afd33712561858965ed96b9dc310b80fdaf7
+    n  = q  # order of the generator (a prime factor of the order of the twist is 0x4000...daf7)
     xG = 0x12
     yG = 0x469AF79D1FB1F5E16B99592B77A01E2A0FDFB0D01794368D9A56117F7B38669522DD4B650CF789EEBF068C5D139732F0905622C04B2BAAE7600303EE73001A3D
     h = 4  # n = h*q
@@ -363,6 +362,7 @@ class GOSTmsg05975sw( SmallWeierstrassCurveFp ):
     yG = 0xF5CE40D95B5EB899ABBCCFF5911CB8577939804D6527378B8C108C3D2090FF9BE18E2D33E3021ED2EF32D85822423B6304F726AA854BAE07D0396E9A9ADDC40F
     n  = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF26336E91941AAC0130CEA7FD451D40B323B6A79E9DA6849A5188F3BD1FC08FB4
     q  = 0x3FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFC98CDBA46506AB004C33A9FF5147502CC8EDA9E7A769A12694623CEF47F023ED
+    n  = q  # order of the generator, there are h*q points
     h = 4
 
     
-- 
2.43.0


From 9537efe4f1a97e3fb6f5f5312fae0a7050bf4d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:02 +0000
Subject: [PATCH 14/30] fix: Ed25519 had no usable parameters

d was 1 (not an elliptic curve at all) and the generator was that of
Curve25519. Use the curve of RFC 8032.
---
 ecc/curves.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ecc/curves.py b/ecc/curves.py
index 6453720..3defbd7 100755
--- a/ecc/curves.py
+++ b/ecc/curves.py
@@ -662,16 +662,16 @@ class Curve25519( MontgomeryCurveFp ):
     h  = 8
     
     
-class Ed25519( EdwardsCurveFp ):
-    """ (x**2 + y**2) % p == (1 + 121665/121666)*x**2 * y**2) % p """
+class Ed25519( TwistedEdwardsCurveFp ):
+    """ -x**2 + y**2 == 1 - (121665/121666)*x**2 * y**2  mod 2**255-19, RFC 8032 """
     curveId = 'Ed25519'
     strength = 126
     oid = None
     p  = 2**255 - 19
-    d =  1      #  d = (121665/121666) % p
-    xG = 9
-    yG = 14781619447589544791020593568409986887264606134616475288964881837755586237401
-    yG = 0x20ae19a1b8a086b4e01edd2c7748d14c923d4d7e6d7c61b229e9c5a27eced3d9
+    a  = -1
+    d  = 0x52036cee2b6ffe738cc740797779e89800700a4d4141d8ab75eb4dca135978a3  # (-121665/121666) % p
+    xG = 15112221349535400772501151409588531511454012693041857206046113283949847762202
+    yG = 46316835694926478169428394003475163141307993866256225615783033603165251855960
     n  = 2**252 + 27742317777372353535851937790883648493 
     h  = 8     
        
-- 
2.43.0


From 6eb82ac5f6e36bc794a4a03b2e66cb588ea14970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:02 +0000
Subject: [PATCH 15/30] fix: new_private_key could return 0 or a value of n and
 above

---
 ecc/ecc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index e36e547..4c1154f 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -128,7 +128,8 @@ class SmallWeierstrassCurveFp( EllipticCurveFp ):
         return y
 
     def new_private_key(self):
-        return string_to_int( urandom(self.coord_size) )
+        # 64 more random bits than n has make the bias of '%' negligible
+        return 1 + string_to_int( urandom(self.coord_size + 8) ) % (self.n - 1)
 
 
 class KoblitzCurveFp( SmallWeierstrassCurveFp ):
-- 
2.43.0


From 08bc92f60c4f3789205958eb8687b0350b9eeaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:22 +0000
Subject: [PATCH 16/30] fix: square_root_mod_prime raised OverflowError for
 large p with p % 8 == 1

range( 2, p ) cannot be built for such p, so points could not be
decompressed on P-224 and two GOST curves.
---
 ecc/numbertheory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecc/numbertheory.py b/ecc/numbertheory.py
index 3b9fc68..fbd72fa 100755
--- a/ecc/numbertheory.py
+++ b/ecc/numbertheory.py
@@ -172,12 +172,14 @@ def square_root_mod_prime( a, p ):
         if d == p-1: return ( 2 * a * modular_exp( 4*a, (p-5)/8, p ) ) % p
         raise RuntimeError, "Shouldn't get here."
     
-    for b in range( 2, p ):
+    b = 2
+    while b < p:                        # p may be too large for range()
         if jacobi( b*b-4*a, p ) == -1:
             f = ( a, -b, 1 )
             ff = polynomial_exp_mod( ( 0, 1 ), (p+1)/2, f, p )
             assert ff[1] == 0
             return ff[0]
+        b = b + 1
     raise RuntimeError, "No b found."
 
 def modular_sqrt(a, p):
-- 
2.43.0


From be66a27c37af8eb14aaa72f73a077c4d1d7d566d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:22 +0000
Subject: [PATCH 17/30] fix: polynomial_reduce_mod changed the list passed to
 it

---
 ecc/numbertheory.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecc/numbertheory.py b/ecc/numbertheory.py
index fbd72fa..d18c1ee 100755
--- a/ecc/numbertheory.py
+++ b/ecc/numbertheory.py
@@ -55,6 +55,7 @@ def polynomial_reduce_mod( poly, polymod, p ):
     
     assert len( polymod ) > 1
     
+    poly = list( poly )                 # leave the argument as it is
     while len( poly ) >= len( polymod ):
         if poly[-1] != 0:
             for i in range( 2, len( polymod ) + 1 ):
-- 
2.43.0


From 27808a099879356896cf08306bf21360ab1116d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:22 +0000
Subject: [PATCH 18/30] fix: order_mod did not end or was wrong for x outside
 0..m-1

order_mod( 1+m, m ) is 1. For other x the first power was not reduced.
---
 ecc/numbertheory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecc/numbertheory.py b/ecc/numbertheory.py
index d18c1ee..e3324c8 100755
--- a/ecc/numbertheory.py
+++ b/ecc/numbertheory.py
@@ -449,7 +449,7 @@ def order_mod( x, m ):
     
     assert gcd( x, m ) == 1
     
-    z = x
+    z = x % m
     result = 1
     while z != 1:
         z = ( z * x ) % m
-- 
2.43.0


From bb1a9d001834c0390cf7ee4e08fde372fbb6c063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:22 +0000
Subject: [PATCH 19/30] fix: b27decode, b85decode and b94decode ignored padto

Octet strings with leading zero octets were not recovered.
---
 cipher/encoding.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cipher/encoding.py b/cipher/encoding.py
index 01e50a8..a580f3a 100644
--- a/cipher/encoding.py
+++ b/cipher/encoding.py
@@ -68,7 +68,7 @@ def b27encode(octet_string):
     
 def b27decode(text_string, padto=None):
     """Decode a text string 's' using 27 characters. """
-    return base_N_decode(text_string, _b27chars )
+    return base_N_decode(text_string, _b27chars, padto )
 
 _b85chars = "0123456789" \
             "ABCDEFGHIJKLMNOPQRSTUVWXYZ" \
@@ -85,7 +85,7 @@ def b85encode(octet_string):
 
 def b85decode(text_string, padto=None):
     """Decode a text string 's' using 85 character alphabet. """
-    return base_N_decode(text_string, _b85chars )
+    return base_N_decode(text_string, _b85chars, padto )
     
 ascii_printable = ''.join( [chr(i) for i in range(33,127)] )    
 def b94encode(octet_string):
@@ -94,7 +94,7 @@ def b94encode(octet_string):
 
 def b94decode(text_string, padto=None):
     """Decode a text string using all ASCII non-space printable characters. """
-    return base_N_decode(text_string, ascii_printable )    
+    return base_N_decode(text_string, ascii_printable, padto )    
     
 if __name__ == '__main__':
     """ Examples of text encodings for 128 bit and 48 bits (USID and SID)
-- 
2.43.0


From 058c4322e69817b735e5dc6ef1a750e467535de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:22 +0000
Subject: [PATCH 20/30] fix: HMAC with a key longer than the block of the hash

RFC 2104: the hashed key is padded with zeros to the block size.
---
 hash/hmac.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hash/hmac.py b/hash/hmac.py
index d13b4ac..5d54efb 100755
--- a/hash/hmac.py
+++ b/hash/hmac.py
@@ -45,9 +45,9 @@ class HMAC(Hash):
     def setKey(self,key):
         """ setKey(key) ... key is binary string """
         if len(key) > self.B:   # if key is too long then hash it
-            key = self.H(key)   # humm... this is odd, hash can be smaller than B
-        else:                   # should raise error on short key, but breaks tests :-(
-            key =key + (self.B-len(key)) * chr(0)
+            key = self.H(key)   # hash can be smaller than B and is padded below
+        # should raise error on short key, but breaks tests :-(
+        key =key + (self.B-len(key)) * chr(0)
         self.k_xor_ipad = ''.join([chr(ord(bchar)^0x36) for bchar in key])
         self.k_xor_opad = ''.join([chr(ord(bchar)^0x5C) for bchar in key])
         self.keyed = 1
-- 
2.43.0


From e564d04c26afa51d6e3346e5ba9c3abab04dba9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:22 +0000
Subject: [PATCH 21/30] fix: pbkdf2 raised TypeError: range() needs an integer

---
 hash/pbkdf2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash/pbkdf2.py b/hash/pbkdf2.py
index 848d325..4661d41 100755
--- a/hash/pbkdf2.py
+++ b/hash/pbkdf2.py
@@ -22,7 +22,7 @@ def pbkdf2(password, salt, iterations, keySize, PRF=HMAC_SHA1):
 		raise 'keySize too long for PBKDF2'
 
 	prf = PRF(key=password)  # HMAC_SHA1
-	numBlocks = ceil(1.*keySize/prf.digest_size) # ceiling function
+	numBlocks = int(ceil(1.*keySize/prf.digest_size)) # ceiling function
 	key = ''
 	for block in range(1,numBlocks+1):
 		# Calculate F(P, salt, iterations, i)
-- 
2.43.0


From 14077415a82ea8a08ffdd0d2656ad9e63d37d974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:22 +0000
Subject: [PATCH 22/30] fix: prf_dot11 imported this package's hmac.py instead
 of Python's hmac

---
 hash/prf_dot11.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hash/prf_dot11.py b/hash/prf_dot11.py
index c5c5c66..d0791e5 100755
--- a/hash/prf_dot11.py
+++ b/hash/prf_dot11.py
@@ -7,6 +7,7 @@ The parameter 'prefix' is a string that shall be a unique label for each
 different purpose of the PRF.
 """
 
+from __future__ import absolute_import # not the hmac.py of this package
 import hmac, sha        # available in any Python 2.x
 
 def PRF( key, prefix, data, number_of_bits):
-- 
2.43.0


From ef4cdeb95f25f597bd4d9dad26840bea0a4599b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:22 +0000
Subject: [PATCH 23/30] fix: TKIP_Mixer used the phase 1 value of another
 packet number

setKey() and setTA() mix phase 1 with the last packet number set, also when
that was only the default or the mixing for it was interrupted, but did not
record it; and newKey() recorded the number before the value was there.
---
 hash/tkip_key_mixing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hash/tkip_key_mixing.py b/hash/tkip_key_mixing.py
index 3a748b1..b296764 100755
--- a/hash/tkip_key_mixing.py
+++ b/hash/tkip_key_mixing.py
@@ -53,6 +53,7 @@ class TKIP_Mixer:
     def setKey(self, key):
         """ Set the temporal key (tk1) for key mixing """
         if len(key)!= 16: raise 'Wrong key size'
+        self.upper4SequenceOctets = None # phase1 value of the old key must not be used
         # for readability of subroutines, make tk a list of 1 octet ints
         self.tk = [ord(byte) for byte in key]
         if self.ta != None : # reset phase1 value
@@ -61,6 +62,7 @@ class TKIP_Mixer:
     def setTA(self, taBytes):
         """ Set the transmitter address """
         if len(taBytes) != 6: raise 'Bad size for transmitterAddress'
+        self.upper4SequenceOctets = None # phase1 value of the old address must not be used
         self.ta = [ord(byte) for byte in taBytes]
         if self.tk != None : # reset phase1 value
             self.phase1Key = phase1KeyMixing( self.tk, self.ta, self.pn )
@@ -80,8 +82,9 @@ class TKIP_Mixer:
         self.setPnBytes(pnBytes)
         if self.pnBytes[-4:] != self.upper4SequenceOctets: # check if upper bits change
             # calculate phase1 key only when upper bytes change
-            self.upper4SequenceOctets = pnBytes[-4:]
+            self.upper4SequenceOctets = None
             self.phase1Key = phase1KeyMixing( self.tk, self.ta, self.pn )
+            self.upper4SequenceOctets = pnBytes[-4:]
         return  phase2KeyMixing( self.tk, self.phase1Key, self.pn )
 
 def phase1KeyMixing(tk,ta,pn):
-- 
2.43.0


From a2fa16da3fef286989e2a4c73cf9e50b6b2075b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:22 +0000
Subject: [PATCH 24/30] fix: TKIP mixing put the packet number octets into the
 key in wrong order

IEEE 802.11: the WEP seed starts with TSC1, (TSC1 | 0x20) & 0x7f, TSC0, as in
the test vectors of hash/test.
---
 hash/tkip_key_mixing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hash/tkip_key_mixing.py b/hash/tkip_key_mixing.py
index b296764..7898ceb 100755
--- a/hash/tkip_key_mixing.py
+++ b/hash/tkip_key_mixing.py
@@ -125,9 +125,9 @@ def phase2KeyMixing(tk,p1k,pn):
     ppk[5] = (ppk[5] + rotR1(ppk[4])) & 0xFFFF
 
     rc4Key = range(16)
-    rc4Key[0] =  pn[0]
-    rc4Key[1] = (pn[0] | 0x20) & 0x7F
-    rc4Key[2] =  pn[1]
+    rc4Key[0] =  pn[1]
+    rc4Key[1] = (pn[1] | 0x20) & 0x7F
+    rc4Key[2] =  pn[0]
     rc4Key[3] = 0xFF &((ppk[5]^(tk[1]*256+tk[0]))>>1)
     for i in range(6):
         rc4Key[4+2*i] = ppk[i] & 0xff
-- 
2.43.0


From b761aec4107b690f561b785b0907e48c64f11ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:22 +0000
Subject: [PATCH 25/30] fix: GFp.is_element raised NameError

---
 fmath/galoisfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fmath/galoisfield.py b/fmath/galoisfield.py
index 9abfa2a..d0082dd 100644
--- a/fmath/galoisfield.py
+++ b/fmath/galoisfield.py
@@ -26,7 +26,7 @@ class GFp:
         return Element_of_GFp(self, value)
         
     def is_element(self, x):
-        return (p > x > 0)
+        return (self.p > x > 0)
         
     def inverse(self, x):
         return inverse_mod(x, self.p)
-- 
2.43.0


From 504d2d6f95ad60dab404499983a3ac0d6a62a353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:22 +0000
Subject: [PATCH 26/30] fix: GF(p) inverses of negative integers and in large
 fields

The recursive egcd exceeded the recursion limit for p of about 2000 bits, and
for a negative integer the gcd could come out as -1.
---
 fmath/galoisfield.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/fmath/galoisfield.py b/fmath/galoisfield.py
index d0082dd..11fbd2b 100644
--- a/fmath/galoisfield.py
+++ b/fmath/galoisfield.py
@@ -86,14 +86,16 @@ class Element_of_GFp:
          
 
 def egcd(a, b):
-    if a == 0:
-        return (b, 0, 1)
-    else:
-        g, y, x = egcd(b % a, a)
-        return (g, x - (b // a) * y, y)
+    x, y, u, v = 0, 1, 1, 0
+    while a != 0:
+        q, r = divmod(b, a)
+        b, a = a, r
+        x, u = u, x - q * u
+        y, v = v, y - q * v
+    return (b, x, y)
 
 def inverse_mod(a, m):
-    g, x, y = egcd(a, m)
+    g, x, y = egcd(a % m, m)
     if g != 1:
         raise Exception('modular inverse does not exist')
     else:
-- 
2.43.0


From be06fed0a3e8fc41e8799fa59f8510fe714d9f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:22 +0000
Subject: [PATCH 27/30] fix: GF(p) exponentiation computed the full integer
 power first

It did not finish for any exponent of cryptographic size.
---
 fmath/galoisfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fmath/galoisfield.py b/fmath/galoisfield.py
index 11fbd2b..b69fce9 100644
--- a/fmath/galoisfield.py
+++ b/fmath/galoisfield.py
@@ -67,10 +67,10 @@ class Element_of_GFp:
         return self.gf(int(other) * self.gf.inverse(self.value))
     
     def __xor__(self, other):
-        return self.gf(self.value ** int(other))
+        return self.gf(pow(self.value, int(other), self.gf.p))
     
     def __rxor__(self, other):
-        return self.gf(int(other) ** self.value)
+        return self.gf(pow(int(other), self.value, self.gf.p))
     
     def __cmp__(self, other):
         if self.value == int(other) :
-- 
2.43.0


From 45604b077e16cb997a2d01368201275d4189a8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:40:29 +0000
Subject: [PATCH 28/30] fix: identifier of secp521r1 was that of secp256r1

---
 ecc/curves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecc/curves.py b/ecc/curves.py
index 3defbd7..2d623b7 100755
--- a/ecc/curves.py
+++ b/ecc/curves.py
@@ -405,7 +405,7 @@ class NIST_P384(SECP_384r1): # NIST renamed secp384r1
   
 class SECP_521r1( SmallWeierstrassCurveFp ):
     """ Suite B curve for 256 bit security """
-    curveId = 'secp256r1'
+    curveId = 'secp521r1'
     strength = 256
     oid = (1,3,132,0,35)  # {iso(1) identified-organization(3) certicom(132) curve(0) 35}
     # p = 2**251 - 1   #  a Mersenne prime
-- 
2.43.0


From 13be55abee6014f5c4401d87e75a82a8f3d8dd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:40:29 +0000
Subject: [PATCH 29/30] fix: curve M383 lacked the oid every curve has

---
 ecc/curves.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecc/curves.py b/ecc/curves.py
index 2d623b7..4499713 100755
--- a/ecc/curves.py
+++ b/ecc/curves.py
@@ -693,6 +693,7 @@ class M383( MontgomeryCurveFp ):
     """ y**2 == x**3+2065150*x**2+x mod 2**383-187 """
     curveId = 'm383'
     strength = 190
+    oid = None
     p = 2**383-187
     a = 2065150
     xG = 0xc  #  12
-- 
2.43.0


From 58a27d4ffede48dfd5e647dda6c94969b53b27f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:40:29 +0000
Subject: [PATCH 30/30] fix: permutation orbits could not be called

---
 analysis/permutation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/analysis/permutation.py b/analysis/permutation.py
index 3b01743..7742e1b 100644
--- a/analysis/permutation.py
+++ b/analysis/permutation.py
@@ -7,6 +7,7 @@
 
 class permutation(object):
 
+    @staticmethod
     def map_orbits_of_permutation(permutation):
         """ Creates a dictionary of permutation orbits indexed by the first element of the cycle/orbit """
         gdict = {}     # a dictionary of the orbits indexed by the first orbit element
@@ -28,10 +29,11 @@ class permutation(object):
                 pass
         return gdict
 
-    def orbit_start_and_length(permutation):
+    @staticmethod
+    def orbit_start_and_length(elements):
         """ Returns a list of tuples (orbit start, orbit size) """
         v=[]
-        z=map_orbits_of_permutation(permutation)
+        z=permutation.map_orbits_of_permutation(elements)
         for i in z.keys():
             v.append( [i, len(z[i])] )
         return v
@@ -108,7 +110,7 @@ sms4_sbbytes = (0xd6,0x90,0xe9,0xfe,0xcc,0xe1,0x3d,0xb7,
 
 
 def main():
-    orbit_tuples = orbit_start_and_length(aes_sbbytes)
+    orbit_tuples = permutation.orbit_start_and_length(aes_sbbytes)
     print
     print 'The AES sbox contains ',
     print len(orbit_tuples),
@@ -116,7 +118,7 @@ def main():
     print 'The AES sbox subgroups (start, length) are:'
     print orbit_tuples
     print
-    orbit_tuples = orbit_start_and_length(sms4_sbbytes)
+    orbit_tuples = permutation.orbit_start_and_length(sms4_sbbytes)
     print 'The SMS4 sbox contains ',
     print len(orbit_tuples),
     print 'permutation subgroups'
-- 
2.43.0

