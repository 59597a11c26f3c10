From 0b05799c9e146439005a7db3f190a862ba63dcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:22 +0000
Subject: [PATCH 01/22] fix: hash update keeps a stale tail when the data ends
 on a block boundary

---
 gostcrypto/gosthash/gost_34_11_2012.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gostcrypto/gosthash/gost_34_11_2012.py b/gostcrypto/gosthash/gost_34_11_2012.py
index c64e34a..972e462 100755
--- a/gostcrypto/gosthash/gost_34_11_2012.py
+++ b/gostcrypto/gosthash/gost_34_11_2012.py
@@ -860,8 +860,7 @@ class GOST34112012:
             self._hash_n = self._hash_add_512(self._hash_n, _V_512)
             self._hash_sigma = self._hash_add_512(self._hash_sigma, block)
         self._pad_block_size = _BLOCK_SIZE - len(data) % _BLOCK_SIZE
-        if self._pad_block_size < _BLOCK_SIZE:
-            self._buff = data[-(_BLOCK_SIZE - self._pad_block_size):]
+        self._buff = data[self._num_block * _BLOCK_SIZE:]
 
     def hash_final(self) -> None:
         """Complete the hash calculation after the data update."""
-- 
2.43.0


From 8f678b8553db78f963a8025681df339816697eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:28 +0000
Subject: [PATCH 02/22] fix: HMAC of the empty message omits the inner key
 block

---
 gostcrypto/gosthmac/r_50_1_113_2016.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gostcrypto/gosthmac/r_50_1_113_2016.py b/gostcrypto/gosthmac/r_50_1_113_2016.py
index 8525cf3..34e0d7e 100755
--- a/gostcrypto/gosthmac/r_50_1_113_2016.py
+++ b/gostcrypto/gosthmac/r_50_1_113_2016.py
@@ -175,8 +175,12 @@ class R5011132016:
         Returns:
             HMAC message authentication code as a byte object.
         """
+        hasher_obj = self._hasher_obj
+        if self._counter == 0:
+            hasher_obj = hasher_obj.copy()
+            hasher_obj.update(add_xor(self._key, _I_PAD))
         fin_hasher_obj = GOST34112012(self._hasher_obj.name, data=bytearray(b''))
-        fin_hasher_obj.update(add_xor(self._key, _O_PAD) + self._hasher_obj.digest())
+        fin_hasher_obj.update(add_xor(self._key, _O_PAD) + hasher_obj.digest())
         result = fin_hasher_obj.digest()
         fin_hasher_obj.reset()
         return result
-- 
2.43.0


From 47914d1cbac5f48f5447a8dd58c2d25bbe1ea718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:33 +0000
Subject: [PATCH 03/22] fix: HMAC keeps a reference to the caller's 64-byte key

---
 gostcrypto/gosthmac/r_50_1_113_2016.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gosthmac/r_50_1_113_2016.py b/gostcrypto/gosthmac/r_50_1_113_2016.py
index 34e0d7e..4d5de44 100755
--- a/gostcrypto/gosthmac/r_50_1_113_2016.py
+++ b/gostcrypto/gosthmac/r_50_1_113_2016.py
@@ -122,7 +122,7 @@ class R5011132016:
             self._key = key + add
             self._key = bytearray(self._key)
         elif len(key) == _KEY_SIZE:
-            self._key = key
+            self._key = bytearray(key)
         key = bytearray(len(key))
         if name == 'HMAC_GOSTR3411_2012_256':
             self.oid = ObjectIdentifier('1.2.643.7.1.1.4.1')
-- 
2.43.0


From b30f6048b0e33f5b881da156eec1f32ef8584948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:38 +0000
Subject: [PATCH 04/22] fix: CTR counter increment does not carry, so the
 keystream repeats every 256 blocks

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index b9fe0b6..a715258 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -839,13 +839,7 @@ class GOST34132015ctr(GOST34132015Cipher):
         self._counter = bytearray(self._counter)
 
     def _inc_ctr(self, ctr: bytearray) -> bytearray:
-        internal = 0
-        bit = bytearray(self.block_size)
-        bit[self.block_size - 1] = 0x01
-        for i in range(self.block_size):
-            internal = ctr[i] + bit[i] + (internal << 8)
-            ctr[i] = internal & 0xff
-        return ctr
+        return int_to_bytearray(bytearray_to_int(ctr) + 1, self.block_size)
 
     @property
     def counter(self) -> bytearray:
-- 
2.43.0


From a29a1a8d88bed52c885490250e6276a12d0c3a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:44 +0000
Subject: [PATCH 05/22] fix: CTR counter property exposes the live counter
 block

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index a715258..4d012c1 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -844,7 +844,7 @@ class GOST34132015ctr(GOST34132015Cipher):
     @property
     def counter(self) -> bytearray:
         """Return the value of the block counter."""
-        return self._counter
+        return bytearray(self._counter)
 
     def encrypt(self, data: bytearray) -> bytearray:
         """
-- 
2.43.0


From 75ef002069f3d64e14e937400b7056b77c93e924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:49 +0000
Subject: [PATCH 06/22] fix: MAC update mishandles empty and
 shorter-than-a-block input

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index 4d012c1..0c99c21 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -978,6 +978,12 @@ class GOST34132015mac(GOST34132015):
             self.clear()
             raise GOSTCipherError('GOSTCipherError: invalid text data')
         data = self._iter_buf + data
+        if len(data) < self.block_size:
+            if len(data) != 0:
+                self._iter_buf = data
+                self._prev_mac = self._cur_mac
+                self._fin_buff = bytearray(self.block_size) + data
+            return
         block = bytearray()
         prev_block = self._cur_mac
         for i in range(0, self._get_num_block(data) - 1):
-- 
2.43.0


From 5d99d7bc301dceffd783096cc2991ccdd4069100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:54 +0000
Subject: [PATCH 07/22] fix: zero_fill does not fill with zeros

---
 gostcrypto/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/utils/utils.py b/gostcrypto/utils/utils.py
index b698a01..1a2256d 100755
--- a/gostcrypto/utils/utils.py
+++ b/gostcrypto/utils/utils.py
@@ -77,7 +77,7 @@ def zero_fill(value: bytearray) -> bytearray:
     """
     result = b''
     if isinstance(value, (bytes, bytearray)):
-        result = b'/x00' * len(value)
+        result = b'\x00' * len(value)
         result = bytearray(result)
     return result
 
-- 
2.43.0


From d8bde5df1f117a590e8e73843f25e4fec36aa3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:34 +0000
Subject: [PATCH 08/22] fix: clearing a MAC object leaves the subkeys and
 chaining value

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index 0c99c21..c6c04cb 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -1011,6 +1011,13 @@ class GOST34132015mac(GOST34132015):
             self._iter_buf = data[len(data) - self.block_size + self._get_pad_size(data):]
         self._fin_buff = data[self.block_size * (self._get_num_block(data) - 1):]
 
+    def clear(self) -> None:
+        """Clearing the values of the encryption keys, subkeys and MAC state."""
+        super().clear()
+        for name in ('_key_1', '_key_2', '_prev_mac', '_cur_mac', '_iter_buf', '_fin_buff'):
+            if hasattr(self, name):
+                setattr(self, name, zero_fill(getattr(self, name)))
+
     def mac_final(self) -> bytearray:
         """Return the final value of the MAC."""
         if self._get_pad_size(self._fin_buff) == 0:
-- 
2.43.0


From 00519c2d7d33634d7d61c2c0ebf60cecf1318a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:38 +0000
Subject: [PATCH 09/22] fix: clearing a PBKDF object leaves the password in its
 HMAC, and fails if construction failed

---
 gostcrypto/gostpbkdf/r_50_1_111_2016.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gostcrypto/gostpbkdf/r_50_1_111_2016.py b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
index 9c50f59..73b4fab 100755
--- a/gostcrypto/gostpbkdf/r_50_1_111_2016.py
+++ b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
@@ -165,7 +165,10 @@ class R5011112016:
 
     def clear(self):
         """Сlear the password value."""
-        self._password = zero_fill(self._password)
+        if hasattr(self, '_password'):
+            self._password = zero_fill(self._password)
+        if hasattr(self, '_hmac_obj'):
+            self._hmac_obj.clear()
 
     @property
     def salt(self):
-- 
2.43.0


From 64b7b39fd9ad6c5795fc6bc36a6f6cb75f2fb124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:42 +0000
Subject: [PATCH 10/22] fix: PBKDF reports a too long password with the error
 of another module

---
 gostcrypto/gostpbkdf/r_50_1_111_2016.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostpbkdf/r_50_1_111_2016.py b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
index 73b4fab..6f15bde 100755
--- a/gostcrypto/gostpbkdf/r_50_1_111_2016.py
+++ b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
@@ -72,7 +72,7 @@ class R5011112016:
             salt: Random value.
             iterations: Number of iterations.
         """
-        if not isinstance(password, (bytes, bytearray)):
+        if not isinstance(password, (bytes, bytearray)) or len(password) > _BLOCK_SIZE:
             raise GOSTPBKDFError('GOSTPBKDFError: invalid password value')
         self._password = bytearray(password)
         self._salt = salt
-- 
2.43.0


From 6c8f07f8b571e83cadcfba492f7ec69ff2ba4ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:46 +0000
Subject: [PATCH 11/22] fix: PBKDF salt property exposes the live salt

---
 gostcrypto/gostpbkdf/r_50_1_111_2016.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostpbkdf/r_50_1_111_2016.py b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
index 6f15bde..dc5848b 100755
--- a/gostcrypto/gostpbkdf/r_50_1_111_2016.py
+++ b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
@@ -173,7 +173,7 @@ class R5011112016:
     @property
     def salt(self):
         """Return a random value (salt)."""
-        return self._salt
+        return bytearray(self._salt)
 
 
 class GOSTPBKDFError(Exception):
-- 
2.43.0


From 5984337a3e0466b46d2e4e1cda231493211b640b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:51 +0000
Subject: [PATCH 12/22] fix: PRNG counter limit is never reached, the counter
 overflows into the seed

---
 gostcrypto/gostrandom/r_1323565_1_006_2017.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostrandom/r_1323565_1_006_2017.py b/gostcrypto/gostrandom/r_1323565_1_006_2017.py
index 51893c7..b7c1a55 100755
--- a/gostcrypto/gostrandom/r_1323565_1_006_2017.py
+++ b/gostcrypto/gostrandom/r_1323565_1_006_2017.py
@@ -90,7 +90,7 @@ class R132356510062017:
             self._rand_u = bytearray(self._rand_u)
         self._q = rand_size // _SIZE_H
         self._r = rand_size % _SIZE_H
-        self._limit = 2 ** ((_SIZE_M - self._size_s) * 8)
+        self._limit = 2 ** ((_SIZE_M - self._size_s - 1) * 8) - 1
         self._hash_obj = GOST34112012('streebog512', data=bytearray(b''))
 
     def __del__(self) -> None:
-- 
2.43.0


From 315037021e830219196ac3c679499dc8892f0860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:56 +0000
Subject: [PATCH 13/22] fix: PRNG sequence is wrong after an interrupted call

---
 gostcrypto/gostrandom/r_1323565_1_006_2017.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gostcrypto/gostrandom/r_1323565_1_006_2017.py b/gostcrypto/gostrandom/r_1323565_1_006_2017.py
index b7c1a55..d1610ad 100755
--- a/gostcrypto/gostrandom/r_1323565_1_006_2017.py
+++ b/gostcrypto/gostrandom/r_1323565_1_006_2017.py
@@ -107,6 +107,7 @@ class R132356510062017:
             self._rand_u = zero_fill(self._rand_u)
             raise GOSTRandomError('GOSTRandomError: exceeded the limit value of the counter')
         self._inc_rand_u()
+        self._hash_obj.reset()
         self._hash_obj.update(self._rand_u)
         result = self._hash_obj.digest()
         self._hash_obj.reset()
-- 
2.43.0


From 1e03046ec246c95cf0ed47e8361b13135d08d26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:00 +0000
Subject: [PATCH 14/22] fix: clearing a PRNG object leaves seed data in its
 hash after an interrupted call

---
 gostcrypto/gostrandom/r_1323565_1_006_2017.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gostcrypto/gostrandom/r_1323565_1_006_2017.py b/gostcrypto/gostrandom/r_1323565_1_006_2017.py
index d1610ad..957f4b1 100755
--- a/gostcrypto/gostrandom/r_1323565_1_006_2017.py
+++ b/gostcrypto/gostrandom/r_1323565_1_006_2017.py
@@ -169,6 +169,8 @@ class R132356510062017:
         """Clear the counter value."""
         if hasattr(self, '_rand_u'):
             self._rand_u = zero_fill(self._rand_u)
+        if hasattr(self, '_hash_obj'):
+            self._hash_obj.reset()
 
 
 class GOSTRandomError(Exception):
-- 
2.43.0


From d424d44b2048d205e13f45504ba0dbd77e3871a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:04 +0000
Subject: [PATCH 15/22] fix: signing never ends when the random value is zero
 or gives a zero signature part

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 22 +++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index be8eb55..3f5d6d4 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -643,7 +643,7 @@ class GOST34102012:
 
     def _get_rand_k(self) -> bytearray:
         rand_k = bytearray(os.urandom(self._size))
-        while bytearray_to_int(rand_k) >= self._q:
+        while bytearray_to_int(rand_k) >= self._q or compare_to_zero(rand_k):
             rand_k = bytearray(os.urandom(self._size))
         return rand_k
 
@@ -685,20 +685,26 @@ class GOST34102012:
         sign_r = 0
         sign_s = 0
         sign_k = 0
-        if rand_k == bytearray(b''):
+        own_rand_k = rand_k == bytearray(b'')
+        if own_rand_k:
             rand_k = self._get_rand_k()
         if not isinstance(rand_k, (bytes, bytearray)):
             private_key = zero_fill(private_key)
             raise GOSTSignatureError('GOSTSignatureError: invalid random value')
-        if bytearray_to_int(rand_k) >= self._q:
+        if bytearray_to_int(rand_k) >= self._q or compare_to_zero(rand_k):
             private_key = zero_fill(private_key)
             raise GOSTSignatureError('GOSTSignatureError: invalid random value')
         while compare_to_zero(int_to_bytearray(sign_s, self._size)):
-            while compare_to_zero(int_to_bytearray(sign_r, self._size)):
-                sign_k = bytearray_to_int(rand_k)
-                sign_c = self._mul_point(sign_k)
-                sign_r = sign_c[0] % self._q
-            sign_s = (sign_r * bytearray_to_int(private_key) + sign_k * sign_e) % self._q
+            sign_k = bytearray_to_int(rand_k)
+            sign_c = self._mul_point(sign_k)
+            sign_r = sign_c[0] % self._q
+            if sign_r != 0:
+                sign_s = (sign_r * bytearray_to_int(private_key) + sign_k * sign_e) % self._q
+            if sign_s == 0:
+                if not own_rand_k:
+                    private_key = zero_fill(private_key)
+                    raise GOSTSignatureError('GOSTSignatureError: invalid random value')
+                rand_k = self._get_rand_k()
         result = int_to_bytearray(sign_r, self._size) + int_to_bytearray(sign_s, self._size)
         private_key = zero_fill(private_key)
         return result
-- 
2.43.0


From 3045d6422443ef86308fa6ef621c68d569fc7235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:09 +0000
Subject: [PATCH 16/22] fix: a zero private key hangs public key generation and
 gives worthless signatures

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index 3f5d6d4..03cc3d8 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -679,6 +679,8 @@ class GOST34102012:
         """
         if not check_value(private_key, self._size):
             raise GOSTSignatureError('GOSTSignatureError: invalid private key value')
+        if bytearray_to_int(private_key) % self._q == 0:
+            raise GOSTSignatureError('GOSTSignatureError: invalid private key value')
         if not check_value(digest, self._size):
             raise GOSTSignatureError('GOSTSignatureError: invalid digest value')
         sign_e = self._set_e(digest)
@@ -781,7 +783,9 @@ class GOST34102012:
         """
         if not check_value(private_key, self._size):
             raise GOSTSignatureError('GOSTSignatureError: invalid private key')
-        private_key = bytearray_to_int(private_key)
+        private_key = bytearray_to_int(private_key) % self._q
+        if private_key == 0:
+            raise GOSTSignatureError('GOSTSignatureError: invalid private key')
         public_key = self._mul_point(private_key)
         public_key_x = int_to_bytearray(public_key[0], self._size)
         public_key_y = int_to_bytearray(public_key[1], self._size)
-- 
2.43.0


From 641ac6344fa985238f09f15866e0a5858f477403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:14 +0000
Subject: [PATCH 17/22] fix: verification replaces a public key with a zero
 coordinate by the base point

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index 03cc3d8..3160510 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -616,7 +616,7 @@ class GOST34102012:
     def _mul_point(self, mul_value: int, x_op: int = -1,
                    y_op: Any = - 1) -> Tuple[int, int]:
         mul_value = mul_value - 1
-        if x_op > 0 and y_op > 0:
+        if x_op >= 0 and y_op >= 0:
             x_prev = x_op
             y_prev = y_op
         else:
-- 
2.43.0


From 1e8e710befaf546396c20bebcdb19532e251f30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:19 +0000
Subject: [PATCH 18/22] fix: verification computes with the point at infinity
 as if it were an ordinary point

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index 3160510..864f93b 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -762,6 +762,8 @@ class GOST34102012:
         sign_z_2 = self._q - sign_r * sign_v % self._q
         sign_p = self._mul_point(sign_z_1)
         sign_q = self._mul_point(sign_z_2, public_key[0], public_key[1])
+        if sign_p[0] == sign_q[0] and sign_p[1] != sign_q[1]:
+            return False
         sign_c = self._add(sign_p[0], sign_q[0], sign_p[1], sign_q[1])
         sign_r_check = sign_c[0] % self._q
         return compare(int_to_bytearray(sign_r_check, self._size),
-- 
2.43.0


From 4e93bf350338ea3e433d53ed46de892350b166e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:22 +0000
Subject: [PATCH 19/22] fix: curves with a low embedding degree are not refused

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index 864f93b..4b69f36 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -561,7 +561,7 @@ class GOST34102012:
             check_b = 132
         for i in range(1, check_b):
             if self._p ** i % self._q == 1 % self._q:
-                result = result or result
+                result = False
         return result
 
     def _check_q(self) -> bool:
-- 
2.43.0


From fb25fc1dd3f2ed3bf0e2da5eb70135196f158448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:26 +0000
Subject: [PATCH 20/22] fix: an empty initialization vector is accepted and
 breaks the feedback modes

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index c6c04cb..065d685 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -456,7 +456,7 @@ class GOST34132015CipherFeedBack(GOST34132015Cipher, ABC):
         """
         GOST34132015Cipher.__init__(self, algorithm, key)
         check_init_vect = isinstance(init_vect, (bytes, bytearray))
-        if (not check_init_vect) or (len(init_vect) % self.block_size) != 0:
+        if (not check_init_vect) or len(init_vect) == 0 or (len(init_vect) % self.block_size) != 0:
             self.clear()
             raise GOSTCipherError('GOSTCipherError: invalid initialization vector value')
         self._init_vect = init_vect
-- 
2.43.0


From bd6c2365c4fa96612a113d3e43ef9637d7cbc915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:30 +0000
Subject: [PATCH 21/22] fix: OID components above 16383 are encoded wrongly

---
 gostcrypto/gostoid/oid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gostcrypto/gostoid/oid.py b/gostcrypto/gostoid/oid.py
index b588b47..6347ca4 100755
--- a/gostcrypto/gostoid/oid.py
+++ b/gostcrypto/gostoid/oid.py
@@ -103,7 +103,8 @@ def _int_to_octet(value: int) -> bytearray:
     for i in range(_len_int(value, 7) - 1, -1, -1):
         result[i] = value & 0x7F
         value = value >> 7
-    result[0] = result[0] | 0x80
+    for i in range(len(result) - 1):
+        result[i] = result[i] | 0x80
     return result
 
 
-- 
2.43.0


From 4547ed24a46003ab67ca799f29e2adb1c6a09d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:43 +0000
Subject: [PATCH 22/22] fix: registered name of the 512-bit parameter set C
 ended in a Cyrillic letter

---
 gostcrypto/gostoid/oid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostoid/oid.py b/gostcrypto/gostoid/oid.py
index 6347ca4..7d4f34c 100755
--- a/gostcrypto/gostoid/oid.py
+++ b/gostcrypto/gostoid/oid.py
@@ -66,7 +66,7 @@ OBJECT_IDENTIFIER_TC26 = {
     '1.2.643.7.1.2.1.2.0': 'id-tc26-gost-3410-12-512-paramSetTest',
     '1.2.643.7.1.2.1.2.1': 'id-tc26-gost-3410-12-512-paramSetA',
     '1.2.643.7.1.2.1.2.2': 'id-tc26-gost-3410-12-512-paramSetB',
-    '1.2.643.7.1.2.1.2.3': 'id-tc26-gost-3410-12-512-paramSetС',
+    '1.2.643.7.1.2.1.2.3': 'id-tc26-gost-3410-12-512-paramSetC',
     '1.2.643.7.1.2.2': 'id-tc26-digset-constants',
     '1.2.643.7.1.2.5': 'id-tc26-cipher-constants',
     '1.2.643.7.1.2.5.1': 'id-tc26-gost-28147-constants',
-- 
2.43.0

