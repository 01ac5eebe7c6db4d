From 6456915768bd7b195fd35cf2255fbdc7dc9eea0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:12 +0000
Subject: [PATCH 01/12] fix: define field division for the "/" operator

Dividing two field elements raised TypeError, because only the Python 2
method name was defined.
---
 poc/vdaf_poc/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poc/vdaf_poc/field.py b/poc/vdaf_poc/field.py
index 5ba2843..d49ccd5 100644
--- a/poc/vdaf_poc/field.py
+++ b/poc/vdaf_poc/field.py
@@ -93,7 +93,7 @@ class Field:
     def __sub__(self, other: Self) -> Self:
         return self.__class__((self.val - other.val) % self.MODULUS)
 
-    def __div__(self, other: Self) -> Self:
+    def __truediv__(self, other: Self) -> Self:
         return self * other.inv()
 
     def __pow__(self, n: int) -> Self:
-- 
2.43.0


From 12999ad11da4aed151648d4e3ee599d281d2ec01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:17 +0000
Subject: [PATCH 02/12] fix: evaluate the zero polynomial given with explicit
 zero coefficients

poly_eval() raised IndexError for a polynomial whose coefficients are all
zero.
---
 poc/vdaf_poc/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poc/vdaf_poc/field.py b/poc/vdaf_poc/field.py
index d49ccd5..bef77f5 100644
--- a/poc/vdaf_poc/field.py
+++ b/poc/vdaf_poc/field.py
@@ -256,10 +256,10 @@ def poly_add(field: type[F], p: list[F], q: list[F]) -> list[F]:
 
 def poly_eval(field: type[F], p: list[F], eval_at: F) -> F:
     """Evaluate a polynomial in the monomial basis at a point."""
+    p = poly_strip(field, p)
     if len(p) == 0:
         return field(0)
 
-    p = poly_strip(field, p)
     result = p[-1]
     for c in reversed(p[:-1]):
         result *= eval_at
-- 
2.43.0


From 8609f54f72511ee735de50e8a0a0afec2f32fa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:22 +0000
Subject: [PATCH 03/12] fix: do not modify the input of the NTT

When the input had fewer than n coefficients, ntt() padded the caller's
list in place.
---
 poc/vdaf_poc/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poc/vdaf_poc/field.py b/poc/vdaf_poc/field.py
index bef77f5..9236e35 100644
--- a/poc/vdaf_poc/field.py
+++ b/poc/vdaf_poc/field.py
@@ -160,7 +160,7 @@ class NttField(Field):
         otherwise s=1. See Alg. 4 of [Faz25](https://ia.cr/2025/1727).
         """
         log_n = assert_power_of_2(n)
-        p += [cls(0)] * (n-len(p))
+        p = p + [cls(0)] * (n-len(p))
         q = [p[bitrev(log_n, i)] for i in range(n)]
         for k in range(1, log_n + 1):
             w = cls.nth_root(k+1) if set_s else cls(1)
-- 
2.43.0


From 67eed0d64beea176ad4c31ff1677f8145262696b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:27 +0000
Subject: [PATCH 04/12] fix: reject strings of different lengths in xor()

The document says that an exception is raised; instead the longer string
was silently truncated.
---
 poc/vdaf_poc/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/poc/vdaf_poc/common.py b/poc/vdaf_poc/common.py
index 3ce78ed..bf61265 100644
--- a/poc/vdaf_poc/common.py
+++ b/poc/vdaf_poc/common.py
@@ -63,6 +63,8 @@ def byte(number: int) -> bytes:
 
 def xor(left: bytes, right: bytes) -> bytes:
     """Return the bitwise XOR of the inputs."""
+    if len(left) != len(right):
+        raise ValueError("mismatched string lengths")
     return bytes(map(lambda x: x[0] ^ x[1], zip(left, right)))
 
 
-- 
2.43.0


From 840366713cb1fec23e43cff728c0e618c92a7138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:32 +0000
Subject: [PATCH 05/12] fix: reject a non-empty Prio3 public share without
 joint randomness

Any string was accepted as the public share of a variant that does not use
joint randomness, although the encoding of that share is empty.
---
 poc/vdaf_poc/vdaf_prio3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/poc/vdaf_poc/vdaf_prio3.py b/poc/vdaf_poc/vdaf_prio3.py
index 40f14f6..f144848 100644
--- a/poc/vdaf_poc/vdaf_prio3.py
+++ b/poc/vdaf_poc/vdaf_prio3.py
@@ -573,6 +573,8 @@ class Prio3(
 
     def decode_public_share(self, encoded: bytes) -> Optional[list[bytes]]:
         if self.flp.JOINT_RAND_LEN == 0:
+            if len(encoded) != 0:
+                raise ValueError("public share is too long")
             return None
         joint_rand_parts = []
         for _ in range(self.SHARES):
-- 
2.43.0


From 75299f94b4bd8bf21cc192dac61128758a0fcdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:36 +0000
Subject: [PATCH 06/12] fix: check the number of Prio3 verifier shares

Combining no shares at all succeeded for variants without joint
randomness.
---
 poc/vdaf_poc/vdaf_prio3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/poc/vdaf_poc/vdaf_prio3.py b/poc/vdaf_poc/vdaf_prio3.py
index f144848..b6d20c0 100644
--- a/poc/vdaf_poc/vdaf_prio3.py
+++ b/poc/vdaf_poc/vdaf_prio3.py
@@ -190,6 +190,9 @@ class Prio3(
         _agg_param: None,
         verifier_shares: list[Prio3VerifierShare[F]],
     ) -> Optional[bytes]:
+        if len(verifier_shares) != self.SHARES:
+            raise ValueError('incorrect number of verifier shares')
+
         # Unshard each set of verifier shares into each verifier message.
         verifiers = self.flp.field.zeros(
             self.flp.VERIFIER_LEN * self.PROOFS)
-- 
2.43.0


From 55d779f53ce50ab41bf19b60d207f78c7f6e2c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:41 +0000
Subject: [PATCH 07/12] fix: check the number of Prio3 proofs

With zero proofs every measurement, valid or not, was accepted. The number
of proofs is documented to be in the range [1, 256).
---
 poc/vdaf_poc/vdaf_prio3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/poc/vdaf_poc/vdaf_prio3.py b/poc/vdaf_poc/vdaf_prio3.py
index b6d20c0..20e690b 100644
--- a/poc/vdaf_poc/vdaf_prio3.py
+++ b/poc/vdaf_poc/vdaf_prio3.py
@@ -76,6 +76,8 @@ class Prio3(
         assert flp is not None
         if shares not in range(2, 256):
             raise ValueError('invalid number of shares')
+        if num_proofs not in range(1, 256):
+            raise ValueError('invalid number of proofs')
 
         self.SHARES = shares
         self.PROOFS = num_proofs
-- 
2.43.0


From 5da1cb61b4fc5f279f08c2e356210a49cf4f3b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:46 +0000
Subject: [PATCH 08/12] fix: reject negative Sum and Histogram measurements

A negative sum was encoded as some other, valid, non-negative value, and a
negative bucket index counted from the last bucket.
---
 poc/vdaf_poc/flp_bbcggi19.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/poc/vdaf_poc/flp_bbcggi19.py b/poc/vdaf_poc/flp_bbcggi19.py
index b1273ef..2c71d89 100644
--- a/poc/vdaf_poc/flp_bbcggi19.py
+++ b/poc/vdaf_poc/flp_bbcggi19.py
@@ -729,6 +729,8 @@ class Histogram(Valid[int, list[int], F]):
         self.JOINT_RAND_LEN = self.GADGET_CALLS[0]
 
     def encode(self, measurement: int) -> list[F]:
+        if measurement not in range(self.length):  # REMOVE ME
+            raise ValueError('measurement out of range')  # REMOVE ME
         encoded = [self.field(0)] * self.length
         encoded[measurement] = self.field(1)
         return encoded
@@ -1160,8 +1162,8 @@ def encode_range_checked_int(
         - `value < field.MODULUS`
         - `max_measurement < field.MODULUS`
     """
-    if value > max_measurement:
-        raise ValueError("measurement is too large")
+    if value < 0 or value > max_measurement:
+        raise ValueError("measurement is out of range")
 
     bits = max_measurement.bit_length()
     rest_all_ones_value = 2 ** (bits - 1) - 1
-- 
2.43.0


From 3446f9de42d8dc4e1dbe46b4771bd3205f29129a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:02:18 +0000
Subject: [PATCH 09/12] fix: reject a Sum circuit whose bound is not positive

SumVec and MultihotCountVec already check their bounds; Sum accepted zero
and negative ones.
---
 poc/vdaf_poc/flp_bbcggi19.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/poc/vdaf_poc/flp_bbcggi19.py b/poc/vdaf_poc/flp_bbcggi19.py
index 2c71d89..19ff64c 100644
--- a/poc/vdaf_poc/flp_bbcggi19.py
+++ b/poc/vdaf_poc/flp_bbcggi19.py
@@ -1095,6 +1095,9 @@ class Sum(Valid[int, int, F]):
         The validity circuit checks that each entry of the bit vector
         has a value of zero or one.
         """
+        if max_measurement <= 0:  # REMOVE ME
+            raise ValueError('invalid max_measurement')  # REMOVE ME
+
         self.field = field
         bits = max_measurement.bit_length()
         self.bits = bits
-- 
2.43.0


From f83505b3a6f215d3fdfed32a1ec30258226e20e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:02:23 +0000
Subject: [PATCH 10/12] fix: check prefix lengths when encoding a Poplar1
 aggregation parameter

Prefixes shorter or longer than the level were encoded as different
prefixes of the right length, or as a string that does not decode.
---
 poc/vdaf_poc/vdaf_poplar1.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/poc/vdaf_poc/vdaf_poplar1.py b/poc/vdaf_poc/vdaf_poplar1.py
index e676ff5..9aff1c5 100644
--- a/poc/vdaf_poc/vdaf_poplar1.py
+++ b/poc/vdaf_poc/vdaf_poplar1.py
@@ -429,6 +429,9 @@ class Poplar1(
             raise ValueError('level out of range')
         if len(prefixes) not in range(2 ** 32):
             raise ValueError('number of prefixes out of range')
+        for prefix in prefixes:
+            if len(prefix) != level + 1:
+                raise ValueError('incorrect prefix length')
         encoded = bytes()
         encoded += to_be_bytes(level, 2)
         encoded += to_be_bytes(len(prefixes), 4)
-- 
2.43.0


From 48ae655466865dae9b930132d98c16035f86a07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:02:28 +0000
Subject: [PATCH 11/12] fix: check the lengths of decoded Prio3 messages

The encodings of output shares, aggregate shares and verifier messages have
a fixed length, but strings of other lengths were accepted.
---
 poc/vdaf_poc/vdaf_prio3.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/poc/vdaf_poc/vdaf_prio3.py b/poc/vdaf_poc/vdaf_prio3.py
index 20e690b..67ba526 100644
--- a/poc/vdaf_poc/vdaf_prio3.py
+++ b/poc/vdaf_poc/vdaf_prio3.py
@@ -593,7 +593,10 @@ class Prio3(
         return self.flp.field.encode_vec(agg_share)
 
     def decode_agg_share(self, _agg_param: None, encoded: bytes) -> list[F]:
-        return self.flp.field.decode_vec(encoded)
+        agg_share = self.flp.field.decode_vec(encoded)
+        if len(agg_share) != self.flp.OUTPUT_LEN:
+            raise ValueError("incorrect aggregate share length")
+        return agg_share
 
     def encode_verifier_share(self, verifier_share: Prio3VerifierShare[F]) -> bytes:
         (verifiers_share, joint_rand_part) = verifier_share
@@ -626,15 +629,22 @@ class Prio3(
         return encoded
 
     def decode_verifier_message(self, _verify_state: Prio3VerifyState[F], encoded: bytes) -> Optional[bytes]:
-        if len(encoded) == 0:
+        if self.flp.JOINT_RAND_LEN == 0:
+            if len(encoded) != 0:
+                raise ValueError("verifier message is too long")
             return None
+        if len(encoded) != self.xof.SEED_SIZE:
+            raise ValueError("incorrect verifier message length")
         return encoded
 
     def encode_out_share(self, out_share: list[F]) -> bytes:
         return self.flp.field.encode_vec(out_share)
 
     def decode_out_share(self, _agg_param: None, encoded: bytes) -> list[F]:
-        return self.flp.field.decode_vec(encoded)
+        out_share = self.flp.field.decode_vec(encoded)
+        if len(out_share) != self.flp.OUTPUT_LEN:
+            raise ValueError("incorrect output share length")
+        return out_share
 
 
 ##
-- 
2.43.0


From be1c05f660777053cd035f0e1b89315a72085e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:02:33 +0000
Subject: [PATCH 12/12] fix: check the lengths of decoded Poplar1 messages

The encodings of output shares, aggregate shares, verifier shares and
verifier messages have lengths fixed by the aggregation parameter and the
round, but strings of other lengths were accepted.
---
 poc/vdaf_poc/vdaf_poplar1.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/poc/vdaf_poc/vdaf_poplar1.py b/poc/vdaf_poc/vdaf_poplar1.py
index 9aff1c5..f89636c 100644
--- a/poc/vdaf_poc/vdaf_poplar1.py
+++ b/poc/vdaf_poc/vdaf_poplar1.py
@@ -529,17 +529,23 @@ class Poplar1(
         return encode_idpf_field_vec(agg_share)
 
     def decode_agg_share(self, agg_param: Poplar1AggParam, encoded: bytes) -> FieldVec:
-        level, _ = agg_param
+        level, prefixes = agg_param
         field = self.idpf.current_field(level)
-        return field.decode_vec(encoded)
+        agg_share = field.decode_vec(encoded)
+        if len(agg_share) != len(prefixes):
+            raise ValueError('incorrect aggregate share length')
+        return agg_share
 
     def encode_verifier_share(self, verifier_share: FieldVec) -> bytes:
         return encode_idpf_field_vec(verifier_share)
 
     def decode_verifier_share(self, verify_state: Poplar1VerifyState, encoded: bytes) -> FieldVec:
-        _, level, _ = verify_state
+        step, level, _ = verify_state
         field = self.idpf.current_field(level)
-        return field.decode_vec(encoded)
+        verifier_share = field.decode_vec(encoded)
+        if len(verifier_share) != (3 if step == b'evaluate sketch' else 1):
+            raise ValueError('incorrect verifier share length')
+        return verifier_share
 
     def encode_verifier_message(self, verifier_message: Optional[FieldVec]) -> bytes:
         if verifier_message is not None:
@@ -547,19 +553,27 @@ class Poplar1(
         return b''
 
     def decode_verifier_message(self, verify_state: Poplar1VerifyState, encoded: bytes) -> Optional[FieldVec]:
-        if len(encoded) == 0:
+        step, level, _ = verify_state
+        if step != b'evaluate sketch':
+            if len(encoded) != 0:
+                raise ValueError('verifier message is too long')
             return None
-        _, level, _ = verify_state
         field = self.idpf.current_field(level)
-        return field.decode_vec(encoded)
+        verifier_message = field.decode_vec(encoded)
+        if len(verifier_message) != 3:
+            raise ValueError('incorrect verifier message length')
+        return verifier_message
 
     def encode_out_share(self, out_share: FieldVec) -> bytes:
         return encode_idpf_field_vec(out_share)
 
     def decode_out_share(self, agg_param: Poplar1AggParam, encoded: bytes) -> FieldVec:
-        level, _ = agg_param
+        level, prefixes = agg_param
         field = self.idpf.current_field(level)
-        return field.decode_vec(encoded)
+        out_share = field.decode_vec(encoded)
+        if len(out_share) != len(prefixes):
+            raise ValueError('incorrect output share length')
+        return out_share
 
 
 def encode_idpf_field_vec(vec: FieldVec) -> bytes:
-- 
2.43.0

