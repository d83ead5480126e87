From 9771806a1dcf96d149b6ee8220f6ab624a5c8ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:54 +0000
Subject: [PATCH 01/72] fix: decode a constrained whole number with a
 single-value range as its lower bound, not 0

---
 asn1PERser/codec/per/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 0024a67..6f5e7b7 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -633,7 +633,7 @@ def decode_constrained_whole_number(per_bytes, lowerBound, upperBound):
     field_size = get_bit_field_size(range)
     logger.debug("constrained whole number: range: %s; size: %s", range, field_size)
     if range == 1:
-        return 0
+        return lowerBound
     elif range <= 255:
         non_negative_binary_integer = decode_non_negative_binary_integer(per_bytes, field_size, octet_align=False)
     elif range == 256:
-- 
2.43.0


From 29e8405da2deadd41c01c81529d4c56dc3dc88ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:54 +0000
Subject: [PATCH 02/72] fix: keep leading zero octets when decoding a
 size-constrained OCTET STRING

---
 asn1PERser/codec/per/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 6f5e7b7..3a238ee 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -290,7 +290,7 @@ def decode_octetstring(octetstring, per_bytes):
                 logger.info("%s: decoding finished.", octetstring.__class__.__name__)
                 return octetstring.__class__(octetstring.__class__.fromHexString(''))
             octetstring_val = per_bytes.next(size=bit_field_size(octets=octetstring_length_determinant, bits=0), octet_align=True)
-            octetstring_val = hex(octetstring_val)[2:].rstrip("L")
+            octetstring_val = hex(octetstring_val)[2:].rstrip("L").zfill(octetstring_length_determinant * 2)
             logger.info("%s: value: %s", octetstring.__class__.__name__, octetstring_val)
             logger.info("%s: decoding finished.", octetstring.__class__.__name__)
             return octetstring.__class__(octetstring.__class__.fromHexString(octetstring_val))
-- 
2.43.0


From 372cccf6e830329cbf874d6d8306b575500aaec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:54 +0000
Subject: [PATCH 03/72] fix: decode an empty unconstrained OCTET STRING as
 empty, not as one zero octet

---
 asn1PERser/codec/per/decoder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 3a238ee..a98e808 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -301,6 +301,10 @@ def decode_octetstring(octetstring, per_bytes):
                                                                        n=per_bytes,
                                                                        lowerBound=0,
                                                                        upperBound=None)
+            if octetstring_length_determinant == 0:
+                logger.info("%s: length determinant is 0 so value is empty string: ''", octetstring.__class__.__name__)
+                logger.info("%s: decoding finished.", octetstring.__class__.__name__)
+                return octetstring.__class__(octetstring.__class__.fromHexString(''))
             octetstring_val = per_bytes.next(size=bit_field_size(octets=octetstring_length_determinant, bits=0))
             octetstring_val = hex(octetstring_val)[2:].rstrip("L").zfill(octetstring_length_determinant * 2)
             logger.info("%s: value: %s", octetstring.__class__.__name__, octetstring_val)
-- 
2.43.0


From ca7d06267d78e1d9f0d2eb93988bbac1bcd5ee3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:23 +0000
Subject: [PATCH 04/72] fix: encode and decode an empty BIT STRING as length 0,
 not as a single zero bit

---
 asn1PERser/codec/per/decoder.py | 12 ++++++++++++
 asn1PERser/codec/per/encoder.py |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index a98e808..7a51ca7 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -172,6 +172,10 @@ def decode_bitstring(bitstring, per_bytes):
                                                                      n=per_bytes,
                                                                      lowerBound=0,
                                                                      upperBound=None)
+            if bitstring_length_determinant == 0:
+                logger.info("%s: length determinant is 0 so value is empty string: ''", bitstring.__class__.__name__)
+                logger.info("%s: decoding finished.", bitstring.__class__.__name__)
+                return bitstring.__class__('')
             bitstring_val = per_bytes.next(size=bit_field_size(octets=0, bits=bitstring_length_determinant))
             per_bytes.next(size=bit_field_size(octets=0, bits=0), octet_align=True)
             bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant)
@@ -209,6 +213,10 @@ def decode_bitstring(bitstring, per_bytes):
                                                                      n=per_bytes,
                                                                      lowerBound=bitstring.subtypeSpec.lowerEndpoint,
                                                                      upperBound=bitstring.subtypeSpec.upperEndpoint)
+            if bitstring_length_determinant == 0:
+                logger.info("%s: length determinant is 0 so value is empty string: ''", bitstring.__class__.__name__)
+                logger.info("%s: decoding finished.", bitstring.__class__.__name__)
+                return bitstring.__class__('')
             bitstring_val = per_bytes.next(size=bit_field_size(octets=0, bits=bitstring_length_determinant), octet_align=True)
             bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant)
             logger.info("%s: value: %s", bitstring.__class__.__name__, bitstring_val)
@@ -222,6 +230,10 @@ def decode_bitstring(bitstring, per_bytes):
                                                                      n=per_bytes,
                                                                      lowerBound=0,
                                                                      upperBound=None)
+            if bitstring_length_determinant == 0:
+                logger.info("%s: length determinant is 0 so value is empty string: ''", bitstring.__class__.__name__)
+                logger.info("%s: decoding finished.", bitstring.__class__.__name__)
+                return bitstring.__class__('')
             bitstring_val = per_bytes.next(size=bit_field_size(octets=0, bits=bitstring_length_determinant), octet_align=True)
             bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant)
             logger.info("%s: value: %s", bitstring.__class__.__name__, bitstring_val)
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 7159457..4876b1f 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -122,7 +122,7 @@ def encode_bitstring(bitstring):    # 16
     if bitstring.namedValues:    # 16.2, 16.3
         raise NotImplemented
 
-    bitstring_value = bitstring.asBinary()
+    bitstring_value = bitstring.asBinary() if len(bitstring) else ''    # asBinary() of empty bitstring is '0'
     bitstring_len = len(bitstring_value)
     extension_bit_field = None
     if bitstring.subtypeSpec.extensionMarker:    # 16.6
-- 
2.43.0


From 61d5e9fc9cfeb16c85080eb7ebd3e91c199f9ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:23 +0000
Subject: [PATCH 05/72] fix: do not skip padding that the encoder does not
 write after a BIT STRING of extended size

---
 asn1PERser/codec/per/decoder.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 7a51ca7..85d8629 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -177,7 +177,6 @@ def decode_bitstring(bitstring, per_bytes):
                 logger.info("%s: decoding finished.", bitstring.__class__.__name__)
                 return bitstring.__class__('')
             bitstring_val = per_bytes.next(size=bit_field_size(octets=0, bits=bitstring_length_determinant))
-            per_bytes.next(size=bit_field_size(octets=0, bits=0), octet_align=True)
             bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant)
             logger.info("%s: value: %s", bitstring.__class__.__name__, bitstring_val)
             logger.info("%s: decoding finished.", bitstring.__class__.__name__)
-- 
2.43.0


From e4bfbee9184866811a6ce18c9af62c98cc7c9422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:23 +0000
Subject: [PATCH 06/72] fix: do not pad before a zero-length octet-aligned
 field, which the decoder does not expect

---
 asn1PERser/codec/per/encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 4876b1f..57a6cf0 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -40,7 +40,7 @@ def encode(asn1Spec):
 def _produce_complete_encoding(field_list):    # 11.1
     complete_encoding = ''
     for field in field_list:
-        if field.octet_align:
+        if field.octet_align and field.value:    # zero-length field needs no alignment
             if len(complete_encoding) % 8 != 0:
                 complete_encoding += ''.zfill(abs(len(complete_encoding) % 8 - 8))
             complete_encoding += field.value
-- 
2.43.0


From 534a99a7ab37746a5e69b61caa8e1da78415030a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:23 +0000
Subject: [PATCH 07/72] fix: write the extension bit of BIT STRING and OCTET
 STRING with SIZE(0..0,...)

---
 asn1PERser/codec/per/encoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 57a6cf0..f649ff1 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -139,7 +139,7 @@ def encode_bitstring(bitstring):    # 16
             return [extension_bit_field] + bitstring_length_determinant + [bitstring_bit_field]
     # else:    # 16.7
     if bitstring.subtypeSpec.upperEndpoint == 0:    # 16.8
-        return
+        return [extension_bit_field] if extension_bit_field else []
     if (bitstring.subtypeSpec.lowerEndpoint is not None) and (bitstring.subtypeSpec.lowerEndpoint == bitstring.subtypeSpec.upperEndpoint):
         if bitstring_len <= 16:    # 16.9
             bitstring_bit_field = bit_field(octet_align=False, value=bitstring_value)
@@ -195,7 +195,7 @@ def encode_octetstring(octetstring):
                                                                        upperBound=None)
             return [extension_bit_field] + octetstring_length_determinant + [octetstring_bit_field]
     if octetstring.subtypeSpec.upperEndpoint == 0:    # 17.5
-        return
+        return [extension_bit_field] if extension_bit_field else []
     if (octetstring.subtypeSpec.lowerEndpoint is not None) and (octetstring.subtypeSpec.lowerEndpoint == octetstring.subtypeSpec.upperEndpoint):
         if octetstring_len <= 2:    # 17.6
             octetstring_bit_field = bit_field(octet_align=False, value=octetstring_value)
-- 
2.43.0


From 2db659574df67abbf114f16260c2470f49d56504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:51 +0000
Subject: [PATCH 08/72] fix: decode an empty SEQUENCE OF (and a SIZE(0) string)
 to an empty value instead of failing or returning a bare str

---
 asn1PERser/codec/per/decoder.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 85d8629..52a8857 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -69,8 +69,6 @@ def decode(per_stream, asn1Spec, **kwargs):
     per_bytes = PerBytes(binascii.hexlify(per_stream))
     logger.debug("Decoding of bytes: '%s' started. Binary representation: '%s'", codecs.encode(per_stream, "hex_codec"), per_bytes.binary_string)
     decoded = asn1Spec.create_field_list(per_bytes)
-    if decoded == '':
-        return asn1Spec.__class__('')
     return decoded
 
 
@@ -184,7 +182,7 @@ def decode_bitstring(bitstring, per_bytes):
     if bitstring.subtypeSpec.upperEndpoint == 0:    # 16.8
         logger.info("%s: upperEndpoint is 0 so value is empty string: ''", bitstring.__class__.__name__)
         logger.info("%s: decoding finished.", bitstring.__class__.__name__)
-        return ''
+        return bitstring.__class__('')
     if (bitstring.subtypeSpec.lowerEndpoint is not None) and (bitstring.subtypeSpec.lowerEndpoint == bitstring.subtypeSpec.upperEndpoint):
         logger.info("%s: lowerEndpoint == upperEndpoint == %s", bitstring.__class__.__name__, bitstring.subtypeSpec.lowerEndpoint)
         if bitstring.subtypeSpec.lowerEndpoint <= 16:    # 16.9
@@ -267,7 +265,7 @@ def decode_octetstring(octetstring, per_bytes):
     if octetstring.subtypeSpec.upperEndpoint == 0:  # 17.5
         logger.info("%s: upperEndpoint is 0 so value is empty string: ''", octetstring.__class__.__name__)
         logger.info("%s: decoding finished.", octetstring.__class__.__name__)
-        return ''
+        return octetstring.__class__('')
     if (octetstring.subtypeSpec.lowerEndpoint is not None) and (octetstring.subtypeSpec.lowerEndpoint == octetstring.subtypeSpec.upperEndpoint):
         logger.info("%s: lowerEndpoint == upperEndpoint == %s", octetstring.__class__.__name__,
                     octetstring.subtypeSpec.lowerEndpoint)
@@ -431,6 +429,7 @@ def decode_sequence(sequence, per_bytes):
 def decode_sequence_of(sequence_of, per_bytes):
     logger.info("Decoding sequence of: %s", sequence_of.__class__.__name__)
     new_seq_of = sequence_of.__class__()
+    new_seq_of.clear()    # value with no components, not a schema object
     component_type = sequence_of.getComponentType()
     if sequence_of.subtypeSpec.extensionMarker:  # 20.4
         logger.info("%s: extension marker should be present", sequence_of.__class__.__name__)
-- 
2.43.0


From 243abcd6582b6b5184fe604d026540fb6b967eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:24 +0000
Subject: [PATCH 09/72] fix: use an unconstrained length for OCTET STRING and
 SEQUENCE OF whose size upper bound is 64K or more

---
 asn1PERser/codec/per/decoder.py | 4 ++--
 asn1PERser/codec/per/encoder.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 52a8857..ad963e0 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -288,7 +288,7 @@ def decode_octetstring(octetstring, per_bytes):
     else:  # 17.8
         logger.info("%s: lowerEndpoint = %s; upperEndpoint = %s", octetstring.__class__.__name__,
                     octetstring.subtypeSpec.lowerEndpoint, octetstring.subtypeSpec.upperEndpoint)
-        if octetstring.subtypeSpec.upperEndpoint:
+        if octetstring.subtypeSpec.upperEndpoint and octetstring.subtypeSpec.upperEndpoint < 65536:
             octetstring_length_determinant = decode_length_determinant(normally_small_length=False,
                                                                        constrained=True,
                                                                        n=per_bytes,
@@ -480,7 +480,7 @@ def decode_sequence_of(sequence_of, per_bytes):
     else:  # 20.6
         logger.info("%s: lowerEndpoint = %s and upperEndpoint = %s", sequence_of.__class__.__name__,
                     sequence_of.subtypeSpec.lowerEndpoint, sequence_of.subtypeSpec.upperEndpoint)
-        if sequence_of.subtypeSpec.upperEndpoint:
+        if sequence_of.subtypeSpec.upperEndpoint and sequence_of.subtypeSpec.upperEndpoint < 65536:
             length_determinant = decode_length_determinant(normally_small_length=False,
                                                            constrained=True,
                                                            n=per_bytes,
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index f649ff1..356bd10 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -211,7 +211,7 @@ def encode_octetstring(octetstring):
             raise NotImplemented
     else:    # 17.8
         octetstring_bit_field = bit_field(octet_align=True, value=octetstring_value)
-        if octetstring.subtypeSpec.upperEndpoint:
+        if octetstring.subtypeSpec.upperEndpoint and octetstring.subtypeSpec.upperEndpoint < 65536:
             octetstring_length_determinant = encode_length_determinant(normally_small_length=False,
                                                                        constrained=True,
                                                                        n=octetstring_len,
@@ -379,7 +379,7 @@ def encode_sequence_of(sequence_of):    # 20
     elif (sequence_of.subtypeSpec.lowerEndpoint == sequence_of.subtypeSpec.upperEndpoint) and (sequence_of.subtypeSpec.upperEndpoint < 65536):    # 20.5
         return sequence_of_field_list
     else:    # 20.6
-        if sequence_of.subtypeSpec.upperEndpoint:
+        if sequence_of.subtypeSpec.upperEndpoint and sequence_of.subtypeSpec.upperEndpoint < 65536:
             length_determinant = encode_length_determinant(normally_small_length=False, constrained=True,
                                                            n=n, lowerBound=sequence_of.subtypeSpec.lowerEndpoint,
                                                            upperBound=sequence_of.subtypeSpec.upperEndpoint)
-- 
2.43.0


From 98b39f07a56be27867cc8634c533534b7527370c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:28 +0000
Subject: [PATCH 10/72] fix: raise NotImplementedError for unsupported
 encodings ('raise NotImplemented' is a TypeError)

---
 asn1PERser/codec/per/decoder.py | 16 ++++++++--------
 asn1PERser/codec/per/encoder.py | 12 ++++++------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index ad963e0..024de50 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -101,7 +101,7 @@ def decode_integer(integer, per_bytes):
     else:
         if is_constant(integer):
             logger.error("%s: constant integer is not supported")
-            raise NotImplemented
+            raise NotImplementedError
         elif is_constrained_whole_number(integer):
             if integer.subtypeSpec.lowerEndpoint == integer.subtypeSpec.upperEndpoint:    # 13.2.1
                 logger.info("%s: is contrained to single value: %s", integer.__class__.__name__, integer.subtypeSpec.lowerEndpoint)
@@ -200,7 +200,7 @@ def decode_bitstring(bitstring, per_bytes):
             return bitstring.__class__(bitstring_val)
         else:
             logger.error("%s: lowerEndpoint >= 65536 not supported", bitstring.__class__.__name__)
-            raise NotImplemented
+            raise NotImplementedError
     else:    # 16.11
         if bitstring.subtypeSpec.upperEndpoint and bitstring.subtypeSpec.upperEndpoint < 65536:
             logger.info("%s: lowerEndpoint (%s) and upperEdnpoint (%s) < 65536", bitstring.__class__.__name__,
@@ -284,7 +284,7 @@ def decode_octetstring(octetstring, per_bytes):
             return octetstring.__class__(octetstring.__class__.fromHexString(octetstring_val))
         else:
             logger.error("%s: lowerEndpoint >= 65536 not supported", octetstring.__class__.__name__)
-            raise NotImplemented
+            raise NotImplementedError
     else:  # 17.8
         logger.info("%s: lowerEndpoint = %s; upperEndpoint = %s", octetstring.__class__.__name__,
                     octetstring.subtypeSpec.lowerEndpoint, octetstring.subtypeSpec.upperEndpoint)
@@ -343,7 +343,7 @@ def decode_sequence(sequence, per_bytes):
             optional_default_bit_field_value = deque(optional_default_bit_field_value)
         else:
             logger.error("%s: optional_default_bit_field_len >= 65536 not supported.")
-            raise NotImplemented
+            raise NotImplementedError
     for namedType in sequence.rootComponent.namedTypes:
         if namedType.isOptional:
             is_present = int(optional_default_bit_field_value.popleft())
@@ -584,7 +584,7 @@ def decode_choice(choice, per_bytes):    # 23
             else:  # is this a valid case?
                 logger.error("%s: extension bit is present but neither extension addition nor extension addition groups are.",
                              choice.__class__.__name__)
-                raise NotImplemented
+                raise NotImplementedError
             namedType = choice_extension.namedTypes[index]
             selected_component = choice.getComponentByName(namedType.name)
             logger.info("%s: chosen component: '%s' of type '%s' has index %s (indexed from extension choices). Decoding...",
@@ -695,7 +695,7 @@ def decode_non_negative_binary_integer(per_bytes, field_size, octet_align, minim
                  "minimum_number_of_octets: %s", field_size, octet_align, minimum_number_of_octets)
     if minimum_number_of_octets:
         logger.error("Parameter 'minimum_number_of_octets' no supported.")
-        raise NotImplemented
+        raise NotImplementedError
     else:
         decoded = per_bytes.next(field_size)
         logger.debug("Non-negative binary integer value: '%s'", decoded)
@@ -723,7 +723,7 @@ def decode_length_determinant(normally_small_length, constrained, n, lowerBound,
                                                                                         octet_align=False)
             return normally_small_length_determinant_size + 1
         else:    # n > 64
-            raise NotImplemented
+            raise NotImplementedError
     elif constrained:
         constrained_length_determinant = decode_constrained_whole_number(per_bytes=n, lowerBound=lowerBound, upperBound=upperBound)
         return constrained_length_determinant
@@ -744,7 +744,7 @@ def decode_length_determinant(normally_small_length, constrained, n, lowerBound,
                                                                                       octet_align=True)
                 return unconstrained_length_determinant
             else:
-                raise NotImplemented
+                raise NotImplementedError
 
 
 def create_new_fake_empty_sequence(rootComponent):
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 356bd10..a1f56d0 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -120,7 +120,7 @@ def encode_enumerated(enumerated):
 
 def encode_bitstring(bitstring):    # 16
     if bitstring.namedValues:    # 16.2, 16.3
-        raise NotImplemented
+        raise NotImplementedError
 
     bitstring_value = bitstring.asBinary() if len(bitstring) else ''    # asBinary() of empty bitstring is '0'
     bitstring_len = len(bitstring_value)
@@ -152,7 +152,7 @@ def encode_bitstring(bitstring):    # 16
                 return [extension_bit_field, bitstring_bit_field]
             return [bitstring_bit_field]
         else:
-            raise NotImplemented
+            raise NotImplementedError
     else:    # 16.11
         bitstring_bit_field = bit_field(octet_align=True, value=bitstring_value)
         if bitstring.subtypeSpec.upperEndpoint and bitstring.subtypeSpec.upperEndpoint < 65536:
@@ -208,7 +208,7 @@ def encode_octetstring(octetstring):
                 return [extension_bit_field, octetstring_bit_field]
             return [octetstring_bit_field]
         else:
-            raise NotImplemented
+            raise NotImplementedError
     else:    # 17.8
         octetstring_bit_field = bit_field(octet_align=True, value=octetstring_value)
         if octetstring.subtypeSpec.upperEndpoint and octetstring.subtypeSpec.upperEndpoint < 65536:
@@ -266,7 +266,7 @@ def encode_sequence(sequence):    # 19
             optional_default_bit_field = bit_field(octet_align=False, value=optional_default_bit_field_value)
             rootComponentFieldList = [optional_default_bit_field] + rootComponentFieldList
         else:
-            raise NotImplemented
+            raise NotImplementedError
     if sequence.subtypeSpec.extensionMarker:    # 19.1
         extension_bit = bit_field(octet_align=False, value='0')
         if (not sequence.extensionAddition) and (not sequence.extensionAdditionGroups):
@@ -555,7 +555,7 @@ def encode_length_determinant(normally_small_length, constrained, n, lowerBound,
                                                                                    octet_align=False)
             return [single_bit_field, normally_small_length_determinant]
         else:
-            raise NotImplemented
+            raise NotImplementedError
     elif constrained:    # 11.9.3.3
         constrained_length_determinant = encode_constrained_whole_number(n=n, lowerBound=lowerBound, upperBound=upperBound)
         return [constrained_length_determinant]
@@ -575,7 +575,7 @@ def encode_length_determinant(normally_small_length, constrained, n, lowerBound,
                                                                                  value='10' + encoded_length_determinant.value)
             return [encoded_length_determinant_with_8th_bit_one_7th_bit_zero]
         else:
-            raise NotImplemented
+            raise NotImplementedError
 
 
 def get_bit_field_size(range):
-- 
2.43.0


From c6c409af17c8292b67810c3b7c3e24afdf2b7312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:28 +0000
Subject: [PATCH 11/72] fix: refuse a length of 16384 (needs fragmentation)
 instead of writing a corrupt 17-bit length

---
 asn1PERser/codec/per/encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index a1f56d0..2156553 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -567,7 +567,7 @@ def encode_length_determinant(normally_small_length, constrained, n, lowerBound,
             encoded_length_determinant_with_8th_bit_zero = bit_field(octet_align=encoded_length_determinant.octet_align,
                                                                      value= '0' + encoded_length_determinant.value)
             return [encoded_length_determinant_with_8th_bit_zero]
-        elif 127 < n <= 16384:    # 11.9.3.7
+        elif 127 < n < 16384:    # 11.9.3.7
             determinant_size = bit_field_size(octets=1, bits=6)
             encoded_length_determinant = encode_non_negative_binary_integer(value=n, size=determinant_size,
                                                                             octet_align=True)
-- 
2.43.0


From 53b3966d1ea54291be034701dfc1fe03d31130df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:32 +0000
Subject: [PATCH 12/72] fix: use a general length determinant for unconstrained
 INTEGER values longer than 127 octets

---
 asn1PERser/codec/per/decoder.py |  6 +++++-
 asn1PERser/codec/per/encoder.py | 12 ++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 024de50..ed58ff4 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -681,7 +681,11 @@ def decode_normally_small_non_negative_whole_number(per_bytes, lower_bound):
 
 def decode_unconstrained_whole_number(per_bytes):
     logger.debug("function: decode_unconstrained_whole_number; params: per_bytes: (hidden)")
-    unconstrained_length_determinant = per_bytes.next(octet_align=True)
+    unconstrained_length_determinant = decode_length_determinant(normally_small_length=False,
+                                                                 constrained=False,
+                                                                 n=per_bytes,
+                                                                 lowerBound=1,
+                                                                 upperBound=None)
     logger.debug("unconstarined length determinant: %s", unconstrained_length_determinant)
     unconstrained_whole_number = twos_comp(
         per_bytes=per_bytes.next(bit_field_size(octets=unconstrained_length_determinant, bits=0)),
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 2156553..0fdaa4b 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -523,10 +523,14 @@ def encode_semi_constrained_whole_number(n, lower_bound):    # 11.7
 
 
 def create_field_list_for_unconstrained_whole_number(integer):
-    unconstrained_length_determinant = get_twos_complement_octet_len(integer)
-    unconstrained_whole_number = encode_unconstrained_whole_number(integer, unconstrained_length_determinant)
-    unconstrained_length_determinant = '{0:08b}'.format(unconstrained_length_determinant)
-    return [bit_field(octet_align=True, value=unconstrained_length_determinant + unconstrained_whole_number.value)]
+    octet_len = get_twos_complement_octet_len(integer)
+    unconstrained_whole_number = encode_unconstrained_whole_number(integer, octet_len)
+    unconstrained_length_determinant = encode_length_determinant(normally_small_length=False,
+                                                                 constrained=False,
+                                                                 n=octet_len,
+                                                                 lowerBound=1,
+                                                                 upperBound=None)
+    return unconstrained_length_determinant + [unconstrained_whole_number]
 
 
 def encode_unconstrained_whole_number(integer, unconstrained_length_determinant):    # 11.8
-- 
2.43.0


From 519b3291fe3f68e5d5e29c4f635b34a6964e5117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:21 +0000
Subject: [PATCH 13/72] fix: encode and decode extensible constraints whose
 root has a MIN or MAX endpoint or a 64K size

---
 asn1PERser/codec/per/decoder.py |  9 ++++--
 asn1PERser/codec/per/encoder.py | 57 +++++++++++++++++++++------------
 2 files changed, 44 insertions(+), 22 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index ed58ff4..d12c8c1 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -3,7 +3,7 @@ import logging
 import codecs
 from collections import deque
 from .encoder import bit_field_size, get_bit_field_size, integer_range, get_range_octet_len, \
-    is_constrained_whole_number, is_semi_constrained_whole_number, is_constant
+    is_constrained_whole_number, is_semi_constrained_whole_number, is_constant, is_length_constrained
 
 
 __all__ = ['decode']
@@ -91,6 +91,11 @@ def decode_integer(integer, per_bytes):
             logger.info("%s: value: %s", integer.__class__.__name__, unconstrained_whole_number)
             logger.info("%s: decoding finished.", integer.__class__.__name__)
             return integer.__class__(unconstrained_whole_number)
+        elif is_semi_constrained_whole_number(integer):    # root with MAX
+            return integer.__class__(decode_semi_constrained_whole_number_from_field_list(per_bytes=per_bytes,
+                                                                                          lowerBound=integer.subtypeSpec.lowerEndpoint))
+        elif not is_constrained_whole_number(integer):    # root with MIN
+            return integer.__class__(decode_unconstrained_whole_number(per_bytes))
         else:
             constrained_whole_number = decode_constrained_whole_number_from_field_list(per_bytes=per_bytes,
                                                                                        lowerEndpoint=integer.subtypeSpec.lowerEndpoint,
@@ -437,7 +442,7 @@ def decode_sequence_of(sequence_of, per_bytes):
         logger.info("%s: extension bit: %s", sequence_of.__class__.__name__, extension_bit_field)
         if not extension_bit_field:
             length_determinant = decode_length_determinant(normally_small_length=False,
-                                                           constrained=True,
+                                                           constrained=is_length_constrained(sequence_of.subtypeSpec),
                                                            n=per_bytes,
                                                            lowerBound=sequence_of.subtypeSpec.lowerEndpoint,
                                                            upperBound=sequence_of.subtypeSpec.upperEndpoint)
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 0fdaa4b..f582a98 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -66,11 +66,13 @@ def encode_boolean(boolean):    # 12
 
 def encode_integer(integer):
     if integer.subtypeSpec.extensionMarker:    # 13.1
-        if integer.subtypeSpec.lowerEndpoint <= integer._value <= integer.subtypeSpec.upperEndpoint:
+        if is_within_extension_root(integer._value, integer.subtypeSpec):
+            extension_bit_field = bit_field(octet_align=False, value='0')
+            if not is_constrained_whole_number(integer):    # root with MIN or MAX
+                return [extension_bit_field] + create_field_list_for_not_constrained_whole_number(integer)
             constrained_whole_number_field_list = create_field_list_for_constrained_whole_number(n=integer._value,
                                                                                                  lowerEndpoint=integer.subtypeSpec.lowerEndpoint,
                                                                                                  upperEndpoint=integer.subtypeSpec.upperEndpoint)
-            extension_bit_field = bit_field(octet_align=False, value='0')
             return [extension_bit_field] + constrained_whole_number_field_list
         else:
             extension_bit_field = bit_field(octet_align=False, value='1')
@@ -84,20 +86,8 @@ def encode_integer(integer):
                                                                                                  lowerEndpoint=integer.subtypeSpec.lowerEndpoint,
                                                                                                  upperEndpoint=integer.subtypeSpec.upperEndpoint)
             return constrained_whole_number_field_list
-        elif is_semi_constrained_whole_number(integer):    # 13.2.3
-            semi_constrained_whole_number = encode_semi_constrained_whole_number(n=integer._value,
-                                                                                 lower_bound=integer.subtypeSpec.lowerEndpoint)
-            n = int(len(semi_constrained_whole_number.value) / 8)
-            unconstrained_length_determinant = encode_length_determinant(normally_small_length=False,
-                                                                         constrained=False,
-                                                                         n=n,
-                                                                         lowerBound=1,
-                                                                         upperBound=None)
-            return unconstrained_length_determinant + [semi_constrained_whole_number]
-
-        else:    # 13.2.4
-            unconstrained_whole_number_field_list = create_field_list_for_unconstrained_whole_number(integer)
-            return unconstrained_whole_number_field_list
+        else:    # 13.2.3, 13.2.4
+            return create_field_list_for_not_constrained_whole_number(integer)
 
 
 def encode_enumerated(enumerated):
@@ -126,7 +116,7 @@ def encode_bitstring(bitstring):    # 16
     bitstring_len = len(bitstring_value)
     extension_bit_field = None
     if bitstring.subtypeSpec.extensionMarker:    # 16.6
-        if bitstring.subtypeSpec.lowerEndpoint <= bitstring_len <= bitstring.subtypeSpec.upperEndpoint:
+        if is_within_extension_root(bitstring_len, bitstring.subtypeSpec):
             extension_bit_field = bit_field(octet_align=False, value='0')
         else:
             bitstring_bit_field = bit_field(octet_align=True, value=bitstring_value)
@@ -183,7 +173,7 @@ def encode_octetstring(octetstring):
 
     extension_bit_field = None
     if octetstring.subtypeSpec.extensionMarker:    # 17.3
-        if octetstring.subtypeSpec.lowerEndpoint <= octetstring_len <= octetstring.subtypeSpec.upperEndpoint:
+        if is_within_extension_root(octetstring_len, octetstring.subtypeSpec):
             extension_bit_field = bit_field(octet_align=False, value='0')
         else:
             octetstring_bit_field = bit_field(octet_align=False, value=octetstring_value)
@@ -360,9 +350,10 @@ def encode_sequence_of(sequence_of):    # 20
     for component in sequence_of:
         component.fill_field_list(sequence_of_field_list)
     if sequence_of.subtypeSpec.extensionMarker:    #20.4
-        if sequence_of.subtypeSpec.lowerEndpoint <= n <= sequence_of.subtypeSpec.upperEndpoint:
+        if is_within_extension_root(n, sequence_of.subtypeSpec):
             extension_bit_field = bit_field(octet_align=False, value='0')
-            length_determinant = encode_length_determinant(normally_small_length=False, constrained=True,
+            length_determinant = encode_length_determinant(normally_small_length=False,
+                                                           constrained=is_length_constrained(sequence_of.subtypeSpec),
                                                            n=n, lowerBound=sequence_of.subtypeSpec.lowerEndpoint,
                                                            upperBound=sequence_of.subtypeSpec.upperEndpoint)
             return [extension_bit_field] + length_determinant + sequence_of_field_list
@@ -450,6 +441,20 @@ def create_field_list_for_constrained_whole_number(n, lowerEndpoint, upperEndpoi
         return constrained_length_determinant + [constrained_whole_number]
 
 
+def create_field_list_for_not_constrained_whole_number(integer):
+    if is_semi_constrained_whole_number(integer):    # 13.2.3
+        semi_constrained_whole_number = encode_semi_constrained_whole_number(n=integer._value,
+                                                                             lower_bound=integer.subtypeSpec.lowerEndpoint)
+        n = int(len(semi_constrained_whole_number.value) / 8)
+        unconstrained_length_determinant = encode_length_determinant(normally_small_length=False,
+                                                                     constrained=False,
+                                                                     n=n,
+                                                                     lowerBound=1,
+                                                                     upperBound=None)
+        return unconstrained_length_determinant + [semi_constrained_whole_number]
+    return create_field_list_for_unconstrained_whole_number(integer)    # 13.2.4
+
+
 def encode_open_type_field(type):    # 11.2
     type_field_list = []
     type.fill_field_list(type_field_list)
@@ -640,6 +645,18 @@ def get_twos_complement_octet_len(integer):
                 power_multiplier += 1
 
 
+def is_within_extension_root(n, constraint):
+    if (constraint.lowerEndpoint is not None) and (n < constraint.lowerEndpoint):
+        return False
+    if (constraint.upperEndpoint is not None) and (n > constraint.upperEndpoint):
+        return False
+    return True
+
+
+def is_length_constrained(constraint):    # 11.9.4.1
+    return (constraint.upperEndpoint is not None) and (constraint.upperEndpoint < 65536)
+
+
 def is_constrained_whole_number(integer):
     if (integer.subtypeSpec.lowerEndpoint is not None) and (integer.subtypeSpec.upperEndpoint is not None):
         return True
-- 
2.43.0


From 59bac860863b35017293a934a750428027c10d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:31 +0000
Subject: [PATCH 14/72] fix: treat MIN as 0 in a size constraint so that
 SIZE(MIN..n) can be encoded

---
 asn1PERser/classes/types/constraint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1PERser/classes/types/constraint.py b/asn1PERser/classes/types/constraint.py
index c563c5f..38793b3 100644
--- a/asn1PERser/classes/types/constraint.py
+++ b/asn1PERser/classes/types/constraint.py
@@ -45,7 +45,7 @@ class SequenceOfValueSize(ConstraintsIntersection):
     '''
     def __init__(self, lower_endpoint, upper_endpoint, extensionMarker=False):
         self.extensionMarker = extensionMarker
-        self.lowerEndpoint = None if lower_endpoint == MIN else lower_endpoint
+        self.lowerEndpoint = 0 if lower_endpoint == MIN else lower_endpoint    # size is never negative
         self.upperEndpoint = None if upper_endpoint == MAX else upper_endpoint
         super(SequenceOfValueSize, self).__init__()
 
@@ -77,7 +77,7 @@ class SingleValue(SingleValueConstraint):
 class ValueSize(ValueSizeConstraint):
     def __init__(self, lower_endpoint, upper_endpoint, extensionMarker=False):
         self.extensionMarker = extensionMarker
-        self.lowerEndpoint = None if lower_endpoint == MIN else lower_endpoint
+        self.lowerEndpoint = 0 if lower_endpoint == MIN else lower_endpoint    # size is never negative
         self.upperEndpoint = None if upper_endpoint == MAX else upper_endpoint
         super(ValueSize, self).__init__(lower_endpoint, upper_endpoint)
 
-- 
2.43.0


From 17eae808d850ff37980d93688f102b3904a1a777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:09 +0000
Subject: [PATCH 15/72] fix: omit extension additions that equal their DEFAULT,
 so a group with a DEFAULT component can be absent

---
 asn1PERser/codec/per/encoder.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index f582a98..10af405 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -244,7 +244,7 @@ def encode_sequence(sequence):    # 19
             # if isDefaulted, default value must have been initiated when defining asn1 Schema,
             # if default value is different than value passed when filling schema, assume component
             # is present
-            if namedType._NamedType__type._value != componentType._value:    # hacky...:) no other way for now
+            if not has_default_value(namedType, componentType):
                 optional_default_bit_field_value += '1'
                 componentType.fill_field_list(rootComponentFieldList)
             else:
@@ -269,7 +269,7 @@ def encode_sequence(sequence):    # 19
             if sequence.extensionAddition:
                 for index, namedType in enumerate(sequence.extensionAddition.namedTypes, start=1):
                     extensionComponentType = sequence.getComponentByName(namedType.name)
-                    if extensionComponentType.isValue:
+                    if extensionComponentType.isValue and not has_default_value(namedType, extensionComponentType):
                         if (index > 1) and (not previous_extensionComponent['present']) and (not previous_extensionComponent['optional']):
                             raise MandatoryExtensionFieldNotPresent(previous_extensionComponent['name'])
 
@@ -288,7 +288,7 @@ def encode_sequence(sequence):    # 19
                         extension_addition_bit_field_value += '0'
                     previous_extensionComponent = {'name': namedType.name,
                                                    'present': bool(int(extension_addition_bit_field_value[-1])),
-                                                   'optional': namedType.isOptional}
+                                                   'optional': namedType.isOptional or namedType.isDefaulted}
             if sequence.extensionAdditionGroups:
                 for index_group, extensionAdditionGroup in enumerate(sequence.extensionAdditionGroups, start=1):
                     extension_addition_group_present = False
@@ -296,7 +296,7 @@ def encode_sequence(sequence):    # 19
                     for index, namedType in enumerate(extensionAdditionGroup.namedTypes, start=1):
                         previous_extension_addition_group_component_present = False
                         extensionComponentType = sequence.getComponentByName(namedType.name)
-                        if extensionComponentType.isValue:
+                        if extensionComponentType.isValue and not has_default_value(namedType, extensionComponentType):
                             if (index > 1) and (not previous_extensionGroupComponent['present']) and (not previous_extensionGroupComponent['optional']):
                                 raise MandatoryFieldNotPresentInExtensionGroup(previous_extensionGroupComponent['name'])
                             if not hasattr(extensionComponentType, '_componentValues'):
@@ -308,7 +308,7 @@ def encode_sequence(sequence):    # 19
                                     previous_extension_addition_group_component_present = True
                         previous_extensionGroupComponent = {'name': namedType.name,
                                                             'present': previous_extension_addition_group_component_present,
-                                                            'optional': namedType.isOptional}
+                                                            'optional': namedType.isOptional or namedType.isDefaulted}
                         extension_group_components[index_group].append(previous_extensionGroupComponent)
                     if not extension_addition_group_present:
                         extension_addition_bit_field_value += '0'
@@ -344,6 +344,10 @@ def encode_sequence(sequence):    # 19
     return rootComponentFieldList
 
 
+def has_default_value(namedType, componentType):
+    return namedType.isDefaulted and (namedType._NamedType__type._value == componentType._value)    # hacky...:) no other way for now
+
+
 def encode_sequence_of(sequence_of):    # 20
     sequence_of_field_list = []
     n = len(sequence_of)
-- 
2.43.0


From 5bbd2790c7d218f4b59d4164792dfdc1d45c407c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:13 +0000
Subject: [PATCH 16/72] fix: compare a BIT STRING with its DEFAULT by length
 too, so that leading zero bits are not dropped

---
 asn1PERser/codec/per/encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 10af405..7e7b02b 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -345,7 +345,7 @@ def encode_sequence(sequence):    # 19
 
 
 def has_default_value(namedType, componentType):
-    return namedType.isDefaulted and (namedType._NamedType__type._value == componentType._value)    # hacky...:) no other way for now
+    return namedType.isDefaulted and (namedType.asn1Object == componentType)
 
 
 def encode_sequence_of(sequence_of):    # 20
-- 
2.43.0


From 8adb113b09a4a09854d30d541c04805ba1e2c3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:33 +0000
Subject: [PATCH 17/72] fix: encode an explicitly empty OPTIONAL or extension
 SEQUENCE OF as present

---
 asn1PERser/codec/per/encoder.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 7e7b02b..2d4f988 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -233,7 +233,7 @@ def encode_sequence(sequence):    # 19
                     optional_default_bit_field_value += '1'
                     componentType.fill_field_list(rootComponentFieldList)
                 else:
-                    if len(componentType._componentValues) > 0:
+                    if is_container_present(componentType):
                         optional_default_bit_field_value += '1'
                         componentType.fill_field_list(rootComponentFieldList)
                     else:
@@ -278,7 +278,7 @@ def encode_sequence(sequence):    # 19
                             open_type_field_list = encode_open_type_field(extensionComponentType)
                             extension_addition_field_list.extend(open_type_field_list)
                         else:
-                            if len(extensionComponentType._componentValues) > 0:
+                            if is_container_present(extensionComponentType):
                                 extension_addition_bit_field_value += '1'
                                 open_type_field_list = encode_open_type_field(extensionComponentType)
                                 extension_addition_field_list.extend(open_type_field_list)
@@ -303,7 +303,7 @@ def encode_sequence(sequence):    # 19
                                 extension_addition_group_present = True
                                 previous_extension_addition_group_component_present = True
                             else:
-                                if len(extensionComponentType._componentValues) > 0:
+                                if is_container_present(extensionComponentType):
                                     extension_addition_group_present = True
                                     previous_extension_addition_group_component_present = True
                         previous_extensionGroupComponent = {'name': namedType.name,
@@ -344,6 +344,11 @@ def encode_sequence(sequence):    # 19
     return rootComponentFieldList
 
 
+def is_container_present(componentType):
+    # SEQUENCE which was never filled can be there only because it was accessed; empty SEQUENCE OF is a proper value
+    return len(componentType._componentValues) > 0 or not hasattr(componentType, 'rootComponent')
+
+
 def has_default_value(namedType, componentType):
     return namedType.isDefaulted and (namedType.asn1Object == componentType)
 
-- 
2.43.0


From c4a95711c2c56b2dc45926fa732bc5f9e85d225f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:53 +0000
Subject: [PATCH 18/72] fix: keep an OPTIONAL SEQUENCE that was decoded with no
 components distinguishable from an absent one

---
 asn1PERser/codec/per/decoder.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index d12c8c1..fbfd427 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -2,6 +2,7 @@ import binascii
 import logging
 import codecs
 from collections import deque
+from pyasn1.type.univ import noValue
 from .encoder import bit_field_size, get_bit_field_size, integer_range, get_range_octet_len, \
     is_constrained_whole_number, is_semi_constrained_whole_number, is_constant, is_length_constrained
 
@@ -358,7 +359,7 @@ def decode_sequence(sequence, per_bytes):
                 componentType = sequence.getComponentByName(namedType.name)
                 decoded = componentType.create_field_list(per_bytes)
                 logger.info("%s: decoded component: '%s'", sequence.__class__.__name__, namedType.name)
-                new_seq[namedType.name] = decoded
+                new_seq[namedType.name] = keep_present(decoded)
             else:
                 logger.info("%s: optional component '%s' not present", sequence.__class__.__name__, namedType.name)
                 continue
@@ -407,7 +408,7 @@ def decode_sequence(sequence, per_bytes):
                     componentType = sequence.getComponentByName(extensionNamedType.name)
                     decoded = decode_open_type_field(componentType, per_bytes)
                     logger.info("%s: decoded extension addition component: '%s'", sequence.__class__.__name__, extensionNamedType.name)
-                    new_seq[extensionNamedType.name] = decoded
+                    new_seq[extensionNamedType.name] = keep_present(decoded)
                 else:
                     logger.info("%s: extension addition component '%s' not present.", sequence.__class__.__name__,
                                 extensionNamedType.name)
@@ -423,7 +424,7 @@ def decode_sequence(sequence, per_bytes):
                                 sequence.__class__.__name__,
                                 ', '.join([type_name for type_name in decoded.named_types.keys()]))
                     for type_name, type_value in decoded.named_types.items():
-                        new_seq[type_name] = type_value
+                        new_seq[type_name] = keep_present(type_value)
                 else:
                     logger.info("%s: extension addition group number %s not present",
                                 sequence.__class__.__name__, group_index)
@@ -431,6 +432,13 @@ def decode_sequence(sequence, per_bytes):
     return new_seq
 
 
+def keep_present(decoded):
+    # SEQUENCE with all of its components absent must not be taken for an absent SEQUENCE
+    if hasattr(decoded, 'rootComponent') and len(decoded._componentValues) == 0:
+        decoded._componentValues = [noValue] * len(decoded.componentType)
+    return decoded
+
+
 def decode_sequence_of(sequence_of, per_bytes):
     logger.info("Decoding sequence of: %s", sequence_of.__class__.__name__)
     new_seq_of = sequence_of.__class__()
-- 
2.43.0


From b29a42284f778006ac7efb30ab14c0c7a0e98cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:56 +0000
Subject: [PATCH 19/72] fix: an extensible SEQUENCE whose root is all OPTIONAL
 is a value without its extension additions

---
 asn1PERser/classes/data/builtin/SequenceType.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1PERser/classes/data/builtin/SequenceType.py b/asn1PERser/classes/data/builtin/SequenceType.py
index 21f88c2..4a99473 100644
--- a/asn1PERser/classes/data/builtin/SequenceType.py
+++ b/asn1PERser/classes/data/builtin/SequenceType.py
@@ -18,6 +18,8 @@ class SequenceType(Sequence):
             return base_isValue
         if self.components is noValue:
             return False
+        if self.rootComponent and all(namedType.isOptional or namedType.isDefaulted for namedType in self.rootComponent.namedTypes):
+            return True    # extension additions are never mandatory
         for component in self.components:
             if component is not noValue and component.isValue:
                 return True
-- 
2.43.0


From 09948a051e03623929298e65f3253c1eca2d4c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:41 +0000
Subject: [PATCH 20/72] fix: check every earlier mandatory extension addition,
 and only for additions that are really present

---
 asn1PERser/codec/per/encoder.py | 36 ++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 2d4f988..21c0dc8 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -266,12 +266,14 @@ def encode_sequence(sequence):    # 19
             extension_addition_field_list = []
             encoded_extension_addition_groups = []
             extension_group_components = defaultdict(list)
+            previous_extensionComponents = []
             if sequence.extensionAddition:
                 for index, namedType in enumerate(sequence.extensionAddition.namedTypes, start=1):
                     extensionComponentType = sequence.getComponentByName(namedType.name)
-                    if extensionComponentType.isValue and not has_default_value(namedType, extensionComponentType):
-                        if (index > 1) and (not previous_extensionComponent['present']) and (not previous_extensionComponent['optional']):
-                            raise MandatoryExtensionFieldNotPresent(previous_extensionComponent['name'])
+                    if is_extension_component_present(namedType, extensionComponentType):
+                        for previous_extensionComponent in previous_extensionComponents:
+                            if (not previous_extensionComponent['present']) and (not previous_extensionComponent['optional']):
+                                raise MandatoryExtensionFieldNotPresent(previous_extensionComponent['name'])
 
                         if not hasattr(extensionComponentType, '_componentValues'):
                             extension_addition_bit_field_value += '1'
@@ -286,9 +288,9 @@ def encode_sequence(sequence):    # 19
                                 extension_addition_bit_field_value += '0'
                     else:
                         extension_addition_bit_field_value += '0'
-                    previous_extensionComponent = {'name': namedType.name,
-                                                   'present': bool(int(extension_addition_bit_field_value[-1])),
-                                                   'optional': namedType.isOptional or namedType.isDefaulted}
+                    previous_extensionComponents.append({'name': namedType.name,
+                                                         'present': bool(int(extension_addition_bit_field_value[-1])),
+                                                         'optional': namedType.isOptional or namedType.isDefaulted})
             if sequence.extensionAdditionGroups:
                 for index_group, extensionAdditionGroup in enumerate(sequence.extensionAdditionGroups, start=1):
                     extension_addition_group_present = False
@@ -296,9 +298,10 @@ def encode_sequence(sequence):    # 19
                     for index, namedType in enumerate(extensionAdditionGroup.namedTypes, start=1):
                         previous_extension_addition_group_component_present = False
                         extensionComponentType = sequence.getComponentByName(namedType.name)
-                        if extensionComponentType.isValue and not has_default_value(namedType, extensionComponentType):
-                            if (index > 1) and (not previous_extensionGroupComponent['present']) and (not previous_extensionGroupComponent['optional']):
-                                raise MandatoryFieldNotPresentInExtensionGroup(previous_extensionGroupComponent['name'])
+                        if is_extension_component_present(namedType, extensionComponentType):
+                            for previous_extensionGroupComponent in extension_group_components[index_group]:
+                                if (not previous_extensionGroupComponent['present']) and (not previous_extensionGroupComponent['optional']):
+                                    raise MandatoryFieldNotPresentInExtensionGroup(previous_extensionGroupComponent['name'])
                             if not hasattr(extensionComponentType, '_componentValues'):
                                 extension_addition_group_present = True
                                 previous_extension_addition_group_component_present = True
@@ -313,12 +316,15 @@ def encode_sequence(sequence):    # 19
                     if not extension_addition_group_present:
                         extension_addition_bit_field_value += '0'
                     else:
-                        if (index_group > 1):
-                            for previous_extension_group_component in extension_group_components[index_group - 1]:
+                        for previous_extensionComponent in previous_extensionComponents:
+                            if (not previous_extensionComponent['present']) and (not previous_extensionComponent['optional']):
+                                raise MandatoryExtensionFieldNotPresent(previous_extensionComponent['name'])
+                        for previous_index_group in range(1, index_group):
+                            for previous_extension_group_component in extension_group_components[previous_index_group]:
                                 if previous_extension_group_component['present'] or previous_extension_group_component['optional']:
                                     break
                             else:
-                                raise MandatoryExtensionFieldNotPresent(extension_group_components[index_group - 1][0]['name'])
+                                raise MandatoryExtensionFieldNotPresent(extension_group_components[previous_index_group][0]['name'])
                         extension_addition_bit_field_value += '1'
                         group_sequence = create_new_fake_empty_sequence(rootComponent=extensionAdditionGroup)
                         for namedType in extensionAdditionGroup.namedTypes:
@@ -344,6 +350,12 @@ def encode_sequence(sequence):    # 19
     return rootComponentFieldList
 
 
+def is_extension_component_present(namedType, componentType):
+    if (not componentType.isValue) or has_default_value(namedType, componentType):
+        return False
+    return (not hasattr(componentType, '_componentValues')) or is_container_present(componentType)
+
+
 def is_container_present(componentType):
     # SEQUENCE which was never filled can be there only because it was accessed; empty SEQUENCE OF is a proper value
     return len(componentType._componentValues) > 0 or not hasattr(componentType, 'rootComponent')
-- 
2.43.0


From 81e143dd34e9b59704bb5962891169aac782e348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:03 +0000
Subject: [PATCH 21/72] fix: refuse to decode truncated input instead of
 inventing the missing bits

---
 asn1PERser/codec/per/decoder.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index fbfd427..5e3d204 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -12,6 +12,14 @@ __all__ = ['decode']
 logger = logging.getLogger("asn1perser.decoder")
 
 
+class PerDecodingException(Exception):
+    pass
+
+
+class NotEnoughDataToDecode(PerDecodingException):
+    pass
+
+
 class Offset(object):
     def __init__(self, octets=0, bits=0):
         self.prev_octets = octets
@@ -60,6 +68,9 @@ class PerBytes(object):
         bits_stop = (item.stop.curr_octets * 8) + item.stop.curr_bits
         if bits_start == bits_stop:
             return '0'
+        if bits_stop > len(self.binary_string):
+            raise NotEnoughDataToDecode("{} bits needed at bit {} but only {} available".format(
+                bits_stop - bits_start, bits_start, max(0, len(self.binary_string) - bits_start)))
         return self.binary_string[bits_start:bits_stop]
 
     def __len__(self):
-- 
2.43.0


From 72aaba32ebe93babe3bf5d8379a08bc760e6bfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:06 +0000
Subject: [PATCH 22/72] fix: refuse an empty open type field instead of
 decoding it from four invented bits

---
 asn1PERser/codec/per/decoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 5e3d204..81a55bb 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -658,6 +658,8 @@ def decode_open_type_field(type, per_bytes):
                                                                  n=per_bytes,
                                                                  lowerBound=None,
                                                                  upperBound=None)
+    if unconstrained_length_determinant == 0:    # 11.2.1
+        raise NotEnoughDataToDecode("open type field can not be empty")
     val = per_bytes.next(size=bit_field_size(octets=unconstrained_length_determinant, bits=0), octet_align=True)
     open_type_value = PerBytes(hex(val)[2:].rstrip("L").zfill(unconstrained_length_determinant * 2))
     decoded = type.create_field_list(open_type_value)
-- 
2.43.0


From d7e1f9a5691ba917edc77f5416bb8609c2f42d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:10 +0000
Subject: [PATCH 23/72] fix: skip unknown extension additions of a SEQUENCE
 sent by a newer version of the schema

---
 asn1PERser/codec/per/decoder.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 81a55bb..2ae663d 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -403,7 +403,7 @@ def decode_sequence(sequence, per_bytes):
                                                                           lowerBound=None,
                                                                           upperBound=None)
         extension_addition_bit_field_value = per_bytes.next(size=bit_field_size(octets=0, bits=extension_addition_length_determinant))
-        extension_addition_bit_field_bits = bin(extension_addition_bit_field_value)[2:].zfill(extension_addition_bit_field_len)
+        extension_addition_bit_field_bits = bin(extension_addition_bit_field_value)[2:].zfill(extension_addition_length_determinant)
         logger.info("%s: extension bits: '%s'; within that: extension addition bits: '%s'; extension addition group bits: '%s'",
                     sequence.__class__.__name__,
                     extension_addition_bit_field_bits,
@@ -439,6 +439,10 @@ def decode_sequence(sequence, per_bytes):
                 else:
                     logger.info("%s: extension addition group number %s not present",
                                 sequence.__class__.__name__, group_index)
+        for is_present_bit in extension_addition_bit_field_bits[extension_addition_bit_field_len:]:
+            if int(is_present_bit):
+                logger.info("%s: unknown extension addition present. Skipping...", sequence.__class__.__name__)
+                skip_open_type_field(per_bytes)
     logger.info("%s: decoding finished.", sequence.__class__.__name__)
     return new_seq
 
@@ -666,6 +670,15 @@ def decode_open_type_field(type, per_bytes):
     return decoded
 
 
+def skip_open_type_field(per_bytes):
+    unconstrained_length_determinant = decode_length_determinant(normally_small_length=False,
+                                                                 constrained=False,
+                                                                 n=per_bytes,
+                                                                 lowerBound=None,
+                                                                 upperBound=None)
+    per_bytes.next(size=bit_field_size(octets=unconstrained_length_determinant, bits=0), octet_align=True)
+
+
 def decode_constrained_whole_number(per_bytes, lowerBound, upperBound):
     logger.debug("function: decode_constrained_whole_number; params: per_bytes: (hidden), lowerBound: %s, "
                  "upperBound: %s", lowerBound, upperBound)
-- 
2.43.0


From 76f4a4661eb1a1aa4f42cc938a9a0621bf5d6236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:36 +0000
Subject: [PATCH 24/72] fix: reject components in a SEQUENCE OF constrained to
 SIZE(0)

---
 asn1PERser/codec/per/encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 21c0dc8..2aeded6 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -386,7 +386,7 @@ def encode_sequence_of(sequence_of):    # 20
             return [extension_bit_field] + length_determinant + sequence_of_field_list
     elif n < sequence_of.subtypeSpec.lowerEndpoint:
         raise SizeConstrainViolated("Number of SET OF/SEQUENCE OF {} components = {}".format(sequence_of.__class__, n))
-    elif sequence_of.subtypeSpec.upperEndpoint and (n > sequence_of.subtypeSpec.upperEndpoint):
+    elif (sequence_of.subtypeSpec.upperEndpoint is not None) and (n > sequence_of.subtypeSpec.upperEndpoint):
         raise InvalidComponentIndexIntoStructuredType('invalid index: {}'.format(sequence_of.subtypeSpec.upperEndpoint + 1))
     elif (sequence_of.subtypeSpec.lowerEndpoint == sequence_of.subtypeSpec.upperEndpoint) and (sequence_of.subtypeSpec.upperEndpoint < 65536):    # 20.5
         return sequence_of_field_list
-- 
2.43.0


From 395ec68dda35bf159966811c2bd5a12fdf294b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:40 +0000
Subject: [PATCH 25/72] fix: reject a decoded SEQUENCE OF whose size violates
 its constraint

---
 asn1PERser/codec/per/decoder.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 2ae663d..6299f2b 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -4,7 +4,8 @@ import codecs
 from collections import deque
 from pyasn1.type.univ import noValue
 from .encoder import bit_field_size, get_bit_field_size, integer_range, get_range_octet_len, \
-    is_constrained_whole_number, is_semi_constrained_whole_number, is_constant, is_length_constrained
+    is_constrained_whole_number, is_semi_constrained_whole_number, is_constant, is_length_constrained, \
+    is_within_extension_root
 
 
 __all__ = ['decode']
@@ -20,6 +21,10 @@ class NotEnoughDataToDecode(PerDecodingException):
     pass
 
 
+class SizeConstraintViolated(PerDecodingException):
+    pass
+
+
 class Offset(object):
     def __init__(self, octets=0, bits=0):
         self.prev_octets = octets
@@ -514,6 +519,8 @@ def decode_sequence_of(sequence_of, per_bytes):
                                                            n=per_bytes,
                                                            lowerBound=sequence_of.subtypeSpec.lowerEndpoint,
                                                            upperBound=sequence_of.subtypeSpec.upperEndpoint)
+            if not is_within_extension_root(length_determinant, sequence_of.subtypeSpec):
+                raise SizeConstraintViolated("{} components of {}".format(length_determinant, sequence_of.__class__.__name__))
             logger.info("%s: decoding %s component(s) of type: '%s'", sequence_of.__class__.__name__,
                         length_determinant, component_type.__class__.__name__)
             for index in range(length_determinant):
@@ -529,6 +536,8 @@ def decode_sequence_of(sequence_of, per_bytes):
                                                            n=per_bytes,
                                                            lowerBound=sequence_of.subtypeSpec.lowerEndpoint,
                                                            upperBound=None)
+            if not is_within_extension_root(length_determinant, sequence_of.subtypeSpec):
+                raise SizeConstraintViolated("{} components of {}".format(length_determinant, sequence_of.__class__.__name__))
             logger.info("%s: decoding %s component(s) of type: '%s'", sequence_of.__class__.__name__,
                         length_determinant, component_type.__class__.__name__)
             for index in range(length_determinant):
-- 
2.43.0


From a202bb6a3be11e17590e85349b23a5b2d3d16f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:04 +0000
Subject: [PATCH 26/72] fix: memoize parsing, which took time exponential in
 the nesting depth of the schema

---
 asn1PERser/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asn1PERser/__init__.py b/asn1PERser/__init__.py
index 61e044d..275410c 100644
--- a/asn1PERser/__init__.py
+++ b/asn1PERser/__init__.py
@@ -1,3 +1,4 @@
+from pyparsing import ParserElement
 from asn1PERser.codec.per.decoder import decode
 from asn1PERser.codec.per.encoder import encode
 from asn1PERser.classes.module import remove_comments
@@ -9,6 +10,9 @@ __all__ = ['decode', 'encode', 'parse_asn1_schema']
 
 asn1perser_logging_setup()
 
+ParserElement.enablePackrat()    # without memoization parsing time is exponential in the nesting depth
+
+
 def parse_asn1_schema(asn1_schema, output_folder=None):
     no_comment_schema = remove_comments(asn1_schema)
     parsed_asn = ModuleDefinition.parseString(no_comment_schema)[0]
-- 
2.43.0


From 8254b467785eea7d8e0ff20ee1fed5f442c2c442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:47 +0000
Subject: [PATCH 27/72] fix: encode an ENUMERATED by its index in the sorted
 root, not by its number

---
 asn1PERser/codec/per/decoder.py | 7 +++----
 asn1PERser/codec/per/encoder.py | 5 +++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 6299f2b..64ed4e8 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -158,7 +158,7 @@ def decode_enumerated(enumerated, per_bytes):
         enumeration_index = decode_constrained_whole_number(per_bytes, lowerBound=0, upperBound=len(list(enumerated.namedValues)) - 1)
         logger.info("%s: index: %s", enumerated.__class__.__name__, enumeration_index)
         logger.info("%s: decoding finished.", enumerated.__class__.__name__)
-        return enumerated.__class__(enumerated.namedValues.getName(enumeration_index))
+        return enumerated.__class__(sorted(enumerated.namedValues.values())[enumeration_index])
     else:    # 14.3
         logger.info("%s: extension marker should be present", enumerated.__class__.__name__)
         value_is_extension_addition = per_bytes.next(size=bit_field_size(octets=0, bits=1))
@@ -168,13 +168,12 @@ def decode_enumerated(enumerated, per_bytes):
                                                                 upperBound=len(list(enumerated.enumerationRoot)) - 1)
             logger.info("%s: index: %s", enumerated.__class__.__name__, enumeration_index)
             logger.info("%s: decoding finished.", enumerated.__class__.__name__)
-            return enumerated.__class__(enumerated.namedValues.getName(enumeration_index))
+            return enumerated.__class__(sorted(enumerated.enumerationRoot.values())[enumeration_index])
         else:
             enumeration_index = decode_normally_small_non_negative_whole_number(per_bytes, lower_bound=0)
-            enumeration_index += len(enumerated.enumerationRoot)
             logger.info("%s: index: %s", enumerated.__class__.__name__, enumeration_index)
             logger.info("%s: decoding finished.", enumerated.__class__.__name__)
-            return enumerated.__class__(enumerated.namedValues.getName(enumeration_index))
+            return enumerated.__class__(list(enumerated.extensionAddition.values())[enumeration_index])
 
 
 def decode_bitstring(bitstring, per_bytes):
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 2aeded6..b609e1a 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -92,12 +92,13 @@ def encode_integer(integer):
 
 def encode_enumerated(enumerated):
     if not enumerated.subtypeSpec.extensionMarker:    # 14.2
-        return create_field_list_for_constrained_whole_number(n=enumerated._value, lowerEndpoint=0,
+        return create_field_list_for_constrained_whole_number(n=sorted(enumerated.namedValues.values()).index(enumerated._value),
+                                                              lowerEndpoint=0,
                                                               upperEndpoint=len(list(enumerated.namedValues)) - 1)
     else:    # 14.3
         if enumerated._value in list(enumerated.enumerationRoot.values()):
             extension_bit_field = bit_field(octet_align=False, value='0')
-            constrained_whole_number_field_list = create_field_list_for_constrained_whole_number(n=enumerated._value,
+            constrained_whole_number_field_list = create_field_list_for_constrained_whole_number(n=sorted(enumerated.enumerationRoot.values()).index(enumerated._value),
                                                                                                  lowerEndpoint=0,
                                                                                                  upperEndpoint=len(list(enumerated.enumerationRoot)) - 1)
             return [extension_bit_field] + constrained_whole_number_field_list
-- 
2.43.0


From df64241a738055c81603cec8ae973736e1422293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:09 +0000
Subject: [PATCH 28/72] fix: effective bounds of ConstraintAnd are the
 intersection; MIN and MAX in ConstraintOr and ConstraintAnd

---
 asn1PERser/classes/types/constraint.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/asn1PERser/classes/types/constraint.py b/asn1PERser/classes/types/constraint.py
index 38793b3..205259e 100644
--- a/asn1PERser/classes/types/constraint.py
+++ b/asn1PERser/classes/types/constraint.py
@@ -89,8 +89,10 @@ class ValueSize(ValueSizeConstraint):
 class ConstraintOr(ConstraintsUnion):
     def __init__(self, extensionMarker=False, *constraints):
         self.extensionMarker = extensionMarker
-        self.lowerEndpoint = min([constraint.lowerEndpoint for constraint in constraints])
-        self.upperEndpoint = max([constraint.upperEndpoint for constraint in constraints])
+        lower_endpoints = [constraint.lowerEndpoint for constraint in constraints]
+        upper_endpoints = [constraint.upperEndpoint for constraint in constraints]
+        self.lowerEndpoint = None if None in lower_endpoints else min(lower_endpoints)
+        self.upperEndpoint = None if None in upper_endpoints else max(upper_endpoints)
         super(ConstraintOr, self).__init__(*constraints)
 
     def _testValue(self, value, idx):
@@ -101,8 +103,10 @@ class ConstraintOr(ConstraintsUnion):
 class ConstraintAnd(ConstraintsIntersection):
     def __init__(self, extensionMarker=False, *constraints):
         self.extensionMarker = extensionMarker
-        self.lowerEndpoint = min([constraint.lowerEndpoint for constraint in constraints])
-        self.upperEndpoint = max([constraint.upperEndpoint for constraint in constraints])
+        lower_endpoints = [constraint.lowerEndpoint for constraint in constraints if constraint.lowerEndpoint is not None]
+        upper_endpoints = [constraint.upperEndpoint for constraint in constraints if constraint.upperEndpoint is not None]
+        self.lowerEndpoint = max(lower_endpoints) if lower_endpoints else None
+        self.upperEndpoint = min(upper_endpoints) if upper_endpoints else None
         super(ConstraintAnd, self).__init__(*constraints)
 
     def _testValue(self, value, idx):
-- 
2.43.0


From 4cf27d10f7528dabc770b8bac4ab48e0a6c2c9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:30 +0000
Subject: [PATCH 29/72] fix: to_dict neither changes the later encoding of the
 message nor drops empty components

---
 asn1PERser/classes/data/builtin/ChoiceType.py |  5 +---
 .../classes/data/builtin/SequenceOfType.py    |  9 +------
 .../classes/data/builtin/SequenceType.py      | 25 +++++++++++--------
 3 files changed, 17 insertions(+), 22 deletions(-)

diff --git a/asn1PERser/classes/data/builtin/ChoiceType.py b/asn1PERser/classes/data/builtin/ChoiceType.py
index 92e5cd7..5597e60 100644
--- a/asn1PERser/classes/data/builtin/ChoiceType.py
+++ b/asn1PERser/classes/data/builtin/ChoiceType.py
@@ -22,7 +22,4 @@ class ChoiceType(Choice):
     def to_dict(self, is_root=True):
         for componentType, componentValue in self.items():
             if componentValue is not noValue and componentValue.isValue:
-                value_dict = componentValue.to_dict(is_root=False)
-                if value_dict is not noValue:
-                    return {componentType: value_dict}
-                return {}
+                return {componentType: componentValue.to_dict(is_root=False)}
diff --git a/asn1PERser/classes/data/builtin/SequenceOfType.py b/asn1PERser/classes/data/builtin/SequenceOfType.py
index 1fc7c2d..aec07c7 100644
--- a/asn1PERser/classes/data/builtin/SequenceOfType.py
+++ b/asn1PERser/classes/data/builtin/SequenceOfType.py
@@ -20,12 +20,5 @@ class SequenceOfType(SequenceOf):
         component_list = []
         for componentValue in self:
             if (componentValue is not noValue and componentValue.isValue) or hasattr(componentValue, 'componentType'):
-                value_dict = componentValue.to_dict(is_root=False)
-                if value_dict is not noValue:
-                    component_list.append(value_dict)
-
-        if is_root:
-            return component_list
-        if not component_list:
-            return noValue
+                component_list.append(componentValue.to_dict(is_root=False))
         return component_list
diff --git a/asn1PERser/classes/data/builtin/SequenceType.py b/asn1PERser/classes/data/builtin/SequenceType.py
index 4a99473..13b6559 100644
--- a/asn1PERser/classes/data/builtin/SequenceType.py
+++ b/asn1PERser/classes/data/builtin/SequenceType.py
@@ -36,14 +36,19 @@ class SequenceType(Sequence):
 
     def to_dict(self, is_root=True):
         component_dict = OrderedDict()
-        for componentType, componentValue in self.items():
-            if (componentValue is not noValue and componentValue.isValue) or hasattr(componentValue, 'componentType'):
-                value_dict = componentValue.to_dict(is_root=False)
-                if value_dict is not noValue:
-                    component_dict[componentType] = value_dict
-
-        if is_root:
-            return component_dict
-        if not component_dict:
-            return noValue
+        for namedType in self.componentType.namedTypes:
+            # do not instantiate absent components here - they would become present when this is encoded later
+            componentValue = self.getComponentByName(namedType.name, default=noValue, instantiate=False)
+            is_required = namedType.isDefaulted or (namedType.name in self.rootComponent and not namedType.isOptional)
+            if componentValue is noValue and is_required:
+                componentValue = namedType.asn1Object
+            if componentValue is noValue:
+                continue
+            if isinstance(componentValue, Sequence):
+                if is_required or len(componentValue):
+                    value_dict = componentValue.to_dict(is_root=False)
+                    if value_dict or componentValue.isValue:
+                        component_dict[namedType.name] = value_dict
+            elif componentValue.isValue:
+                component_dict[namedType.name] = componentValue.to_dict(is_root=False)
         return component_dict
-- 
2.43.0


From 7fac59a0d3857a45926e38897019d345e68e9d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:44 +0000
Subject: [PATCH 30/72] fix: encode and decode do not modify the objects they
 are given

---
 asn1PERser/codec/per/decoder.py | 18 +++++++++---------
 asn1PERser/codec/per/encoder.py | 16 +++++++++++-----
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 64ed4e8..bfef487 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -371,7 +371,7 @@ def decode_sequence(sequence, per_bytes):
             if is_present:
                 logger.info("%s: decoding optional component: '%s' of type '%s' ...", sequence.__class__.__name__,
                             namedType.name, namedType.asn1Object.__class__.__name__)
-                componentType = sequence.getComponentByName(namedType.name)
+                componentType = namedType.asn1Object
                 decoded = componentType.create_field_list(per_bytes)
                 logger.info("%s: decoded component: '%s'", sequence.__class__.__name__, namedType.name)
                 new_seq[namedType.name] = keep_present(decoded)
@@ -383,7 +383,7 @@ def decode_sequence(sequence, per_bytes):
             if is_present:
                 logger.info("%s: decoding default component: '%s' of type '%s' ...", sequence.__class__.__name__,
                             namedType.name, namedType.asn1Object.__class__.__name__)
-                componentType = sequence.getComponentByName(namedType.name)
+                componentType = namedType.asn1Object
                 decoded = componentType.create_field_list(per_bytes)
                 logger.info("%s: decoded component: '%s'", sequence.__class__.__name__, namedType.name)
                 new_seq[namedType.name] = decoded
@@ -393,7 +393,7 @@ def decode_sequence(sequence, per_bytes):
         else:
             logger.info("%s: decoding component: '%s' of type '%s' ...", sequence.__class__.__name__,
                         namedType.name, namedType.asn1Object.__class__.__name__)
-            componentType = sequence.getComponentByName(namedType.name)
+            componentType = namedType.asn1Object
             decoded = componentType.create_field_list(per_bytes)
             logger.info("%s: decoded component: '%s'", sequence.__class__.__name__, namedType.name)
             new_seq[namedType.name] = decoded
@@ -420,7 +420,7 @@ def decode_sequence(sequence, per_bytes):
                 if int(is_present_bit):
                     logger.info("%s: extension addition component '%s' present. Decoding...", sequence.__class__.__name__,
                                 extensionNamedType.name)
-                    componentType = sequence.getComponentByName(extensionNamedType.name)
+                    componentType = extensionNamedType.asn1Object
                     decoded = decode_open_type_field(componentType, per_bytes)
                     logger.info("%s: decoded extension addition component: '%s'", sequence.__class__.__name__, extensionNamedType.name)
                     new_seq[extensionNamedType.name] = keep_present(decoded)
@@ -556,7 +556,7 @@ def decode_choice(choice, per_bytes):    # 23
         if len(choice.rootComponent.namedTypes) == 1:  # 23.4
             logger.info("%s: length of choice list is 1", choice.__class__.__name__)
             selected_type = choice.rootComponent.namedTypes[0]
-            selected_component = choice.getComponentByName(selected_type.name)
+            selected_component = selected_type.asn1Object
             logger.info("%s: chosen component: '%s' of type '%s' has index 0. Decoding...", choice.__class__.__name__,
                         selected_type.name, selected_component.__class__.__name__)
             val = selected_component.create_field_list(per_bytes)
@@ -567,7 +567,7 @@ def decode_choice(choice, per_bytes):    # 23
         else:    # 23.6
             index = decode_constrained_whole_number_from_field_list(per_bytes, lowerEndpoint=0, upperEndpoint=n)
             namedType = choice.rootComponent.namedTypes[index]
-            selected_component = choice.getComponentByPosition(index)
+            selected_component = namedType.asn1Object
             logger.info("%s: chosen component: '%s' of type '%s' has index %s. Decoding...", choice.__class__.__name__,
                         namedType.name, selected_component.__class__.__name__, index)
             val = selected_component.create_field_list(per_bytes)
@@ -583,7 +583,7 @@ def decode_choice(choice, per_bytes):    # 23
             if len(choice.rootComponent.namedTypes) == 1:  # 23.4
                 logger.info("%s: length of choice list is 1", choice.__class__.__name__)
                 selected_type = choice.rootComponent.namedTypes[0]
-                selected_component = choice.getComponentByName(selected_type.name)
+                selected_component = selected_type.asn1Object
                 logger.info("%s: chosen component: '%s' of type '%s' has index 0. Decoding...",
                             choice.__class__.__name__,
                             selected_type.name, selected_component.__class__.__name__)
@@ -596,7 +596,7 @@ def decode_choice(choice, per_bytes):    # 23
             else:
                 index = decode_constrained_whole_number_from_field_list(per_bytes, lowerEndpoint=0, upperEndpoint=n)
                 namedType = choice.rootComponent.namedTypes[index]
-                selected_component = choice.getComponentByPosition(index)
+                selected_component = namedType.asn1Object
                 logger.info("%s: chosen component: '%s' of type '%s' has index %s. Decoding...",
                             choice.__class__.__name__,
                             namedType.name, selected_component.__class__.__name__, index)
@@ -622,7 +622,7 @@ def decode_choice(choice, per_bytes):    # 23
                              choice.__class__.__name__)
                 raise NotImplementedError
             namedType = choice_extension.namedTypes[index]
-            selected_component = choice.getComponentByName(namedType.name)
+            selected_component = namedType.asn1Object
             logger.info("%s: chosen component: '%s' of type '%s' has index %s (indexed from extension choices). Decoding...",
                         choice.__class__.__name__,
                         namedType.name, selected_component.__class__.__name__, index)
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index b609e1a..f4ab2c6 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -227,7 +227,7 @@ def encode_sequence(sequence):    # 19
     rootComponentFieldList = []
     optional_default_bit_field_value = ''
     for namedType in sequence.rootComponent.namedTypes:
-        componentType = sequence.getComponentByName(namedType.name)
+        componentType = get_component(sequence, namedType)
         if namedType.isOptional:    # 19.2
             if componentType.isValue:
                 if not hasattr(componentType, '_componentValues'):
@@ -270,7 +270,7 @@ def encode_sequence(sequence):    # 19
             previous_extensionComponents = []
             if sequence.extensionAddition:
                 for index, namedType in enumerate(sequence.extensionAddition.namedTypes, start=1):
-                    extensionComponentType = sequence.getComponentByName(namedType.name)
+                    extensionComponentType = get_component(sequence, namedType)
                     if is_extension_component_present(namedType, extensionComponentType):
                         for previous_extensionComponent in previous_extensionComponents:
                             if (not previous_extensionComponent['present']) and (not previous_extensionComponent['optional']):
@@ -298,7 +298,7 @@ def encode_sequence(sequence):    # 19
                     previous_extensionGroupComponent = {}
                     for index, namedType in enumerate(extensionAdditionGroup.namedTypes, start=1):
                         previous_extension_addition_group_component_present = False
-                        extensionComponentType = sequence.getComponentByName(namedType.name)
+                        extensionComponentType = get_component(sequence, namedType)
                         if is_extension_component_present(namedType, extensionComponentType):
                             for previous_extensionGroupComponent in extension_group_components[index_group]:
                                 if (not previous_extensionGroupComponent['present']) and (not previous_extensionGroupComponent['optional']):
@@ -329,7 +329,7 @@ def encode_sequence(sequence):    # 19
                         extension_addition_bit_field_value += '1'
                         group_sequence = create_new_fake_empty_sequence(rootComponent=extensionAdditionGroup)
                         for namedType in extensionAdditionGroup.namedTypes:
-                            componentType = sequence.getComponentByName(namedType.name)
+                            componentType = get_component(sequence, namedType)
                             group_sequence._componentValues.append(componentType)
                         encoded = encode_open_type_field(group_sequence)
                         encoded_extension_addition_groups.extend(encoded)
@@ -351,6 +351,12 @@ def encode_sequence(sequence):    # 19
     return rootComponentFieldList
 
 
+def get_component(sequence, namedType):
+    # component which was never set must not be instantiated, encoding does not change what is encoded
+    component = sequence.getComponentByName(namedType.name, default=None, instantiate=False)
+    return namedType.asn1Object if component is None else component
+
+
 def is_extension_component_present(namedType, componentType):
     if (not componentType.isValue) or has_default_value(namedType, componentType):
         return False
@@ -709,7 +715,7 @@ def create_new_fake_empty_sequence(rootComponent):
             if sequence_field_list:
                 field_list.extend(sequence_field_list)
 
-        def getComponentByName(self, name):
+        def getComponentByName(self, name, default=None, instantiate=True):
             idx = self.rootComponent.getPositionByName(name)
             return self._componentValues[idx]
 
-- 
2.43.0


From 0e42a2ced02f012758eff20810a5cc4221749e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:08 +0000
Subject: [PATCH 31/72] fix: decode SEQUENCE {} to a value, and encode it when
 it is OPTIONAL

---
 asn1PERser/classes/data/builtin/SequenceType.py | 4 ++--
 asn1PERser/codec/per/decoder.py                 | 2 ++
 asn1PERser/codec/per/encoder.py                 | 4 +++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/asn1PERser/classes/data/builtin/SequenceType.py b/asn1PERser/classes/data/builtin/SequenceType.py
index 13b6559..e8e55ac 100644
--- a/asn1PERser/classes/data/builtin/SequenceType.py
+++ b/asn1PERser/classes/data/builtin/SequenceType.py
@@ -18,7 +18,7 @@ class SequenceType(Sequence):
             return base_isValue
         if self.components is noValue:
             return False
-        if self.rootComponent and all(namedType.isOptional or namedType.isDefaulted for namedType in self.rootComponent.namedTypes):
+        if self.rootComponent is not None and all(namedType.isOptional or namedType.isDefaulted for namedType in self.rootComponent.namedTypes):
             return True    # extension additions are never mandatory
         for component in self.components:
             if component is not noValue and component.isValue:
@@ -45,7 +45,7 @@ class SequenceType(Sequence):
             if componentValue is noValue:
                 continue
             if isinstance(componentValue, Sequence):
-                if is_required or len(componentValue):
+                if is_required or len(componentValue) or not len(componentValue.componentType):
                     value_dict = componentValue.to_dict(is_root=False)
                     if value_dict or componentValue.isValue:
                         component_dict[namedType.name] = value_dict
diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index bfef487..97a51e3 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -345,6 +345,8 @@ def decode_octetstring(octetstring, per_bytes):
 def decode_sequence(sequence, per_bytes):
     logger.info("Decoding sequence: %s", sequence.__class__.__name__)
     new_seq = sequence.__class__()
+    if not len(new_seq.componentType):
+        new_seq.clear()    # value of SEQUENCE {}, not a schema object
     extension_bit = 0
     optional_default_bit_field_len = 0
     optional_default_bit_field_value = 0
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index f4ab2c6..32c4037 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -365,7 +365,9 @@ def is_extension_component_present(namedType, componentType):
 
 def is_container_present(componentType):
     # SEQUENCE which was never filled can be there only because it was accessed; empty SEQUENCE OF is a proper value
-    return len(componentType._componentValues) > 0 or not hasattr(componentType, 'rootComponent')
+    if not hasattr(componentType, 'rootComponent') or not len(componentType.componentType):
+        return True    # SEQUENCE {} without a value is not even asked about
+    return len(componentType._componentValues) > 0
 
 
 def has_default_value(namedType, componentType):
-- 
2.43.0


From cd3468c8afbb02e3a1d5e5451baf3dddd24cf124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:46 +0000
Subject: [PATCH 32/72] fix: compile ENUMERATED items with explicit numbers

---
 .../classes/types/builtin/EnumeratedType.py   | 32 +++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/asn1PERser/classes/types/builtin/EnumeratedType.py b/asn1PERser/classes/types/builtin/EnumeratedType.py
index b96cd3c..03f989d 100644
--- a/asn1PERser/classes/types/builtin/EnumeratedType.py
+++ b/asn1PERser/classes/types/builtin/EnumeratedType.py
@@ -13,18 +13,20 @@ class EnumeratedType(SimpleType):
         root_named_values = []
         addition_named_values = []
         extension_marker_present = False
-        enumeration_index = 0
+        numbers = self._item_numbers()
         for EnumerationItem in self.EnumerationItems:
             if EnumerationItem == '...':
                 extension_marker_present = True
                 continue
+            enumeration_index = numbers.pop(0)
+            if isinstance(EnumerationItem, dict):
+                EnumerationItem = list(EnumerationItem.values())[0]
             if not extension_marker_present:
                 root_named_values.append({'field_name': str(EnumerationItem).strip(),
                                           'field_index': enumeration_index})
             else:
                 addition_named_values.append({'field_name': str(EnumerationItem).strip(),
                                               'field_index': enumeration_index})
-            enumeration_index += 1
         filled_template = template_filler.fill(asn_type=self.__class__.__name__,
                                                class_name=self.template_class_name,
                                                class_type=self.__class__.__name__,
@@ -38,6 +40,32 @@ class EnumeratedType(SimpleType):
         already_filled_template.add(filled_template)
         return filled_template
 
+    def _item_numbers(self):
+        # X.680 20.5, 20.6: an item without a number gets the next one that no other item of the root has
+        numbers = []
+        root_items = self.EnumerationItems
+        if '...' in root_items:
+            root_items = root_items[:root_items.index('...')]
+        used_numbers = set(int(number) for item in root_items if isinstance(item, dict) for number in item)
+        next_number = 0
+        in_root = True
+        for EnumerationItem in self.EnumerationItems:
+            if EnumerationItem == '...':
+                in_root = False
+                used_numbers.update(numbers)
+                next_number = 0
+                continue
+            if isinstance(EnumerationItem, dict):
+                number = int(list(EnumerationItem)[0])
+            else:
+                while next_number in used_numbers:
+                    next_number += 1
+                number = next_number
+            if not in_root or not isinstance(EnumerationItem, dict):
+                next_number = number + 1
+            numbers.append(number)
+        return numbers
+
     @property
     def EnumerationItems(self):
         return self._EnumerationItems
-- 
2.43.0


From 9d3c318d8e8f619300d8c00bb3e5fcdc9d199048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:18 +0000
Subject: [PATCH 33/72] fix: use the root of a constraint for its bounds, also
 for unions, open endpoints and (SIZE(..), ...)

---
 asn1PERser/classes/parse_actions.py | 52 ++++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 4 deletions(-)

diff --git a/asn1PERser/classes/parse_actions.py b/asn1PERser/classes/parse_actions.py
index 1f0a662..008011c 100644
--- a/asn1PERser/classes/parse_actions.py
+++ b/asn1PERser/classes/parse_actions.py
@@ -179,11 +179,55 @@ def parse_EnumeratedType(toks):
 def parse_Constraint(toks):
     constraint = toks[0]
     if constraint[0] == 'SIZE':
-        return constraint[1]
+        return _parse_size_extension(constraint[1], constraint[2:])
     constraint = '(' + ' '.join(constraint) + ')'
-    parsed = list(Constraint.parseString(constraint))
+    parsed = list(Constraint.parseString(constraint, parseAll=True))
     ext_mark = False
     if '...' in parsed:
-        parsed.remove('...')
+        parsed = parsed[:parsed.index('...')]    # what follows the marker is not part of the root
         ext_mark = True
-    return constraint_tuple(lowerEndpoint=parsed[0], upperEndpoint=parsed[-1], extensionMarker=ext_mark)
+    lower, upper = _parse_endpoints(parsed)
+    return constraint_tuple(lowerEndpoint=lower, upperEndpoint=upper, extensionMarker=ext_mark)
+
+
+def _parse_size_extension(size, following):
+    # (SIZE(1..4), ...) is extensible just like (SIZE(1..4, ...))
+    if not following:
+        return size
+    if ''.join(tok for tok in following if isinstance(tok, str)).startswith(',...'):
+        return size._replace(extensionMarker=True)
+    raise NotImplementedError('combined size constraints are not supported')
+
+
+def _parse_endpoints(parsed):
+    elements = [[]]
+    for tok in parsed:
+        if tok in ('|', 'UNION'):
+            elements.append([])
+        else:
+            elements[-1].append(tok)
+    endpoints = [_parse_element(element) for element in elements]
+    if len(endpoints) == 1:
+        return endpoints[0]
+    # the effective constraint of a union is the range from its smallest to its largest value
+    lowers, uppers = zip(*endpoints)
+    lower = 'MIN' if 'MIN' in lowers else str(min(int(value) for value in lowers))
+    upper = 'MAX' if 'MAX' in uppers else str(max(int(value) for value in uppers))
+    return lower, upper
+
+
+def _parse_element(element):
+    separator = element.index('..') if '..' in element else 0
+    lower, upper = element[:separator + 1], element[separator:]
+    if '..' in element:
+        lower, upper = lower[:-1], upper[1:]
+    if lower[1:] not in ([], ['<']) or upper[:-1] not in ([], ['<']):
+        raise NotImplementedError('constraint {} is not supported'.format(' '.join(element)))
+    lower = str(int(lower[0]) + 1) if '<' in lower else lower[0]
+    upper = str(int(upper[-1]) - 1) if '<' in upper else upper[-1]
+    return _endpoint_name(lower), _endpoint_name(upper)
+
+
+def _endpoint_name(endpoint):
+    # a value reference is a Python name in generated code
+    return endpoint.replace('-', '_') if endpoint[0].isalpha() else endpoint
-- 
2.43.0


From e5026323b885dbc16762002815eed709075c6b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:18 +0000
Subject: [PATCH 34/72] fix: components after the second extension marker of a
 SEQUENCE belong to the root

---
 asn1PERser/classes/types/builtin/SequenceType.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/classes/types/builtin/SequenceType.py b/asn1PERser/classes/types/builtin/SequenceType.py
index 4013c19..3df589a 100644
--- a/asn1PERser/classes/types/builtin/SequenceType.py
+++ b/asn1PERser/classes/types/builtin/SequenceType.py
@@ -18,6 +18,7 @@ class SequenceType(ComponentType):
         single_extension_group = []
         in_extension_addition_group = False
         extension_marker_present = False
+        in_extension = False
         for ComponentType in self.ComponentTypeList:
             if ComponentType == '[[':
                 in_extension_addition_group = True
@@ -31,9 +32,10 @@ class SequenceType(ComponentType):
                 single_extension_group.append(self._fill_named_types(ComponentType))
             if ComponentType == '...':
                 extension_marker_present = True
+                in_extension = not in_extension    # the root continues after a second marker
                 continue
             if not in_extension_addition_group:
-                if not extension_marker_present:
+                if not in_extension:
                     root_named_types.append(self._fill_named_types(ComponentType))
                 else:
                     addition_named_types.append(self._fill_named_types(ComponentType))
-- 
2.43.0


From 0afd2e015ae4bcec177cdf661263e30809b190de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:46 +0000
Subject: [PATCH 35/72] fix: accept the version number of an extension addition
 group

---
 asn1PERser/asn_definitions/type_def.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/asn_definitions/type_def.py b/asn1PERser/asn_definitions/type_def.py
index 3911105..488804c 100644
--- a/asn1PERser/asn_definitions/type_def.py
+++ b/asn1PERser/asn_definitions/type_def.py
@@ -173,7 +173,7 @@ NullType = NULL
 # 25.1
 VersionNumber = Or([
     empty,
-    number + COLON
+    (number + COLON).suppress()
 ])
 
 
-- 
2.43.0


From 5bfde68299106ead14a2dda3b11a9de799270cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:46 +0000
Subject: [PATCH 36/72] fix: a comment ends at the next pair of hyphens

---
 asn1PERser/classes/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/classes/module.py b/asn1PERser/classes/module.py
index 1007edd..e44764d 100644
--- a/asn1PERser/classes/module.py
+++ b/asn1PERser/classes/module.py
@@ -203,7 +203,7 @@ def remove_comments(asn1_schema):
 def _remove_line_comments(asn1_schema):
     no_comments = ''
     for line in asn1_schema.splitlines():
-        line = re.sub('--.*', '', line)
+        line = re.sub(r'--.*?(---*\s*$|--|$)', ' ', line)
         line += '\n'
         no_comments += line
     return no_comments
-- 
2.43.0


From 616a9ead933f246378076bac46af4d01013b06a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:32 +0000
Subject: [PATCH 37/72] fix: keep constraint and content of an element type
 written inside a SEQUENCE OF

---
 .../templates/files/SequenceOfType.txt        |  5 ++++
 .../classes/types/builtin/SequenceOfType.py   | 23 +++++++++++++++----
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/asn1PERser/classes/templates/files/SequenceOfType.txt b/asn1PERser/classes/templates/files/SequenceOfType.txt
index f1c1cd7..afd9b8d 100644
--- a/asn1PERser/classes/templates/files/SequenceOfType.txt
+++ b/asn1PERser/classes/templates/files/SequenceOfType.txt
@@ -1,4 +1,9 @@
 class {{ class_name }}({{ class_type }}):
+{%- filter indent(width=4) %}
+{%- for template in subtemplates %}
+{{ template }}
+{%- endfor %}
+{%- endfilter %}
 {%- if constraint.lowerEndpoint and constraint.upperEndpoint and constraint.extensionMarker %}
     subtypeSpec = SequenceOfValueSize({{ constraint.lowerEndpoint }}, {{ constraint.upperEndpoint }}, extensionMarker=True)
 {%- elif constraint.lowerEndpoint and constraint.upperEndpoint %}
diff --git a/asn1PERser/classes/types/builtin/SequenceOfType.py b/asn1PERser/classes/types/builtin/SequenceOfType.py
index b698562..0f533cb 100644
--- a/asn1PERser/classes/types/builtin/SequenceOfType.py
+++ b/asn1PERser/classes/types/builtin/SequenceOfType.py
@@ -1,4 +1,4 @@
-from ..type import ComponentType
+from ..type import ComponentType, DefType
 from asn1PERser.classes.templates.creator import template_filler
 from asn1PERser.classes.module import already_filled_template
 
@@ -10,23 +10,38 @@ class SequenceOfType(ComponentType):
         self.typereference = self.__class__.__name__
 
     def fill_template(self, has_parent=False):
+        inner_defined_templates = [self.ComponentType] if isinstance(self.ComponentType, DefType) else []
+        subtypes_templates = []
+        field_type = self.ComponentType.template_field_type
+        if self._is_inline(self.ComponentType):
+            self.ComponentType.identifier = field_type = 'Component'
+            inner_defined_templates, subtypes_template = self.ComponentType.fill_template(has_parent=True)
+            subtypes_templates.append(subtypes_template[:-2])    # remove 2 last new line characters
         filled_template = template_filler.fill(asn_type=self.__class__.__name__,
                                                class_name=self.template_class_name,
                                                class_type=self.__class__.__name__,
-                                               field_type=self.ComponentType.template_field_type,
+                                               subtemplates=subtypes_templates,
+                                               field_type=field_type,
                                                constraint={'extensionMarker': self.constraint.extensionMarker,
                                                            'lowerEndpoint': self.constraint.lowerEndpoint,
                                                            'upperEndpoint': self.constraint.upperEndpoint})
         if has_parent:
-            return ([self.ComponentType], filled_template)
+            return (inner_defined_templates, filled_template)
         if filled_template in already_filled_template:
             return ''
         already_filled_template.add(filled_template)
-        if self.ComponentType.typereference in ['IntegerType', 'BooleanType', 'OctetStringType', 'BitStringType']:
+        if subtypes_templates or self.ComponentType.typereference in ['IntegerType', 'BooleanType', 'OctetStringType',
+                                                                      'BitStringType']:
             return filled_template
         components_template = self.ComponentType.fill_template()
         return components_template + filled_template
 
+    def _is_inline(self, ComponentType):
+        # element type with content of its own, which needs a class of its own
+        if ComponentType.typereference in ['IntegerType', 'BooleanType', 'OctetStringType', 'BitStringType']:
+            return ComponentType.is_constrained()
+        return ComponentType.typereference in ['ChoiceType', 'SequenceType', 'EnumeratedType', 'SequenceOfType']
+
     @property
     def ComponentType(self):
         return self._ComponentType
-- 
2.43.0


From a4e02b9ae8a531ddf5fb6c3b4e76c7a60d05c405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:48 +0000
Subject: [PATCH 38/72] fix: a parsed schema does not depend on the schemas
 parsed before it

---
 asn1PERser/__init__.py                          | 3 ++-
 asn1PERser/classes/module.py                    | 6 ++++++
 asn1PERser/classes/types/builtin/DefinedType.py | 3 +++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/__init__.py b/asn1PERser/__init__.py
index 275410c..771689e 100644
--- a/asn1PERser/__init__.py
+++ b/asn1PERser/__init__.py
@@ -1,7 +1,7 @@
 from pyparsing import ParserElement
 from asn1PERser.codec.per.decoder import decode
 from asn1PERser.codec.per.encoder import encode
-from asn1PERser.classes.module import remove_comments
+from asn1PERser.classes.module import remove_comments, forget_parsed_types
 from asn1PERser.asn_definitions.module_def import ModuleDefinition
 from asn1PERser.logging_setup import asn1perser_logging_setup
 
@@ -14,6 +14,7 @@ ParserElement.enablePackrat()    # without memoization parsing time is exponenti
 
 
 def parse_asn1_schema(asn1_schema, output_folder=None):
+    forget_parsed_types()
     no_comment_schema = remove_comments(asn1_schema)
     parsed_asn = ModuleDefinition.parseString(no_comment_schema)[0]
     return parsed_asn.create_python_template(path=output_folder)
diff --git a/asn1PERser/classes/module.py b/asn1PERser/classes/module.py
index e44764d..31de9de 100644
--- a/asn1PERser/classes/module.py
+++ b/asn1PERser/classes/module.py
@@ -196,6 +196,12 @@ class ModuleDefinition(Template):
         return module_str
 
 
+def forget_parsed_types():
+    typereference_to_type.clear()
+    valuereference_to_type.clear()
+    constants.clear()
+
+
 def remove_comments(asn1_schema):
     return _remove_line_comments(asn1_schema)
 
diff --git a/asn1PERser/classes/types/builtin/DefinedType.py b/asn1PERser/classes/types/builtin/DefinedType.py
index fc3df2b..205e4a2 100644
--- a/asn1PERser/classes/types/builtin/DefinedType.py
+++ b/asn1PERser/classes/types/builtin/DefinedType.py
@@ -1,3 +1,4 @@
+from copy import copy
 from ..type import DefType, SimpleType
 from asn1PERser.classes.module import typereference_to_type
 from asn1PERser.classes.templates.creator import template_filler
@@ -19,6 +20,7 @@ class DefinedType(DefType):
         if self.Value and self.valuereference and self.typereference:  # foo SomeType ::= value
             while not defined_type.__class__.__name__ in ['IntegerType', 'BooleanType', 'OctetStringType', 'BitStringType']:
                 defined_type = typereference_to_type[defined_type.typereference]
+            defined_type = copy(defined_type)
             defined_type.valuereference = self.valuereference
             defined_type.typereference = self.typereference
             defined_type.Value = self.Value
@@ -27,6 +29,7 @@ class DefinedType(DefType):
                                         class_type=self.typereference.replace('-','_'),
                                         value=defined_type.Value)
         if self.Value:
+            defined_type = copy(defined_type)
             defined_type.Value = self.Value
             return defined_type.fill_template()
         if defined_type.__class__.__name__ != self.__class__.__name__:
-- 
2.43.0


From 66bdee2f6e42ded13caebf3e7d604b6f4e47e56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:22 +0000
Subject: [PATCH 39/72] fix: allow any white space inside BIT STRING, OCTET
 STRING, SEQUENCE OF and AUTOMATIC TAGS

---
 asn1PERser/asn_definitions/module_def.py |  8 ++++----
 asn1PERser/asn_definitions/type_def.py   | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/asn1PERser/asn_definitions/module_def.py b/asn1PERser/asn_definitions/module_def.py
index d0469ec..0ced4c3 100644
--- a/asn1PERser/asn_definitions/module_def.py
+++ b/asn1PERser/asn_definitions/module_def.py
@@ -1,4 +1,4 @@
-from pyparsing import Or, And, Forward, Literal, ZeroOrMore, Group
+from pyparsing import Or, And, Forward, Literal, Regex, ZeroOrMore, Group
 from asn1PERser.classes.parse_actions import parse_ModuleDefinition
 from .assignment_def import TypeAssignment, ValueAssignment
 from .common_def import DefinedValue
@@ -8,9 +8,9 @@ from .lexical_items import COMMA, LEFT_CURLY_BRACKET, RIGHT_CURLY_BRACKET, \
 
 
 FROM = Literal("FROM")
-EXPLICIT_TAGS = Literal("EXPLICIT TAGS")
-IMPLICIT_TAGS = Literal("IMPLICIT TAGS")
-AUTOMATIC_TAGS = Literal("AUTOMATIC TAGS")
+EXPLICIT_TAGS = Regex(r"EXPLICIT\s+TAGS")
+IMPLICIT_TAGS = Regex(r"IMPLICIT\s+TAGS")
+AUTOMATIC_TAGS = Regex(r"AUTOMATIC\s+TAGS")
 DEFINITIONS = Literal("DEFINITIONS").setResultsName("DEFINITIONS")
 BEGIN = Literal("BEGIN").setResultsName("BEGIN")
 END = Literal("END").setResultsName("END")
diff --git a/asn1PERser/asn_definitions/type_def.py b/asn1PERser/asn_definitions/type_def.py
index 488804c..01b2ae3 100644
--- a/asn1PERser/asn_definitions/type_def.py
+++ b/asn1PERser/asn_definitions/type_def.py
@@ -1,4 +1,4 @@
-from pyparsing import Or, And, Forward, Literal, ZeroOrMore, OneOrMore, Optional, nestedExpr, Group
+from pyparsing import Or, And, Forward, Literal, Regex, ZeroOrMore, OneOrMore, Optional, nestedExpr, Group
 from asn1PERser.classes.parse_actions import parse_SequenceType, parse_ComponentType, \
     parse_ConstrainedType, parse_DateType, parse_TypeWithConstraint, \
     parse_RealType, parse_ChoiceType, parse_AlternativeTypeList, \
@@ -23,11 +23,11 @@ BOOLEAN = Literal("BOOLEAN")
 INTEGER = Literal("INTEGER")
 OPTIONAL = Literal("OPTIONAL")
 DEFAULT = Literal("DEFAULT")
-COMPONENTS_OF = Literal("COMPONENTS OF")
-BIT_STRING = Literal("BIT STRING")
+COMPONENTS_OF = Regex(r"COMPONENTS\s+OF")
+BIT_STRING = Regex(r"BIT\s+STRING")
 ENUMERATED = Literal("ENUMERATED")
 SEQUENCE = Literal("SEQUENCE")
-SEQUENCE_OF = Literal("SEQUENCE OF")
+SEQUENCE_OF = Regex(r"SEQUENCE\s+OF")
 CHOICE = Literal("CHOICE")
 SET = Literal("SET")
 OF = Literal("OF")
@@ -163,7 +163,7 @@ BitStringType = Or([
 
 
 # 23.1
-OctetStringType = Literal("OCTET STRING").setParseAction(parse_OctetStringType)
+OctetStringType = Regex(r"OCTET\s+STRING").setParseAction(parse_OctetStringType)
 
 
 # 24.1
-- 
2.43.0


From 85fd831a2bb680ca81da44c9e2972a7e05037534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:22 +0000
Subject: [PATCH 40/72] fix: refuse text after the END of the module instead of
 ignoring it (a second module, for example)

---
 asn1PERser/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/__init__.py b/asn1PERser/__init__.py
index 771689e..631c63b 100644
--- a/asn1PERser/__init__.py
+++ b/asn1PERser/__init__.py
@@ -16,5 +16,5 @@ ParserElement.enablePackrat()    # without memoization parsing time is exponenti
 def parse_asn1_schema(asn1_schema, output_folder=None):
     forget_parsed_types()
     no_comment_schema = remove_comments(asn1_schema)
-    parsed_asn = ModuleDefinition.parseString(no_comment_schema)[0]
+    parsed_asn = ModuleDefinition.parseString(no_comment_schema, parseAll=True)[0]
     return parsed_asn.create_python_template(path=output_folder)
-- 
2.43.0


From 9388d366fa03c0f6acebe668841064e09f5ffa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:16 +0000
Subject: [PATCH 41/72] fix: ''H is an empty BIT STRING and ''B an empty OCTET
 STRING

---
 README.md                                          | 11 -----------
 asn1PERser/classes/data/builtin/BitStringType.py   |  6 ++++++
 asn1PERser/classes/data/builtin/OctetStringType.py |  6 ++++++
 3 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/README.md b/README.md
index 69429c0..1d6f8e4 100644
--- a/README.md
+++ b/README.md
@@ -556,17 +556,6 @@ Above will print logging.INFO level logs to console.
 See CHANGES file.
 
 ## Known bugs
-- Defining BitStringType type with default hexValue set to empty string (''), like:
-```
-...
-d15     BIT STRING DEFAULT ''H,
-...
-```
-will parse to Python code but running it will cause exception:
-```
-pyasn1.error.PyAsn1Error: BitStringType.fromHexString() error: invalid literal for int() with base 16: ''
-```
-
 - This will parse, but sorting algorith may not sort it corretly:
 ```
     
diff --git a/asn1PERser/classes/data/builtin/BitStringType.py b/asn1PERser/classes/data/builtin/BitStringType.py
index 8b9b62a..db8629f 100644
--- a/asn1PERser/classes/data/builtin/BitStringType.py
+++ b/asn1PERser/classes/data/builtin/BitStringType.py
@@ -7,6 +7,12 @@ from asn1PERser.classes.types.constraint import NoConstraint
 class BitStringType(BitString):
     subtypeSpec = NoConstraint()
 
+    @classmethod
+    def fromHexString(cls, value, internalFormat=False, prepend=None):
+        if not value:    # pyasn1 refuses it
+            return cls.fromBinaryString('', internalFormat, prepend)
+        return super(BitStringType, cls).fromHexString(value, internalFormat, prepend)
+
     def fill_field_list(self, field_list):
         bitstring_field_list = encode_bitstring(self)
         if bitstring_field_list:
diff --git a/asn1PERser/classes/data/builtin/OctetStringType.py b/asn1PERser/classes/data/builtin/OctetStringType.py
index 5f7577a..3f2d581 100644
--- a/asn1PERser/classes/data/builtin/OctetStringType.py
+++ b/asn1PERser/classes/data/builtin/OctetStringType.py
@@ -7,6 +7,12 @@ from asn1PERser.classes.types.constraint import NoConstraint
 class OctetStringType(OctetString):
     subtypeSpec = NoConstraint()
 
+    @staticmethod
+    def fromBinaryString(value):
+        if not value:    # pyasn1 makes it one zero octet
+            return b''
+        return OctetString.fromBinaryString(value)
+
     def fill_field_list(self, field_list):
         octetstring_field_list = encode_octetstring(self)
         if octetstring_field_list:
-- 
2.43.0


From 987f3afa668d09444993b872f58f873169c5595d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:23 +0000
Subject: [PATCH 42/72] fix: value references and values of renamed types in
 DEFAULT and value assignments

---
 asn1PERser/classes/module.py                    | 11 +++++++++++
 asn1PERser/classes/parse_actions.py             |  2 ++
 .../classes/types/builtin/BitStringType.py      |  3 +++
 asn1PERser/classes/types/builtin/BooleanType.py |  6 ++++--
 asn1PERser/classes/types/builtin/DefinedType.py |  8 ++++----
 .../classes/types/builtin/EnumeratedType.py     |  7 ++++++-
 asn1PERser/classes/types/builtin/IntegerType.py |  5 +++++
 .../classes/types/builtin/OctetStringType.py    |  3 +++
 .../classes/types/builtin/SequenceType.py       | 17 ++++++++---------
 asn1PERser/classes/types/type.py                |  6 +++++-
 10 files changed, 51 insertions(+), 17 deletions(-)

diff --git a/asn1PERser/classes/module.py b/asn1PERser/classes/module.py
index 31de9de..174f35d 100644
--- a/asn1PERser/classes/module.py
+++ b/asn1PERser/classes/module.py
@@ -196,6 +196,17 @@ class ModuleDefinition(Template):
         return module_str
 
 
+def resolve_type(typereference):
+    resolved_type = typereference_to_type[typereference]
+    passed_typereferences = [typereference]
+    while isinstance(resolved_type, DefType):    # Foo ::= Bar
+        if resolved_type.typereference in passed_typereferences:
+            raise ValueError('{} is defined as itself'.format(typereference))
+        passed_typereferences.append(resolved_type.typereference)
+        resolved_type = typereference_to_type[resolved_type.typereference]
+    return resolved_type
+
+
 def forget_parsed_types():
     typereference_to_type.clear()
     valuereference_to_type.clear()
diff --git a/asn1PERser/classes/parse_actions.py b/asn1PERser/classes/parse_actions.py
index 008011c..449b4d2 100644
--- a/asn1PERser/classes/parse_actions.py
+++ b/asn1PERser/classes/parse_actions.py
@@ -111,6 +111,8 @@ def parse_ComponentType(toks):
         if toks[2] == 'OPTIONAL':
             Type.optional = True
         if toks[2] == 'DEFAULT':
+            if len(toks) != 4:
+                raise NotImplementedError('DEFAULT of {} is not supported'.format(identifier))
             Type.default = toks[3]
     except IndexError:
         pass
diff --git a/asn1PERser/classes/types/builtin/BitStringType.py b/asn1PERser/classes/types/builtin/BitStringType.py
index f3b89f4..6c3ff52 100644
--- a/asn1PERser/classes/types/builtin/BitStringType.py
+++ b/asn1PERser/classes/types/builtin/BitStringType.py
@@ -26,6 +26,9 @@ class BitStringType(SimpleType):
         return ''
 
     def parse_value(self, value):
+        if not value.startswith("'"):
+            return self.parse_reference(value)
+        value = ''.join(value.split())
         if value.endswith('B'):
             return "binValue={}".format(value[:-1])
         if value.endswith('H'):
diff --git a/asn1PERser/classes/types/builtin/BooleanType.py b/asn1PERser/classes/types/builtin/BooleanType.py
index 71f74c0..1fd18e1 100644
--- a/asn1PERser/classes/types/builtin/BooleanType.py
+++ b/asn1PERser/classes/types/builtin/BooleanType.py
@@ -9,7 +9,7 @@ class BooleanType(SimpleType):
         self.typereference = self.__class__.__name__
 
     def fill_template(self, has_parent=False):
-        if isinstance(self.Value, bool):
+        if self.Value is not None:
             return template_filler.fill(asn_type=self.__class__.__name__, type_or_value='value',
                                         valuereference=self.valuereference, value=self.Value,
                                         class_type=self.template_field_type)
@@ -25,4 +25,6 @@ class BooleanType(SimpleType):
     def parse_value(self, value):
         if value == 'TRUE':
             return True
-        return False
+        if value == 'FALSE':
+            return False
+        return self.parse_reference(value)
diff --git a/asn1PERser/classes/types/builtin/DefinedType.py b/asn1PERser/classes/types/builtin/DefinedType.py
index 205e4a2..278ba40 100644
--- a/asn1PERser/classes/types/builtin/DefinedType.py
+++ b/asn1PERser/classes/types/builtin/DefinedType.py
@@ -1,6 +1,6 @@
 from copy import copy
 from ..type import DefType, SimpleType
-from asn1PERser.classes.module import typereference_to_type
+from asn1PERser.classes.module import typereference_to_type, resolve_type
 from asn1PERser.classes.templates.creator import template_filler
 
 
@@ -18,9 +18,9 @@ class DefinedType(DefType):
                                         typereference=self.typereference.replace('-', '_'))
 
         if self.Value and self.valuereference and self.typereference:  # foo SomeType ::= value
-            while not defined_type.__class__.__name__ in ['IntegerType', 'BooleanType', 'OctetStringType', 'BitStringType']:
-                defined_type = typereference_to_type[defined_type.typereference]
-            defined_type = copy(defined_type)
+            defined_type = copy(resolve_type(self.typereference))
+            if not isinstance(defined_type, SimpleType):
+                raise NotImplementedError('value of {} is not supported'.format(self.typereference))
             defined_type.valuereference = self.valuereference
             defined_type.typereference = self.typereference
             defined_type.Value = self.Value
diff --git a/asn1PERser/classes/types/builtin/EnumeratedType.py b/asn1PERser/classes/types/builtin/EnumeratedType.py
index 03f989d..a03ecbf 100644
--- a/asn1PERser/classes/types/builtin/EnumeratedType.py
+++ b/asn1PERser/classes/types/builtin/EnumeratedType.py
@@ -10,6 +10,8 @@ class EnumeratedType(SimpleType):
         self.typereference = self.__class__.__name__
 
     def fill_template(self, has_parent=False):
+        if self.Value is not None:
+            raise NotImplementedError('value of an unnamed ENUMERATED is not supported')
         root_named_values = []
         addition_named_values = []
         extension_marker_present = False
@@ -78,7 +80,10 @@ class EnumeratedType(SimpleType):
             self._EnumerationItems.append({EnumerationItem[1]: EnumerationItem[0]})
 
     def parse_value(self, value):
-        return "'" + value + "'"
+        for EnumerationItem in self.EnumerationItems:
+            if value == EnumerationItem or isinstance(EnumerationItem, dict) and value in EnumerationItem.values():
+                return "'" + value + "'"
+        return self.parse_reference(value)
 
     def __repr__(self):
         return '\n\t'.join([super(EnumeratedType, self).__repr__()] + \
diff --git a/asn1PERser/classes/types/builtin/IntegerType.py b/asn1PERser/classes/types/builtin/IntegerType.py
index 40c6107..bf79112 100644
--- a/asn1PERser/classes/types/builtin/IntegerType.py
+++ b/asn1PERser/classes/types/builtin/IntegerType.py
@@ -24,3 +24,8 @@ class IntegerType(SimpleType):
             already_filled_template.add(filled_template)
             return filled_template
         return ''
+
+    def parse_value(self, value):
+        if value[0].isalpha():
+            return self.parse_reference(value)
+        return value
diff --git a/asn1PERser/classes/types/builtin/OctetStringType.py b/asn1PERser/classes/types/builtin/OctetStringType.py
index e1f1cdc..d21b1c7 100644
--- a/asn1PERser/classes/types/builtin/OctetStringType.py
+++ b/asn1PERser/classes/types/builtin/OctetStringType.py
@@ -26,6 +26,9 @@ class OctetStringType(SimpleType):
         return ''
 
     def parse_value(self, value):
+        if not value.startswith("'"):
+            return self.parse_reference(value)
+        value = ''.join(value.split())
         if value.endswith('B'):
             return "binValue={}".format(value[:-1])
         if value.endswith('H'):
diff --git a/asn1PERser/classes/types/builtin/SequenceType.py b/asn1PERser/classes/types/builtin/SequenceType.py
index 3df589a..e0ecf8d 100644
--- a/asn1PERser/classes/types/builtin/SequenceType.py
+++ b/asn1PERser/classes/types/builtin/SequenceType.py
@@ -1,6 +1,6 @@
 from ..type import ComponentType
 from asn1PERser.classes.templates.creator import template_filler
-from asn1PERser.classes.module import already_filled_template, typereference_to_type, constants
+from asn1PERser.classes.module import already_filled_template, typereference_to_type, constants, resolve_type
 
 
 class SequenceType(ComponentType):
@@ -96,14 +96,13 @@ class SequenceType(ComponentType):
             named_type_properties['optional'] = True
         elif ComponentType.default is not None:
             named_type_properties['default'] = True
-            if ComponentType.default in constants.keys():
-                named_type_properties['is_constant'] = True;
-                named_type_properties['default_value'] = str(ComponentType.default)
-            else:
-                if ComponentType.typereference in typereference_to_type.keys():
-                    named_type_properties['default_value'] = typereference_to_type[ComponentType.typereference].parse_value(ComponentType.default)
-                else:
-                    named_type_properties['default_value'] = str(ComponentType.default)
+            default_value = ComponentType.default
+            if ComponentType.typereference in typereference_to_type.keys():
+                default_value = resolve_type(ComponentType.typereference).parse_value(default_value)
+            named_type_properties['default_value'] = str(default_value)
+            if default_value in constants.keys() and \
+                    constants[default_value].typereference == ComponentType.typereference:
+                named_type_properties['is_constant'] = True
         else:
             pass
         return named_type_properties
diff --git a/asn1PERser/classes/types/type.py b/asn1PERser/classes/types/type.py
index 1d196af..70a21d4 100644
--- a/asn1PERser/classes/types/type.py
+++ b/asn1PERser/classes/types/type.py
@@ -19,6 +19,9 @@ class Type(Template):
     def parse_value(self, value):
         return value
 
+    def parse_reference(self, value):
+        return value.replace('-', '_')    # a value reference is a Python name in generated code
+
     def is_constrained(self):
         if isinstance(self.constraint, NoConstraint):
             return False
@@ -100,7 +103,8 @@ class SimpleType(Type):
 
 
 class ComponentType(Type):
-    pass
+    def parse_value(self, value):
+        raise NotImplementedError('value of {} is not supported'.format(self.__class__.__name__))
 
 
 class DefType(Type):
-- 
2.43.0


From 5f301e9e4666c6c0365bed78beaf4f5cf35585d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:46 +0000
Subject: [PATCH 43/72] fix: define every type and value before it is used,
 whatever the order in the schema

---
 README.md                        | 34 --------------------------
 asn1PERser/classes/module.py     | 41 +++++++++++++++++++++++++++++++-
 asn1PERser/classes/types/type.py |  4 ++++
 3 files changed, 44 insertions(+), 35 deletions(-)

diff --git a/README.md b/README.md
index 1d6f8e4..badfaaf 100644
--- a/README.md
+++ b/README.md
@@ -20,7 +20,6 @@ Table of contents:
 3. [Dictionary creation](#dictionary-creation)
 4. [Additional info](#additional-info)
 5. [History](#history)
-6. [Known bugs](#known-bugs)
 
 ## Examples
 Following ASN.1 schema:
@@ -554,36 +553,3 @@ Above will print logging.INFO level logs to console.
 ## History
 
 See CHANGES file.
-
-## Known bugs
-- This will parse, but sorting algorith may not sort it corretly:
-```
-    
-    MySeq2 ::= MySeq1   -- ok since one level of nesting is ok
-
-    MySeq3 ::= MySeq1   -- ok since one level of nesting is ok
-    
-    MySeq1 ::= SEQUENCE {
-        d00     INTEGER
-    }
-
-    MySeq4 ::= MySeq2   -- NOT OK! 2nd level of nesting 
-```
-This will parse into:
-```python
-MySeq4 = MySeq2
-
-
-class MySeq1(SequenceType):
-    rootComponent = AdditiveNamedTypes(
-        NamedType('d00', IntegerType()),
-    )
-    componentType = rootComponent
-
-
-MySeq3 = MySeq1
-
-
-MySeq2 = MySeq1
-```
-so Python will not find MySeq2 - this will lead to NameError.
diff --git a/asn1PERser/classes/module.py b/asn1PERser/classes/module.py
index 174f35d..ea2e700 100644
--- a/asn1PERser/classes/module.py
+++ b/asn1PERser/classes/module.py
@@ -58,7 +58,46 @@ class ModuleDefinition(Template):
                 component_type_assignments.append(assignment)
         component_type_assignments = self.sort_components(component_type_assignments)
         type_type_assignments, component_type_assignments = self.additional_sort(type_type_assignments, component_type_assignments)
-        return [] + value_assignments + simple_type_assignments + type_type_assignments + constant_assignments + component_type_assignments
+        return self.sort_by_dependency([] + value_assignments + simple_type_assignments + type_type_assignments +
+                                       constant_assignments + component_type_assignments)
+
+    def sort_by_dependency(self, assignments):
+        name_to_assignment = {}
+        for assignment in assignments:
+            name_to_assignment[self._get_assigned_name(assignment)] = assignment
+        sorted_assignments = []
+        visited_names = set()
+
+        def visit(assignment):
+            name = self._get_assigned_name(assignment)
+            if name in visited_names:
+                return
+            visited_names.add(name)
+            for used_name in self._get_used_names(assignment):
+                if used_name in name_to_assignment:
+                    visit(name_to_assignment[used_name])
+            sorted_assignments.append(assignment)
+
+        for assignment in assignments:
+            visit(assignment)
+        return sorted_assignments
+
+    def _get_assigned_name(self, assignment):
+        return (assignment.valuereference or assignment.identifier or assignment.typereference).replace('-', '_')
+
+    def _get_used_names(self, used_type):
+        if isinstance(used_type, str):  # elipsis: ...
+            return []
+        used_names = [used_type.Value, used_type.default_reference]
+        if isinstance(used_type, DefType):
+            used_names.append(used_type.typereference)
+        if used_type.is_constrained():
+            used_names += [used_type.constraint.lowerEndpoint, used_type.constraint.upperEndpoint]
+        used_names = [str(name).replace('-', '_') for name in used_names]
+        if isinstance(used_type, ComponentType):
+            for subcomponent in used_type:
+                used_names += self._get_used_names(subcomponent)
+        return used_names
 
     def sort_components(self, component_type_assignments):
         MAX_ITERATIONS = 100
diff --git a/asn1PERser/classes/types/type.py b/asn1PERser/classes/types/type.py
index 70a21d4..884a71b 100644
--- a/asn1PERser/classes/types/type.py
+++ b/asn1PERser/classes/types/type.py
@@ -73,6 +73,10 @@ class Type(Template):
             return self.parse_value(self._default)
         return self._default
 
+    @property
+    def default_reference(self):
+        return self._default
+
     @default.setter
     def default(self, default):
         self._default = default
-- 
2.43.0


From f97b5ea51b5e47d865f499059e4cb1116629c20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:19 +0000
Subject: [PATCH 44/72] fix: accept an INTEGER constant as an endpoint of a
 constraint

---
 asn1PERser/classes/types/constraint.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/asn1PERser/classes/types/constraint.py b/asn1PERser/classes/types/constraint.py
index 205259e..f62de22 100644
--- a/asn1PERser/classes/types/constraint.py
+++ b/asn1PERser/classes/types/constraint.py
@@ -6,6 +6,11 @@ MIN = float('-inf')
 MAX = float('inf')
 
 
+def _endpoint(value):
+    # an endpoint can also be an IntegerType: INTEGER (lowest..highest)
+    return value if value in (None, MIN, MAX) else int(value)
+
+
 class NoConstraint(ConstraintsIntersection):
     def __init__(self):
         self.extensionMarker = False
@@ -44,6 +49,7 @@ class SequenceOfValueSize(ConstraintsIntersection):
     OCTET STRING.
     '''
     def __init__(self, lower_endpoint, upper_endpoint, extensionMarker=False):
+        lower_endpoint, upper_endpoint = _endpoint(lower_endpoint), _endpoint(upper_endpoint)
         self.extensionMarker = extensionMarker
         self.lowerEndpoint = 0 if lower_endpoint == MIN else lower_endpoint    # size is never negative
         self.upperEndpoint = None if upper_endpoint == MAX else upper_endpoint
@@ -52,6 +58,7 @@ class SequenceOfValueSize(ConstraintsIntersection):
 
 class ValueRange(ValueRangeConstraint):
     def __init__(self, lower_endpoint, upper_endpoint, extensionMarker=False):
+        lower_endpoint, upper_endpoint = _endpoint(lower_endpoint), _endpoint(upper_endpoint)
         self.extensionMarker = extensionMarker
         self.lowerEndpoint = None if lower_endpoint == MIN else lower_endpoint
         self.upperEndpoint = None if upper_endpoint == MAX else upper_endpoint
@@ -76,6 +83,7 @@ class SingleValue(SingleValueConstraint):
 
 class ValueSize(ValueSizeConstraint):
     def __init__(self, lower_endpoint, upper_endpoint, extensionMarker=False):
+        lower_endpoint, upper_endpoint = _endpoint(lower_endpoint), _endpoint(upper_endpoint)
         self.extensionMarker = extensionMarker
         self.lowerEndpoint = 0 if lower_endpoint == MIN else lower_endpoint    # size is never negative
         self.upperEndpoint = None if upper_endpoint == MAX else upper_endpoint
-- 
2.43.0


From d28ed9aa2f7430d6dc352680dc7af9c64ae0f527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:14 +0000
Subject: [PATCH 45/72] fix: refuse a schema that defines the same name more
 than once

---
 asn1PERser/classes/module.py        | 5 ++++-
 asn1PERser/classes/parse_actions.py | 9 +++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/classes/module.py b/asn1PERser/classes/module.py
index ea2e700..813d1ba 100644
--- a/asn1PERser/classes/module.py
+++ b/asn1PERser/classes/module.py
@@ -64,7 +64,10 @@ class ModuleDefinition(Template):
     def sort_by_dependency(self, assignments):
         name_to_assignment = {}
         for assignment in assignments:
-            name_to_assignment[self._get_assigned_name(assignment)] = assignment
+            name = self._get_assigned_name(assignment)
+            if name in name_to_assignment:
+                raise ValueError('{} is assigned more than once'.format(name))
+            name_to_assignment[name] = assignment
         sorted_assignments = []
         visited_names = set()
 
diff --git a/asn1PERser/classes/parse_actions.py b/asn1PERser/classes/parse_actions.py
index 449b4d2..b564889 100644
--- a/asn1PERser/classes/parse_actions.py
+++ b/asn1PERser/classes/parse_actions.py
@@ -54,6 +54,7 @@ def parse_SequenceType(toks):
     sequence_type = SequenceType()
     for Type in toks[1:]:
         sequence_type.ComponentTypeList = Type
+    _check_unique_identifiers(sequence_type.ComponentTypeList)
     return sequence_type
 
 
@@ -68,9 +69,17 @@ def parse_ChoiceType(toks):
     choice_type = ChoiceType()
     for Type in toks[1:]:
         choice_type.AlternativeTypeList = Type
+    _check_unique_identifiers(choice_type.AlternativeTypeList)
     return choice_type
 
 
+def _check_unique_identifiers(types):
+    identifiers = [Type.identifier for Type in types if not isinstance(Type, str)]    # str: ... [[ ]]
+    for identifier in identifiers:
+        if identifiers.count(identifier) > 1:
+            raise ValueError('{} is defined more than once'.format(identifier))
+
+
 def parse_DefinedType(toks):
     return DefinedType(toks[0])
 
-- 
2.43.0


From c5efb003f37e9c9842dd909f7cf66b5957ef4bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:33 +0000
Subject: [PATCH 46/72] fix: refuse a value that is not one of its type's, such
 as OCTET STRING DEFAULT 5

---
 asn1PERser/classes/types/builtin/IntegerType.py | 6 +++---
 asn1PERser/classes/types/type.py                | 2 ++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/asn1PERser/classes/types/builtin/IntegerType.py b/asn1PERser/classes/types/builtin/IntegerType.py
index bf79112..45da67b 100644
--- a/asn1PERser/classes/types/builtin/IntegerType.py
+++ b/asn1PERser/classes/types/builtin/IntegerType.py
@@ -26,6 +26,6 @@ class IntegerType(SimpleType):
         return ''
 
     def parse_value(self, value):
-        if value[0].isalpha():
-            return self.parse_reference(value)
-        return value
+        if value.lstrip('-').isdigit():
+            return value
+        return self.parse_reference(value)
diff --git a/asn1PERser/classes/types/type.py b/asn1PERser/classes/types/type.py
index 884a71b..79a6d13 100644
--- a/asn1PERser/classes/types/type.py
+++ b/asn1PERser/classes/types/type.py
@@ -20,6 +20,8 @@ class Type(Template):
         return value
 
     def parse_reference(self, value):
+        if not value[0].islower():
+            raise ValueError('{} is not a value of {}'.format(value, self.__class__.__name__))
         return value.replace('-', '_')    # a value reference is a Python name in generated code
 
     def is_constrained(self):
-- 
2.43.0


From 53390cd67d75f7f2d1a75952fb59ec7c4bd25492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:59 +0000
Subject: [PATCH 47/72] fix: an exception specification is not an item of an
 ENUMERATED (nor a failure in SEQUENCE and CHOICE)

---
 asn1PERser/asn_definitions/type_def.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/asn_definitions/type_def.py b/asn1PERser/asn_definitions/type_def.py
index 01b2ae3..540cfd9 100644
--- a/asn1PERser/asn_definitions/type_def.py
+++ b/asn1PERser/asn_definitions/type_def.py
@@ -68,7 +68,7 @@ ExceptionIdentification = Or([
 
 # 53.4
 ExceptionSpec = Or([
-    EXCLAMATION_MARK + ExceptionIdentification,
+    (EXCLAMATION_MARK + ExceptionIdentification).suppress(),
     empty
 ])
 
-- 
2.43.0


From 7153ad4d5e7417d17cd3cda113d93e010744f76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:44 +0000
Subject: [PATCH 48/72] fix: keep the constraint of a constant whose type is
 written inline

---
 asn1PERser/classes/templates/files/simple_value.txt | 2 +-
 asn1PERser/classes/types/builtin/BitStringType.py   | 3 ++-
 asn1PERser/classes/types/builtin/IntegerType.py     | 3 ++-
 asn1PERser/classes/types/builtin/OctetStringType.py | 3 ++-
 asn1PERser/classes/types/type.py                    | 6 ++++++
 5 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/asn1PERser/classes/templates/files/simple_value.txt b/asn1PERser/classes/templates/files/simple_value.txt
index 21a8924..52445d2 100644
--- a/asn1PERser/classes/templates/files/simple_value.txt
+++ b/asn1PERser/classes/templates/files/simple_value.txt
@@ -1,4 +1,4 @@
-{{ valuereference }} = {{ class_type }}({{ value }})
+{{ valuereference }} = {{ class_type }}({{ value }}{% if constraint %}, subtypeSpec={{ constraint }}{% endif %})
 
 
 
diff --git a/asn1PERser/classes/types/builtin/BitStringType.py b/asn1PERser/classes/types/builtin/BitStringType.py
index 6c3ff52..90d3bde 100644
--- a/asn1PERser/classes/types/builtin/BitStringType.py
+++ b/asn1PERser/classes/types/builtin/BitStringType.py
@@ -12,7 +12,8 @@ class BitStringType(SimpleType):
         if self.Value:
             return template_filler.fill(asn_type=self.__class__.__name__, type_or_value='value',
                                         valuereference=self.valuereference, value=self.Value,
-                                        class_type=self.template_field_type)
+                                        class_type=self.template_field_type,
+                                        constraint=self.parse_constraint('ValueSize'))
         filled_template = template_filler.fill(asn_type=self.__class__.__name__, type_or_value='type',
                                                class_name=self.template_class_name, class_type=self.__class__.__name__,
                                                constraint={'extensionMarker': self.constraint.extensionMarker,
diff --git a/asn1PERser/classes/types/builtin/IntegerType.py b/asn1PERser/classes/types/builtin/IntegerType.py
index 45da67b..88c6917 100644
--- a/asn1PERser/classes/types/builtin/IntegerType.py
+++ b/asn1PERser/classes/types/builtin/IntegerType.py
@@ -12,7 +12,8 @@ class IntegerType(SimpleType):
         if self.Value:
             return template_filler.fill(asn_type=self.__class__.__name__, type_or_value='value',
                                         valuereference=self.valuereference, value=self.Value,
-                                        class_type=self.template_field_type)
+                                        class_type=self.template_field_type,
+                                        constraint=self.parse_constraint('ValueRange'))
         filled_template = template_filler.fill(asn_type=self.__class__.__name__, type_or_value='type',
                                                class_name=self.template_class_name, class_type=self.__class__.__name__,
                                                constraint={'extensionMarker': self.constraint.extensionMarker,
diff --git a/asn1PERser/classes/types/builtin/OctetStringType.py b/asn1PERser/classes/types/builtin/OctetStringType.py
index d21b1c7..cb2fe36 100644
--- a/asn1PERser/classes/types/builtin/OctetStringType.py
+++ b/asn1PERser/classes/types/builtin/OctetStringType.py
@@ -12,7 +12,8 @@ class OctetStringType(SimpleType):
         if self.Value:
             return template_filler.fill(asn_type=self.__class__.__name__, type_or_value='value',
                                         valuereference=self.valuereference, value=self.Value,
-                                        class_type=self.template_field_type)
+                                        class_type=self.template_field_type,
+                                        constraint=self.parse_constraint('ValueSize'))
         filled_template = template_filler.fill(asn_type=self.__class__.__name__, type_or_value='type',
                                                class_name=self.template_class_name, class_type=self.__class__.__name__,
                                                constraint={'extensionMarker': self.constraint.extensionMarker,
diff --git a/asn1PERser/classes/types/type.py b/asn1PERser/classes/types/type.py
index 79a6d13..3b08ffc 100644
--- a/asn1PERser/classes/types/type.py
+++ b/asn1PERser/classes/types/type.py
@@ -24,6 +24,12 @@ class Type(Template):
             raise ValueError('{} is not a value of {}'.format(value, self.__class__.__name__))
         return value.replace('-', '_')    # a value reference is a Python name in generated code
 
+    def parse_constraint(self, constraint_class):
+        if not self.is_constrained():
+            return ''
+        return '{}({}, {}, extensionMarker={})'.format(constraint_class, self.constraint.lowerEndpoint,
+                                                       self.constraint.upperEndpoint, self.constraint.extensionMarker)
+
     def is_constrained(self):
         if isinstance(self.constraint, NoConstraint):
             return False
-- 
2.43.0


From a4c42bae2da314739fde736c212f259d8b9b2004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:49 +0000
Subject: [PATCH 49/72] fix: names that are Python keywords, or part of the
 class they are nested in, get a trailing underscore

---
 asn1PERser/classes/module.py                  |  6 +++---
 asn1PERser/classes/parse_actions.py           |  3 ++-
 asn1PERser/classes/templates/__init__.py      | 19 +++++++++++++++++--
 .../classes/types/builtin/DefinedType.py      |  7 ++++---
 asn1PERser/classes/types/type.py              |  6 +++---
 5 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/asn1PERser/classes/module.py b/asn1PERser/classes/module.py
index 813d1ba..030c505 100644
--- a/asn1PERser/classes/module.py
+++ b/asn1PERser/classes/module.py
@@ -1,7 +1,7 @@
 import os
 import re
 import logging
-from asn1PERser.classes.templates import Template
+from asn1PERser.classes.templates import Template, python_name
 from asn1PERser.classes.types.type import SimpleType, ComponentType, DefType
 
 
@@ -86,7 +86,7 @@ class ModuleDefinition(Template):
         return sorted_assignments
 
     def _get_assigned_name(self, assignment):
-        return (assignment.valuereference or assignment.identifier or assignment.typereference).replace('-', '_')
+        return python_name(assignment.valuereference or assignment.identifier or assignment.typereference)
 
     def _get_used_names(self, used_type):
         if isinstance(used_type, str):  # elipsis: ...
@@ -96,7 +96,7 @@ class ModuleDefinition(Template):
             used_names.append(used_type.typereference)
         if used_type.is_constrained():
             used_names += [used_type.constraint.lowerEndpoint, used_type.constraint.upperEndpoint]
-        used_names = [str(name).replace('-', '_') for name in used_names]
+        used_names = [python_name(str(name)) for name in used_names if name is not None]
         if isinstance(used_type, ComponentType):
             for subcomponent in used_type:
                 used_names += self._get_used_names(subcomponent)
diff --git a/asn1PERser/classes/parse_actions.py b/asn1PERser/classes/parse_actions.py
index b564889..51ccf0a 100644
--- a/asn1PERser/classes/parse_actions.py
+++ b/asn1PERser/classes/parse_actions.py
@@ -4,6 +4,7 @@ from asn1PERser.classes.types.builtin import SequenceType, DefinedType, \
     VisibleString, NumericString, IntegerType, DateType, RealType, BooleanType, \
     ChoiceType, EnumeratedType, IA5String, UTF8String, OctetStringType, \
     BitStringType, SequenceOfType, builtin_types
+from asn1PERser.classes.templates import python_name
 from asn1PERser.classes.module import ModuleDefinition, typereference_to_type
 from asn1PERser.asn_definitions.constraint_def import Constraint
 
@@ -241,4 +242,4 @@ def _parse_element(element):
 
 def _endpoint_name(endpoint):
     # a value reference is a Python name in generated code
-    return endpoint.replace('-', '_') if endpoint[0].isalpha() else endpoint
+    return python_name(endpoint) if endpoint[0].isalpha() else endpoint
diff --git a/asn1PERser/classes/templates/__init__.py b/asn1PERser/classes/templates/__init__.py
index 2ad4066..af191a3 100644
--- a/asn1PERser/classes/templates/__init__.py
+++ b/asn1PERser/classes/templates/__init__.py
@@ -1,14 +1,29 @@
+from keyword import iskeyword
+from asn1PERser.classes.data.builtin import SequenceType, SequenceOfType, ChoiceType
 from .creator import template_filler
 
 
+# a class with such a name, nested in a generated class, would replace a part of that class
+names_of_generated_class = set(dir(SequenceType) + dir(SequenceOfType) + dir(ChoiceType) +
+                               ['rootComponent', 'extensionAddition', 'extensionAdditionGroups'])
+
+
+def python_name(name):
+    name = name.replace('-', '_')
+    return name + '_' if iskeyword(name) else name
+
+
 class Template(object):
     def fill_template(self):
         return template_filler.fill('header')
 
     @property
     def template_class_name(self):
-        return self.identifier.replace('-','_') if self.identifier else self.typereference.replace('-','_')
+        if not self.identifier:
+            return python_name(self.typereference)
+        name = python_name(self.identifier)
+        return name + '_' if name in names_of_generated_class else name
 
     @property
     def template_field_type(self):
-        return self.typereference.replace('-','_') if self.typereference else self.identifier.replace('-','_')
+        return python_name(self.typereference if self.typereference else self.identifier)
diff --git a/asn1PERser/classes/types/builtin/DefinedType.py b/asn1PERser/classes/types/builtin/DefinedType.py
index 278ba40..801d6c5 100644
--- a/asn1PERser/classes/types/builtin/DefinedType.py
+++ b/asn1PERser/classes/types/builtin/DefinedType.py
@@ -1,6 +1,7 @@
 from copy import copy
 from ..type import DefType, SimpleType
 from asn1PERser.classes.module import typereference_to_type, resolve_type
+from asn1PERser.classes.templates import python_name
 from asn1PERser.classes.templates.creator import template_filler
 
 
@@ -14,8 +15,8 @@ class DefinedType(DefType):
 
         if self.identifier and self.typereference and not self.Value:  # Foo ::= Bar
             return template_filler.fill(asn_type='type_type', type_or_value='type',
-                                        identifier=self.identifier.replace('-', '_'),
-                                        typereference=self.typereference.replace('-', '_'))
+                                        identifier=python_name(self.identifier),
+                                        typereference=python_name(self.typereference))
 
         if self.Value and self.valuereference and self.typereference:  # foo SomeType ::= value
             defined_type = copy(resolve_type(self.typereference))
@@ -26,7 +27,7 @@ class DefinedType(DefType):
             defined_type.Value = self.Value
             return template_filler.fill(asn_type='simple_value', type_or_value='value',
                                         valuereference=self.valuereference,
-                                        class_type=self.typereference.replace('-','_'),
+                                        class_type=python_name(self.typereference),
                                         value=defined_type.Value)
         if self.Value:
             defined_type = copy(defined_type)
diff --git a/asn1PERser/classes/types/type.py b/asn1PERser/classes/types/type.py
index 3b08ffc..bd7751e 100644
--- a/asn1PERser/classes/types/type.py
+++ b/asn1PERser/classes/types/type.py
@@ -1,5 +1,5 @@
 from pyasn1.type.namedtype import NamedTypes
-from asn1PERser.classes.templates import Template
+from asn1PERser.classes.templates import Template, python_name
 from asn1PERser.classes.types.constraint import NoConstraint
 
 
@@ -22,7 +22,7 @@ class Type(Template):
     def parse_reference(self, value):
         if not value[0].islower():
             raise ValueError('{} is not a value of {}'.format(value, self.__class__.__name__))
-        return value.replace('-', '_')    # a value reference is a Python name in generated code
+        return python_name(value)    # a value reference is a Python name in generated code
 
     def parse_constraint(self, constraint_class):
         if not self.is_constrained():
@@ -57,7 +57,7 @@ class Type(Template):
 
     @valuereference.setter
     def valuereference(self, valuereference):
-        self._valuereference = valuereference.replace('-', '_')
+        self._valuereference = python_name(valuereference)
 
     @property
     def Value(self):
-- 
2.43.0


From 8f5af807c350c7953c8d1ad93a18445b1b024693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:43 +0000
Subject: [PATCH 50/72] fix: a type named like a class that generated code uses
 does not replace that class

---
 asn1PERser/classes/parse_actions.py      | 2 ++
 asn1PERser/classes/templates/__init__.py | 7 ++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/classes/parse_actions.py b/asn1PERser/classes/parse_actions.py
index 51ccf0a..f8ff421 100644
--- a/asn1PERser/classes/parse_actions.py
+++ b/asn1PERser/classes/parse_actions.py
@@ -35,6 +35,8 @@ def parse_TypeAssignment(toks):
     item_typereference = toks[0]
     item_type = toks[2][0]
 
+    if item_typereference in builtin_types:
+        raise NotImplementedError('{} is a name used by generated code'.format(item_typereference))
     if item_type.typereference in builtin_types:
         item_type.typereference = item_typereference
     else:
diff --git a/asn1PERser/classes/templates/__init__.py b/asn1PERser/classes/templates/__init__.py
index af191a3..17dca10 100644
--- a/asn1PERser/classes/templates/__init__.py
+++ b/asn1PERser/classes/templates/__init__.py
@@ -7,10 +7,15 @@ from .creator import template_filler
 names_of_generated_class = set(dir(SequenceType) + dir(SequenceOfType) + dir(ChoiceType) +
                                ['rootComponent', 'extensionAddition', 'extensionAdditionGroups'])
 
+# names that generated code imports, see header.txt
+imported_names = ['NamedType', 'NamedTypes', 'OptionalNamedType', 'DefaultedNamedType', 'NamedValues',
+                  'AdditiveNamedTypes', 'NoConstraint', 'ExtensionMarker', 'SequenceOfValueSize',
+                  'ValueRange', 'SingleValue', 'ValueSize', 'ConstraintOr', 'ConstraintAnd']
+
 
 def python_name(name):
     name = name.replace('-', '_')
-    return name + '_' if iskeyword(name) else name
+    return name + '_' if iskeyword(name) or name in imported_names else name
 
 
 class Template(object):
-- 
2.43.0


From 9d7646fd1f88ac2e0d4227a8827b39beff58b718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:44 +0000
Subject: [PATCH 51/72] fix: a union of values or sizes does not accept what
 lies between its elements

---
 asn1PERser/classes/parse_actions.py                 | 13 +++++++------
 .../classes/templates/files/BitStringType.txt       |  4 +++-
 asn1PERser/classes/templates/files/IntegerType.txt  |  4 +++-
 .../classes/templates/files/OctetStringType.txt     |  4 +++-
 asn1PERser/classes/types/builtin/BitStringType.py   |  3 ++-
 asn1PERser/classes/types/builtin/IntegerType.py     |  3 ++-
 asn1PERser/classes/types/builtin/OctetStringType.py |  3 ++-
 asn1PERser/classes/types/constraint.py              |  1 +
 asn1PERser/classes/types/type.py                    |  3 +++
 9 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/asn1PERser/classes/parse_actions.py b/asn1PERser/classes/parse_actions.py
index f8ff421..2db0c86 100644
--- a/asn1PERser/classes/parse_actions.py
+++ b/asn1PERser/classes/parse_actions.py
@@ -9,7 +9,7 @@ from asn1PERser.classes.module import ModuleDefinition, typereference_to_type
 from asn1PERser.asn_definitions.constraint_def import Constraint
 
 
-constraint_tuple = namedtuple('constraint', 'lowerEndpoint upperEndpoint extensionMarker')
+constraint_tuple = namedtuple('constraint', 'lowerEndpoint upperEndpoint extensionMarker elements')
 
 
 def parse_ModuleDefinition(toks):
@@ -200,8 +200,9 @@ def parse_Constraint(toks):
     if '...' in parsed:
         parsed = parsed[:parsed.index('...')]    # what follows the marker is not part of the root
         ext_mark = True
-    lower, upper = _parse_endpoints(parsed)
-    return constraint_tuple(lowerEndpoint=lower, upperEndpoint=upper, extensionMarker=ext_mark)
+    lower, upper, elements = _parse_endpoints(parsed)
+    return constraint_tuple(lowerEndpoint=lower, upperEndpoint=upper, extensionMarker=ext_mark,
+                            elements=[] if ext_mark else elements)
 
 
 def _parse_size_extension(size, following):
@@ -209,7 +210,7 @@ def _parse_size_extension(size, following):
     if not following:
         return size
     if ''.join(tok for tok in following if isinstance(tok, str)).startswith(',...'):
-        return size._replace(extensionMarker=True)
+        return size._replace(extensionMarker=True, elements=[])
     raise NotImplementedError('combined size constraints are not supported')
 
 
@@ -222,12 +223,12 @@ def _parse_endpoints(parsed):
             elements[-1].append(tok)
     endpoints = [_parse_element(element) for element in elements]
     if len(endpoints) == 1:
-        return endpoints[0]
+        return endpoints[0] + ([],)
     # the effective constraint of a union is the range from its smallest to its largest value
     lowers, uppers = zip(*endpoints)
     lower = 'MIN' if 'MIN' in lowers else str(min(int(value) for value in lowers))
     upper = 'MAX' if 'MAX' in uppers else str(max(int(value) for value in uppers))
-    return lower, upper
+    return lower, upper, endpoints
 
 
 def _parse_element(element):
diff --git a/asn1PERser/classes/templates/files/BitStringType.txt b/asn1PERser/classes/templates/files/BitStringType.txt
index 84c3e88..0f4b941 100644
--- a/asn1PERser/classes/templates/files/BitStringType.txt
+++ b/asn1PERser/classes/templates/files/BitStringType.txt
@@ -1,5 +1,7 @@
 class {{ class_name }}({{ class_type }}):
-{%- if constraint.lowerEndpoint and constraint.upperEndpoint and constraint.extensionMarker %}
+{%- if constraint.elements %}
+    subtypeSpec = ConstraintOr(False{% for lower, upper in constraint.elements %}, ValueSize({{ lower }}, {{ upper }}){% endfor %})
+{%- elif constraint.lowerEndpoint and constraint.upperEndpoint and constraint.extensionMarker %}
     subtypeSpec = ValueSize({{ constraint.lowerEndpoint }}, {{ constraint.upperEndpoint }}, extensionMarker=True)
 {%- elif constraint.lowerEndpoint and constraint.upperEndpoint %}
     subtypeSpec = ValueSize({{ constraint.lowerEndpoint }}, {{ constraint.upperEndpoint }})
diff --git a/asn1PERser/classes/templates/files/IntegerType.txt b/asn1PERser/classes/templates/files/IntegerType.txt
index 5b01a0b..090aad6 100644
--- a/asn1PERser/classes/templates/files/IntegerType.txt
+++ b/asn1PERser/classes/templates/files/IntegerType.txt
@@ -1,5 +1,7 @@
 class {{ class_name }}({{ class_type }}):
-{%- if constraint.lowerEndpoint and constraint.upperEndpoint and constraint.extensionMarker %}
+{%- if constraint.elements %}
+    subtypeSpec = ConstraintOr(False{% for lower, upper in constraint.elements %}, ValueRange({{ lower }}, {{ upper }}){% endfor %})
+{%- elif constraint.lowerEndpoint and constraint.upperEndpoint and constraint.extensionMarker %}
     subtypeSpec = ValueRange({{ constraint.lowerEndpoint }}, {{ constraint.upperEndpoint }}, extensionMarker=True)
 {%- elif constraint.lowerEndpoint and constraint.upperEndpoint %}
     subtypeSpec = ValueRange({{ constraint.lowerEndpoint }}, {{ constraint.upperEndpoint }})
diff --git a/asn1PERser/classes/templates/files/OctetStringType.txt b/asn1PERser/classes/templates/files/OctetStringType.txt
index 84c3e88..0f4b941 100644
--- a/asn1PERser/classes/templates/files/OctetStringType.txt
+++ b/asn1PERser/classes/templates/files/OctetStringType.txt
@@ -1,5 +1,7 @@
 class {{ class_name }}({{ class_type }}):
-{%- if constraint.lowerEndpoint and constraint.upperEndpoint and constraint.extensionMarker %}
+{%- if constraint.elements %}
+    subtypeSpec = ConstraintOr(False{% for lower, upper in constraint.elements %}, ValueSize({{ lower }}, {{ upper }}){% endfor %})
+{%- elif constraint.lowerEndpoint and constraint.upperEndpoint and constraint.extensionMarker %}
     subtypeSpec = ValueSize({{ constraint.lowerEndpoint }}, {{ constraint.upperEndpoint }}, extensionMarker=True)
 {%- elif constraint.lowerEndpoint and constraint.upperEndpoint %}
     subtypeSpec = ValueSize({{ constraint.lowerEndpoint }}, {{ constraint.upperEndpoint }})
diff --git a/asn1PERser/classes/types/builtin/BitStringType.py b/asn1PERser/classes/types/builtin/BitStringType.py
index 90d3bde..675a2bd 100644
--- a/asn1PERser/classes/types/builtin/BitStringType.py
+++ b/asn1PERser/classes/types/builtin/BitStringType.py
@@ -18,7 +18,8 @@ class BitStringType(SimpleType):
                                                class_name=self.template_class_name, class_type=self.__class__.__name__,
                                                constraint={'extensionMarker': self.constraint.extensionMarker,
                                                            'lowerEndpoint': self.constraint.lowerEndpoint,
-                                                           'upperEndpoint': self.constraint.upperEndpoint})
+                                                           'upperEndpoint': self.constraint.upperEndpoint,
+                                                           'elements': self.constraint.elements})
         if has_parent:
             return (None, filled_template)
         if filled_template not in already_filled_template:
diff --git a/asn1PERser/classes/types/builtin/IntegerType.py b/asn1PERser/classes/types/builtin/IntegerType.py
index 88c6917..14b812e 100644
--- a/asn1PERser/classes/types/builtin/IntegerType.py
+++ b/asn1PERser/classes/types/builtin/IntegerType.py
@@ -18,7 +18,8 @@ class IntegerType(SimpleType):
                                                class_name=self.template_class_name, class_type=self.__class__.__name__,
                                                constraint={'extensionMarker': self.constraint.extensionMarker,
                                                            'lowerEndpoint': self.constraint.lowerEndpoint,
-                                                           'upperEndpoint': self.constraint.upperEndpoint})
+                                                           'upperEndpoint': self.constraint.upperEndpoint,
+                                                           'elements': self.constraint.elements})
         if has_parent:
             return (None, filled_template)
         if filled_template not in already_filled_template:
diff --git a/asn1PERser/classes/types/builtin/OctetStringType.py b/asn1PERser/classes/types/builtin/OctetStringType.py
index cb2fe36..31340f8 100644
--- a/asn1PERser/classes/types/builtin/OctetStringType.py
+++ b/asn1PERser/classes/types/builtin/OctetStringType.py
@@ -18,7 +18,8 @@ class OctetStringType(SimpleType):
                                                class_name=self.template_class_name, class_type=self.__class__.__name__,
                                                constraint={'extensionMarker': self.constraint.extensionMarker,
                                                            'lowerEndpoint': self.constraint.lowerEndpoint,
-                                                           'upperEndpoint': self.constraint.upperEndpoint})
+                                                           'upperEndpoint': self.constraint.upperEndpoint,
+                                                           'elements': self.constraint.elements})
         if has_parent:
             return (None, filled_template)
         if filled_template not in already_filled_template:
diff --git a/asn1PERser/classes/types/constraint.py b/asn1PERser/classes/types/constraint.py
index f62de22..eaf1706 100644
--- a/asn1PERser/classes/types/constraint.py
+++ b/asn1PERser/classes/types/constraint.py
@@ -16,6 +16,7 @@ class NoConstraint(ConstraintsIntersection):
         self.extensionMarker = False
         self.lowerEndpoint = None
         self.upperEndpoint = None
+        self.elements = []
         super(NoConstraint, self).__init__()
 
     def __repr__(self):
diff --git a/asn1PERser/classes/types/type.py b/asn1PERser/classes/types/type.py
index bd7751e..b36170f 100644
--- a/asn1PERser/classes/types/type.py
+++ b/asn1PERser/classes/types/type.py
@@ -27,6 +27,9 @@ class Type(Template):
     def parse_constraint(self, constraint_class):
         if not self.is_constrained():
             return ''
+        if self.constraint.elements:
+            elements = ['{}({}, {})'.format(constraint_class, *element) for element in self.constraint.elements]
+            return 'ConstraintOr(False, {})'.format(', '.join(elements))
         return '{}({}, {}, extensionMarker={})'.format(constraint_class, self.constraint.lowerEndpoint,
                                                        self.constraint.upperEndpoint, self.constraint.extensionMarker)
 
-- 
2.43.0


From 3abb4844c45fb12af60d96414e41bfed30f35fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:18 +0000
Subject: [PATCH 52/72] fix: extension additions after a [[ ]] group are not
 moved in front of it

---
 asn1PERser/classes/types/builtin/ChoiceType.py   | 2 ++
 asn1PERser/classes/types/builtin/SequenceType.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/asn1PERser/classes/types/builtin/ChoiceType.py b/asn1PERser/classes/types/builtin/ChoiceType.py
index 658a2f5..c2a2f95 100644
--- a/asn1PERser/classes/types/builtin/ChoiceType.py
+++ b/asn1PERser/classes/types/builtin/ChoiceType.py
@@ -35,6 +35,8 @@ class ChoiceType(ComponentType):
             if not in_extension_addition_group:
                 if not extension_marker_present:
                     root_alternatives_types.append(self._fill_named_types(AlternativeType))
+                elif extension_addition_groups:    # keep the order, brackets do not matter for a CHOICE
+                    extension_addition_groups.append([self._fill_named_types(AlternativeType)])
                 else:
                     addition_alternatives_types.append(self._fill_named_types(AlternativeType))
             if AlternativeType.typereference in ['IntegerType', 'BooleanType', 'OctetStringType', 'BitStringType']:
diff --git a/asn1PERser/classes/types/builtin/SequenceType.py b/asn1PERser/classes/types/builtin/SequenceType.py
index e0ecf8d..bfa42c6 100644
--- a/asn1PERser/classes/types/builtin/SequenceType.py
+++ b/asn1PERser/classes/types/builtin/SequenceType.py
@@ -37,6 +37,9 @@ class SequenceType(ComponentType):
             if not in_extension_addition_group:
                 if not in_extension:
                     root_named_types.append(self._fill_named_types(ComponentType))
+                elif extension_addition_groups:
+                    raise NotImplementedError('extension addition {} after a [[ ]] group is not supported'.format(
+                        ComponentType.identifier))
                 else:
                     addition_named_types.append(self._fill_named_types(ComponentType))
             if ComponentType.typereference in ['IntegerType', 'BooleanType', 'OctetStringType', 'BitStringType']:
-- 
2.43.0


From ee70079e23b54881d724432c64eb71ed5d001e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:58 +0000
Subject: [PATCH 53/72] fix: refuse constraint elements without a union mark
 between them, and real numbers as endpoints

---
 asn1PERser/asn_definitions/constraint_def.py | 6 +++---
 asn1PERser/classes/parse_actions.py          | 6 ++++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/asn1PERser/asn_definitions/constraint_def.py b/asn1PERser/asn_definitions/constraint_def.py
index 7f9b411..870e101 100644
--- a/asn1PERser/asn_definitions/constraint_def.py
+++ b/asn1PERser/asn_definitions/constraint_def.py
@@ -1,4 +1,4 @@
-from pyparsing import Or, Literal, nestedExpr, Optional, OneOrMore, Forward
+from pyparsing import Or, Literal, nestedExpr, Optional, ZeroOrMore, Forward
 from .value_def import Value
 # from .type_def import Type
 from .common_def import SignedNumber, NamedNumber, NamedNumberList, DefinedValue, NULL
@@ -131,7 +131,7 @@ IntersectionElements = Or([
 
 # 50.1
 Intersections = Or([
-    OneOrMore(IntersectionElements + Optional(IntersectionMark + IntersectionElements)),
+    IntersectionElements + ZeroOrMore(IntersectionMark + IntersectionElements),
     # IntersectionElements,    # ORIGINAL
     # IElems + IntersectionMark + IntersectionElements    # ORIGINAL
 ])
@@ -142,7 +142,7 @@ Intersections = Or([
 
 # 50.1
 Unions = Or([
-    OneOrMore(Intersections + Optional(UnionMark)),
+    Intersections + ZeroOrMore(UnionMark + Intersections),
     # Intersections,    # ORIGINAL
     # UElems + UnionMark + Intersections    # ORIGINAL
 ])
diff --git a/asn1PERser/classes/parse_actions.py b/asn1PERser/classes/parse_actions.py
index 2db0c86..9038b84 100644
--- a/asn1PERser/classes/parse_actions.py
+++ b/asn1PERser/classes/parse_actions.py
@@ -244,5 +244,7 @@ def _parse_element(element):
 
 
 def _endpoint_name(endpoint):
-    # a value reference is a Python name in generated code
-    return python_name(endpoint) if endpoint[0].isalpha() else endpoint
+    if endpoint[0].isalpha():
+        return python_name(endpoint)    # a value reference is a Python name in generated code
+    int(endpoint)    # raises ValueError for a real number or a string
+    return endpoint
-- 
2.43.0


From 02ab130d6b3e06ff581675f7bf064b2536360b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:13 +0000
Subject: [PATCH 54/72] fix: refuse a constraint that does not apply to its
 type, an empty range and a negative size

---
 asn1PERser/classes/parse_actions.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/asn1PERser/classes/parse_actions.py b/asn1PERser/classes/parse_actions.py
index 9038b84..20f7515 100644
--- a/asn1PERser/classes/parse_actions.py
+++ b/asn1PERser/classes/parse_actions.py
@@ -9,7 +9,7 @@ from asn1PERser.classes.module import ModuleDefinition, typereference_to_type
 from asn1PERser.asn_definitions.constraint_def import Constraint
 
 
-constraint_tuple = namedtuple('constraint', 'lowerEndpoint upperEndpoint extensionMarker elements')
+constraint_tuple = namedtuple('constraint', 'lowerEndpoint upperEndpoint extensionMarker elements size')
 
 
 def parse_ModuleDefinition(toks):
@@ -138,6 +138,8 @@ def parse_NamedType(toks):
 def parse_ConstrainedType(toks):
     Type = toks[0]
     constraint = toks[1]
+    if not isinstance(Type, (BitStringType, OctetStringType, SequenceOfType) if constraint.size else IntegerType):
+        raise NotImplementedError('a constraint of this kind is not supported for {}'.format(Type.__class__.__name__))
     Type.constraint = constraint
     return Type
 
@@ -202,10 +204,15 @@ def parse_Constraint(toks):
         ext_mark = True
     lower, upper, elements = _parse_endpoints(parsed)
     return constraint_tuple(lowerEndpoint=lower, upperEndpoint=upper, extensionMarker=ext_mark,
-                            elements=[] if ext_mark else elements)
+                            elements=[] if ext_mark else elements, size=False)
 
 
 def _parse_size_extension(size, following):
+    if not isinstance(size, constraint_tuple):
+        raise ValueError('SIZE must be followed by a constraint')
+    if any(endpoint.startswith('-') for endpoint in size[:2]):
+        raise ValueError('a size cannot be negative')
+    size = size._replace(size=True)
     # (SIZE(1..4), ...) is extensible just like (SIZE(1..4, ...))
     if not following:
         return size
@@ -240,6 +247,8 @@ def _parse_element(element):
         raise NotImplementedError('constraint {} is not supported'.format(' '.join(element)))
     lower = str(int(lower[0]) + 1) if '<' in lower else lower[0]
     upper = str(int(upper[-1]) - 1) if '<' in upper else upper[-1]
+    if not lower[0].isalpha() and not upper[0].isalpha() and int(lower) > int(upper):
+        raise ValueError('range {} is empty'.format(' '.join(element)))
     return _endpoint_name(lower), _endpoint_name(upper)
 
 
-- 
2.43.0


From d19d9ddad7809666cfe4c573cad53d462b1ff516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:58 +0000
Subject: [PATCH 55/72] fix: SEQUENCE OF T (SIZE(..)) is a constraint of T, not
 of the SEQUENCE OF

---
 asn1PERser/classes/parse_actions.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/asn1PERser/classes/parse_actions.py b/asn1PERser/classes/parse_actions.py
index 20f7515..f3ae46b 100644
--- a/asn1PERser/classes/parse_actions.py
+++ b/asn1PERser/classes/parse_actions.py
@@ -137,8 +137,10 @@ def parse_NamedType(toks):
 
 def parse_ConstrainedType(toks):
     Type = toks[0]
+    if len(toks) == 1:
+        return Type    # SEQUENCE (SIZE(..)) OF, the constraint is already in place
     constraint = toks[1]
-    if not isinstance(Type, (BitStringType, OctetStringType, SequenceOfType) if constraint.size else IntegerType):
+    if not isinstance(Type, (BitStringType, OctetStringType) if constraint.size else IntegerType):
         raise NotImplementedError('a constraint of this kind is not supported for {}'.format(Type.__class__.__name__))
     Type.constraint = constraint
     return Type
@@ -151,7 +153,10 @@ def parse_TypeWithConstraint(toks):
         Type = parse_SequenceOfType(["SEQUENCE OF", componentType])
     if toks[0] == "SET":
         raise NotImplemented
-    return [Type, constrain]
+    if not constrain.size:
+        raise NotImplementedError('SEQUENCE OF can only have a size constraint')
+    Type.constraint = constrain
+    return Type
 
 
 def parse_DateType(toks):
-- 
2.43.0


From dcd7650607172aba86973057cfbb47ef071aff57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:47 +0000
Subject: [PATCH 56/72] fix: refuse a SEQUENCE or CHOICE that is assigned twice
 even when both are alike

---
 asn1PERser/classes/module.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/asn1PERser/classes/module.py b/asn1PERser/classes/module.py
index 030c505..7ac6cda 100644
--- a/asn1PERser/classes/module.py
+++ b/asn1PERser/classes/module.py
@@ -42,6 +42,10 @@ class ModuleDefinition(Template):
         simple_type_assignments = []
         component_type_assignments = []
         type_type_assignments = []
+        assigned_names = [self._get_assigned_name(assignment) for assignment in AssignmentList]
+        for name in assigned_names:
+            if assigned_names.count(name) > 1:
+                raise ValueError('{} is assigned more than once'.format(name))
         for assignment in AssignmentList:
             if isinstance(assignment, SimpleType):
                 if assignment.valuereference:
@@ -64,10 +68,7 @@ class ModuleDefinition(Template):
     def sort_by_dependency(self, assignments):
         name_to_assignment = {}
         for assignment in assignments:
-            name = self._get_assigned_name(assignment)
-            if name in name_to_assignment:
-                raise ValueError('{} is assigned more than once'.format(name))
-            name_to_assignment[name] = assignment
+            name_to_assignment[self._get_assigned_name(assignment)] = assignment
         sorted_assignments = []
         visited_names = set()
 
-- 
2.43.0


From e30c233c758d4fb4116e7b826ebefc12de750e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:15 +0000
Subject: [PATCH 57/72] fix: refuse a constant of another type as DEFAULT or
 value

---
 asn1PERser/classes/module.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/asn1PERser/classes/module.py b/asn1PERser/classes/module.py
index 7ac6cda..0bf04a9 100644
--- a/asn1PERser/classes/module.py
+++ b/asn1PERser/classes/module.py
@@ -69,6 +69,7 @@ class ModuleDefinition(Template):
         name_to_assignment = {}
         for assignment in assignments:
             name_to_assignment[self._get_assigned_name(assignment)] = assignment
+        self.check_value_references(assignments, name_to_assignment)
         sorted_assignments = []
         visited_names = set()
 
@@ -86,6 +87,23 @@ class ModuleDefinition(Template):
             visit(assignment)
         return sorted_assignments
 
+    def check_value_references(self, used_types, name_to_assignment):
+        for used_type in used_types:
+            if isinstance(used_type, str):  # elipsis: ...
+                continue
+            resolved_type = self._resolve(used_type)
+            for name in (used_type.Value, used_type.default_reference):
+                constant = name_to_assignment.get(python_name(name)) if isinstance(name, str) else None
+                if constant is None or not constant.valuereference or type(self._resolve(constant)) is type(resolved_type):
+                    continue
+                if resolved_type.parse_value(name) != "'" + name + "'":    # not an item of an ENUMERATED
+                    raise ValueError('{} is not a value of {}'.format(name, resolved_type.__class__.__name__))
+            if isinstance(used_type, ComponentType):
+                self.check_value_references(used_type, name_to_assignment)
+
+    def _resolve(self, used_type):
+        return resolve_type(used_type.typereference) if isinstance(used_type, DefType) else used_type
+
     def _get_assigned_name(self, assignment):
         return python_name(assignment.valuereference or assignment.identifier or assignment.typereference)
 
-- 
2.43.0


From 4efe14787594d4d1b2e58cff3c4d4c044ffbd853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:06 +0000
Subject: [PATCH 58/72] fix: refuse Module.Type, Module.value and structured
 values instead of taking one part of them

---
 asn1PERser/classes/parse_actions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asn1PERser/classes/parse_actions.py b/asn1PERser/classes/parse_actions.py
index f3ae46b..bbfb456 100644
--- a/asn1PERser/classes/parse_actions.py
+++ b/asn1PERser/classes/parse_actions.py
@@ -23,6 +23,8 @@ def parse_ModuleDefinition(toks):
 
 
 def parse_ValueAssignment(toks):
+    if len(toks) != 4:
+        raise NotImplementedError('value of {} is not supported'.format(toks[0]))    # Module.value, { .. }
     item_valuereference = toks[0]
     item_type = toks[1][0]
     item_value = toks[-1]
@@ -84,6 +86,8 @@ def _check_unique_identifiers(types):
 
 
 def parse_DefinedType(toks):
+    if len(toks) != 1:
+        raise NotImplementedError('reference {} is not supported'.format(''.join(toks)))    # Module.Type
     return DefinedType(toks[0])
 
 
-- 
2.43.0


From 4485566ecf15008e4cde0a01e106bf8a74f9708f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:56 +0000
Subject: [PATCH 59/72] fix: a comment ends only at an ASN.1 line end, not at
 every line end Python knows

---
 asn1PERser/classes/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/classes/module.py b/asn1PERser/classes/module.py
index 0bf04a9..8cb587a 100644
--- a/asn1PERser/classes/module.py
+++ b/asn1PERser/classes/module.py
@@ -280,7 +280,7 @@ def remove_comments(asn1_schema):
 
 def _remove_line_comments(asn1_schema):
     no_comments = ''
-    for line in asn1_schema.splitlines():
+    for line in re.split(r'\r\n|[\n\v\f\r]', asn1_schema):    # splitlines() knows line ends which ASN.1 does not
         line = re.sub(r'--.*?(---*\s*$|--|$)', ' ', line)
         line += '\n'
         no_comments += line
-- 
2.43.0


From d6de5e1fc81a00c962967f8003d1afa92be72298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:24 +0000
Subject: [PATCH 60/72] fix: a semi-constrained number without octets is not
 the lower bound

---
 asn1PERser/codec/per/decoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 97a51e3..b93eaa7 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -661,6 +661,8 @@ def decode_semi_constrained_whole_number_from_field_list(per_bytes, lowerBound):
                                                                  lowerBound=1,
                                                                  upperBound=None)
     logger.debug("semi constranied length determinant: %s", unconstrained_length_determinant)
+    if unconstrained_length_determinant == 0:    # 11.7.4
+        raise NotEnoughDataToDecode("number must have at least one octet")
     val = per_bytes.next(bit_field_size(octets=unconstrained_length_determinant, bits=0))
     logger.debug("semi constrained whole number value: %s", val)
     return lowerBound + val
-- 
2.43.0


From c6dd05b4f4b481e99d49dd2a742d7ea5907bb107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:02 +0000
Subject: [PATCH 61/72] fix: schemas can be compiled in several threads at once

---
 asn1PERser/__init__.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/asn1PERser/__init__.py b/asn1PERser/__init__.py
index 631c63b..3d82581 100644
--- a/asn1PERser/__init__.py
+++ b/asn1PERser/__init__.py
@@ -1,3 +1,4 @@
+from threading import RLock
 from pyparsing import ParserElement
 from asn1PERser.codec.per.decoder import decode
 from asn1PERser.codec.per.encoder import encode
@@ -13,8 +14,12 @@ asn1perser_logging_setup()
 ParserElement.enablePackrat()    # without memoization parsing time is exponential in the nesting depth
 
 
+parse_lock = RLock()    # what was parsed so far is kept in module level dictionaries
+
+
 def parse_asn1_schema(asn1_schema, output_folder=None):
-    forget_parsed_types()
-    no_comment_schema = remove_comments(asn1_schema)
-    parsed_asn = ModuleDefinition.parseString(no_comment_schema, parseAll=True)[0]
-    return parsed_asn.create_python_template(path=output_folder)
+    with parse_lock:
+        forget_parsed_types()
+        no_comment_schema = remove_comments(asn1_schema)
+        parsed_asn = ModuleDefinition.parseString(no_comment_schema, parseAll=True)[0]
+        return parsed_asn.create_python_template(path=output_folder)
-- 
2.43.0


From 493320445b00034b04b2317736c3013bd5971bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:37 +0000
Subject: [PATCH 62/72] fix: nested extension alternatives of a CHOICE are
 encoded once, not twice per level

---
 asn1PERser/codec/per/encoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 32c4037..9ec6773 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -416,7 +416,8 @@ def encode_choice(choice):    # 23
     n = len(choice.rootComponent.namedTypes) - 1
     selected_component = choice.getComponent()
     selected_name = choice.getName()
-    selected_component.fill_field_list(choice_field_list)
+    if selected_name in choice.rootComponent:    # extension alternative is encoded as open type field, once
+        selected_component.fill_field_list(choice_field_list)
     if not choice.subtypeSpec.extensionMarker:    # 23.6
         if len(choice.rootComponent.namedTypes) == 1:    # 23.4
             return choice_field_list
-- 
2.43.0


From 231f7db9b60c6b19cd5c0175210b7ef0748e6780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:11 +0000
Subject: [PATCH 63/72] fix: isValue of nested SEQUENCEs takes linear, not
 exponential time

---
 asn1PERser/classes/data/builtin/SequenceType.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/asn1PERser/classes/data/builtin/SequenceType.py b/asn1PERser/classes/data/builtin/SequenceType.py
index e8e55ac..7c9f893 100644
--- a/asn1PERser/classes/data/builtin/SequenceType.py
+++ b/asn1PERser/classes/data/builtin/SequenceType.py
@@ -13,9 +13,6 @@ class SequenceType(Sequence):
 
     @property
     def isValue(self):
-        base_isValue = super(SequenceType, self).isValue
-        if base_isValue:
-            return base_isValue
         if self.components is noValue:
             return False
         if self.rootComponent is not None and all(namedType.isOptional or namedType.isDefaulted for namedType in self.rootComponent.namedTypes):
@@ -23,7 +20,8 @@ class SequenceType(Sequence):
         for component in self.components:
             if component is not noValue and component.isValue:
                 return True
-        return False
+        # asking the base class, too, would ask every component once more, at each level of nesting
+        return self.rootComponent is None and super(SequenceType, self).isValue
 
     def fill_field_list(self, field_list):
         sequence_field_list = encode_sequence(self)
-- 
2.43.0


From 57e5c96f580bad3835726010631c1d56031d65c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:45 +0000
Subject: [PATCH 64/72] fix: to_dict() shows an empty SEQUENCE OF that is
 encoded as one

---
 asn1PERser/classes/data/builtin/ChoiceType.py   | 3 ++-
 asn1PERser/classes/data/builtin/SequenceType.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/asn1PERser/classes/data/builtin/ChoiceType.py b/asn1PERser/classes/data/builtin/ChoiceType.py
index 5597e60..6350202 100644
--- a/asn1PERser/classes/data/builtin/ChoiceType.py
+++ b/asn1PERser/classes/data/builtin/ChoiceType.py
@@ -21,5 +21,6 @@ class ChoiceType(Choice):
 
     def to_dict(self, is_root=True):
         for componentType, componentValue in self.items():
-            if componentValue is not noValue and componentValue.isValue:
+            # chosen SEQUENCE OF that was never filled is encoded as an empty one
+            if componentValue is not noValue and (componentValue.isValue or hasattr(componentValue, 'componentType')):
                 return {componentType: componentValue.to_dict(is_root=False)}
diff --git a/asn1PERser/classes/data/builtin/SequenceType.py b/asn1PERser/classes/data/builtin/SequenceType.py
index 7c9f893..e3ae209 100644
--- a/asn1PERser/classes/data/builtin/SequenceType.py
+++ b/asn1PERser/classes/data/builtin/SequenceType.py
@@ -1,5 +1,5 @@
 from collections import OrderedDict
-from pyasn1.type.univ import Sequence, noValue
+from pyasn1.type.univ import Sequence, SequenceOf, noValue
 from asn1PERser.codec.per.encoder import encode_sequence
 from asn1PERser.codec.per.decoder import decode_sequence
 from asn1PERser.classes.types.constraint import NoConstraint
@@ -47,6 +47,6 @@ class SequenceType(Sequence):
                     value_dict = componentValue.to_dict(is_root=False)
                     if value_dict or componentValue.isValue:
                         component_dict[namedType.name] = value_dict
-            elif componentValue.isValue:
+            elif componentValue.isValue or (is_required and isinstance(componentValue, SequenceOf)):    # encoded as an empty one
                 component_dict[namedType.name] = componentValue.to_dict(is_root=False)
         return component_dict
-- 
2.43.0


From c6ca96f92451cf2ce5950c24e327bdd71c078cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:23 +0000
Subject: [PATCH 65/72] fix: refuse a size constraint that is negative or empty
 once its constants are known

---
 asn1PERser/classes/types/constraint.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/asn1PERser/classes/types/constraint.py b/asn1PERser/classes/types/constraint.py
index eaf1706..a35ffcf 100644
--- a/asn1PERser/classes/types/constraint.py
+++ b/asn1PERser/classes/types/constraint.py
@@ -11,6 +11,14 @@ def _endpoint(value):
     return value if value in (None, MIN, MAX) else int(value)
 
 
+def _size_endpoints(lower_endpoint, upper_endpoint):
+    lower_endpoint, upper_endpoint = _endpoint(lower_endpoint), _endpoint(upper_endpoint)
+    lower_endpoint = 0 if lower_endpoint == MIN else lower_endpoint    # size is never negative
+    if None not in (lower_endpoint, upper_endpoint) and not 0 <= lower_endpoint <= upper_endpoint:
+        raise ValueError('no size from {} to {}'.format(lower_endpoint, upper_endpoint))
+    return lower_endpoint, upper_endpoint
+
+
 class NoConstraint(ConstraintsIntersection):
     def __init__(self):
         self.extensionMarker = False
@@ -50,9 +58,9 @@ class SequenceOfValueSize(ConstraintsIntersection):
     OCTET STRING.
     '''
     def __init__(self, lower_endpoint, upper_endpoint, extensionMarker=False):
-        lower_endpoint, upper_endpoint = _endpoint(lower_endpoint), _endpoint(upper_endpoint)
+        lower_endpoint, upper_endpoint = _size_endpoints(lower_endpoint, upper_endpoint)
         self.extensionMarker = extensionMarker
-        self.lowerEndpoint = 0 if lower_endpoint == MIN else lower_endpoint    # size is never negative
+        self.lowerEndpoint = lower_endpoint
         self.upperEndpoint = None if upper_endpoint == MAX else upper_endpoint
         super(SequenceOfValueSize, self).__init__()
 
@@ -84,9 +92,9 @@ class SingleValue(SingleValueConstraint):
 
 class ValueSize(ValueSizeConstraint):
     def __init__(self, lower_endpoint, upper_endpoint, extensionMarker=False):
-        lower_endpoint, upper_endpoint = _endpoint(lower_endpoint), _endpoint(upper_endpoint)
+        lower_endpoint, upper_endpoint = _size_endpoints(lower_endpoint, upper_endpoint)
         self.extensionMarker = extensionMarker
-        self.lowerEndpoint = 0 if lower_endpoint == MIN else lower_endpoint    # size is never negative
+        self.lowerEndpoint = lower_endpoint
         self.upperEndpoint = None if upper_endpoint == MAX else upper_endpoint
         super(ValueSize, self).__init__(lower_endpoint, upper_endpoint)
 
-- 
2.43.0


From f9fddc09c3f0718307707e6a40de89aea8b16fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:23 +0000
Subject: [PATCH 66/72] fix: refuse a constant that is no number as the
 endpoint of a constraint

---
 asn1PERser/classes/module.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asn1PERser/classes/module.py b/asn1PERser/classes/module.py
index 8cb587a..a85682f 100644
--- a/asn1PERser/classes/module.py
+++ b/asn1PERser/classes/module.py
@@ -98,6 +98,11 @@ class ModuleDefinition(Template):
                     continue
                 if resolved_type.parse_value(name) != "'" + name + "'":    # not an item of an ENUMERATED
                     raise ValueError('{} is not a value of {}'.format(name, resolved_type.__class__.__name__))
+            if used_type.is_constrained():
+                for name in (used_type.constraint.lowerEndpoint, used_type.constraint.upperEndpoint):
+                    constant = name_to_assignment.get(python_name(str(name)))
+                    if constant is not None and self._resolve(constant).__class__.__name__ != 'IntegerType':
+                        raise ValueError('{} is not a number'.format(name))
             if isinstance(used_type, ComponentType):
                 self.check_value_references(used_type, name_to_assignment)
 
-- 
2.43.0


From de0c9b6d97e2ead11789c200ac811293c6cee5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:40 +0000
Subject: [PATCH 67/72] fix: only the digits 0 to 9 make a number in a schema

---
 asn1PERser/asn_definitions/lexical_items.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1PERser/asn_definitions/lexical_items.py b/asn1PERser/asn_definitions/lexical_items.py
index 63a7efa..c452f72 100644
--- a/asn1PERser/asn_definitions/lexical_items.py
+++ b/asn1PERser/asn_definitions/lexical_items.py
@@ -64,7 +64,7 @@ Page 18
 '''
 # number = Word(digits.replace('0', ''), digits, min=2) | \
 #          Word(digits, max=1)
-number = Regex(r'\d+')
+number = Regex(r'[0-9]+')
 
 '''
 Rec. ITU-T X.680 (08/2015)
@@ -73,7 +73,7 @@ Page 18
 '''
 # This is a poor reflection of its definition but for time being will be enough
 # realnumber = Word(digits, '.' + digits+ 'eE-')
-realnumber = Regex(r'\d+\.\d+')
+realnumber = Regex(r'[0-9]+\.[0-9]+')
 
 '''
 Rec. ITU-T X.680 (08/2015)
-- 
2.43.0


From 6f71eafafb1db2a102d40f8836edee31228b93ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:15 +0000
Subject: [PATCH 68/72] fix: refuse an addition group that lacks a mandatory
 member, also when it is a SEQUENCE or SEQUENCE OF after the present ones

---
 asn1PERser/codec/per/encoder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 9ec6773..4a59a2d 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -326,6 +326,9 @@ def encode_sequence(sequence):    # 19
                                     break
                             else:
                                 raise MandatoryExtensionFieldNotPresent(extension_group_components[previous_index_group][0]['name'])
+                        for extension_group_component in extension_group_components[index_group]:
+                            if (not extension_group_component['present']) and (not extension_group_component['optional']):
+                                raise MandatoryFieldNotPresentInExtensionGroup(extension_group_component['name'])
                         extension_addition_bit_field_value += '1'
                         group_sequence = create_new_fake_empty_sequence(rootComponent=extensionAdditionGroup)
                         for namedType in extensionAdditionGroup.namedTypes:
-- 
2.43.0


From 12b3584f1ec6bf4ffe08d07f369f6820be0292b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:24 +0000
Subject: [PATCH 69/72] fix: a union of sizes of a SEQUENCE OF does not accept
 what lies between its elements

---
 asn1PERser/classes/templates/files/SequenceOfType.txt | 3 ++-
 asn1PERser/classes/types/builtin/SequenceOfType.py    | 3 ++-
 asn1PERser/classes/types/constraint.py                | 3 ++-
 asn1PERser/codec/per/encoder.py                       | 5 ++++-
 4 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/asn1PERser/classes/templates/files/SequenceOfType.txt b/asn1PERser/classes/templates/files/SequenceOfType.txt
index afd9b8d..61b88e0 100644
--- a/asn1PERser/classes/templates/files/SequenceOfType.txt
+++ b/asn1PERser/classes/templates/files/SequenceOfType.txt
@@ -7,7 +7,8 @@ class {{ class_name }}({{ class_type }}):
 {%- if constraint.lowerEndpoint and constraint.upperEndpoint and constraint.extensionMarker %}
     subtypeSpec = SequenceOfValueSize({{ constraint.lowerEndpoint }}, {{ constraint.upperEndpoint }}, extensionMarker=True)
 {%- elif constraint.lowerEndpoint and constraint.upperEndpoint %}
-    subtypeSpec = SequenceOfValueSize({{ constraint.lowerEndpoint }}, {{ constraint.upperEndpoint }})
+    subtypeSpec = SequenceOfValueSize({{ constraint.lowerEndpoint }}, {{ constraint.upperEndpoint }}
+{%- if constraint.elements %}, sizes=[{% for lower, upper in constraint.elements %}({{ lower }}, {{ upper }}), {% endfor %}]{% endif %})
 {%- else %}
 {%- endif %}
     componentType = {{ field_type }}()
diff --git a/asn1PERser/classes/types/builtin/SequenceOfType.py b/asn1PERser/classes/types/builtin/SequenceOfType.py
index 0f533cb..191493e 100644
--- a/asn1PERser/classes/types/builtin/SequenceOfType.py
+++ b/asn1PERser/classes/types/builtin/SequenceOfType.py
@@ -24,7 +24,8 @@ class SequenceOfType(ComponentType):
                                                field_type=field_type,
                                                constraint={'extensionMarker': self.constraint.extensionMarker,
                                                            'lowerEndpoint': self.constraint.lowerEndpoint,
-                                                           'upperEndpoint': self.constraint.upperEndpoint})
+                                                           'upperEndpoint': self.constraint.upperEndpoint,
+                                                           'elements': self.constraint.elements})
         if has_parent:
             return (inner_defined_templates, filled_template)
         if filled_template in already_filled_template:
diff --git a/asn1PERser/classes/types/constraint.py b/asn1PERser/classes/types/constraint.py
index a35ffcf..72b12b4 100644
--- a/asn1PERser/classes/types/constraint.py
+++ b/asn1PERser/classes/types/constraint.py
@@ -57,11 +57,12 @@ class SequenceOfValueSize(ConstraintsIntersection):
     The consequence of this is there will be no exception raised when MySeqOf is added 3rd (4th, 5th etc.)
     OCTET STRING.
     '''
-    def __init__(self, lower_endpoint, upper_endpoint, extensionMarker=False):
+    def __init__(self, lower_endpoint, upper_endpoint, extensionMarker=False, sizes=()):
         lower_endpoint, upper_endpoint = _size_endpoints(lower_endpoint, upper_endpoint)
         self.extensionMarker = extensionMarker
         self.lowerEndpoint = lower_endpoint
         self.upperEndpoint = None if upper_endpoint == MAX else upper_endpoint
+        self.sizes = sizes    # (lower, upper) of each element when this is a union
         super(SequenceOfValueSize, self).__init__()
 
 
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 4a59a2d..9da1e81 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -400,6 +400,8 @@ def encode_sequence_of(sequence_of):    # 20
         raise SizeConstrainViolated("Number of SET OF/SEQUENCE OF {} components = {}".format(sequence_of.__class__, n))
     elif (sequence_of.subtypeSpec.upperEndpoint is not None) and (n > sequence_of.subtypeSpec.upperEndpoint):
         raise InvalidComponentIndexIntoStructuredType('invalid index: {}'.format(sequence_of.subtypeSpec.upperEndpoint + 1))
+    elif not is_within_extension_root(n, sequence_of.subtypeSpec):
+        raise SizeConstrainViolated("Number of SET OF/SEQUENCE OF {} components = {}".format(sequence_of.__class__, n))
     elif (sequence_of.subtypeSpec.lowerEndpoint == sequence_of.subtypeSpec.upperEndpoint) and (sequence_of.subtypeSpec.upperEndpoint < 65536):    # 20.5
         return sequence_of_field_list
     else:    # 20.6
@@ -684,7 +686,8 @@ def is_within_extension_root(n, constraint):
         return False
     if (constraint.upperEndpoint is not None) and (n > constraint.upperEndpoint):
         return False
-    return True
+    sizes = getattr(constraint, 'sizes', ())
+    return (not sizes) or any(lower <= n <= upper for lower, upper in sizes)
 
 
 def is_length_constrained(constraint):    # 11.9.4.1
-- 
2.43.0


From e8c1798e7f7c11cae3bec302498c8049b7932042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:25 +0000
Subject: [PATCH 70/72] fix: refuse a name or number given twice to the bits of
 a BIT STRING or the numbers of an INTEGER

---
 asn1PERser/classes/parse_actions.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/asn1PERser/classes/parse_actions.py b/asn1PERser/classes/parse_actions.py
index bbfb456..6645d67 100644
--- a/asn1PERser/classes/parse_actions.py
+++ b/asn1PERser/classes/parse_actions.py
@@ -48,6 +48,7 @@ def parse_TypeAssignment(toks):
 
 
 def parse_BitStringType(toks):
+    _check_unique_names(zip(toks[1::2], toks[2::2]))
     return BitStringType()
 
 
@@ -85,6 +86,13 @@ def _check_unique_identifiers(types):
             raise ValueError('{} is defined more than once'.format(identifier))
 
 
+def _check_unique_names(named_numbers):
+    for names_or_numbers in zip(*named_numbers):
+        for item in names_or_numbers:
+            if names_or_numbers.count(item) > 1:
+                raise ValueError('{} is defined more than once'.format(item))
+
+
 def parse_DefinedType(toks):
     if len(toks) != 1:
         raise NotImplementedError('reference {} is not supported'.format(''.join(toks)))    # Module.Type
@@ -108,6 +116,7 @@ def parse_NumericString(toks):
 
 
 def parse_IntegerType(toks):
+    _check_unique_names(toks[1:])
     return IntegerType()
 
 
-- 
2.43.0


From a9ecd7ffb6025c9a8943f7b17f7ef483cb4de931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:59 +0000
Subject: [PATCH 71/72] fix: decode an ENUMERATED with more than 65536 items,
 which is encoded with a length

---
 asn1PERser/codec/per/decoder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index b93eaa7..5f90524 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -155,7 +155,7 @@ def decode_integer(integer, per_bytes):
 def decode_enumerated(enumerated, per_bytes):
     logger.info("Decoding enumerated: %s", enumerated.__class__.__name__)
     if not enumerated.subtypeSpec.extensionMarker:    # 14.2
-        enumeration_index = decode_constrained_whole_number(per_bytes, lowerBound=0, upperBound=len(list(enumerated.namedValues)) - 1)
+        enumeration_index = decode_constrained_whole_number_from_field_list(per_bytes, lowerEndpoint=0, upperEndpoint=len(list(enumerated.namedValues)) - 1)
         logger.info("%s: index: %s", enumerated.__class__.__name__, enumeration_index)
         logger.info("%s: decoding finished.", enumerated.__class__.__name__)
         return enumerated.__class__(sorted(enumerated.namedValues.values())[enumeration_index])
@@ -164,8 +164,8 @@ def decode_enumerated(enumerated, per_bytes):
         value_is_extension_addition = per_bytes.next(size=bit_field_size(octets=0, bits=1))
         logger.info("%s: is index within extension range: %s", enumerated.__class__.__name__, value_is_extension_addition)
         if not value_is_extension_addition:
-            enumeration_index = decode_constrained_whole_number(per_bytes, lowerBound=0,
-                                                                upperBound=len(list(enumerated.enumerationRoot)) - 1)
+            enumeration_index = decode_constrained_whole_number_from_field_list(per_bytes, lowerEndpoint=0,
+                                                                                upperEndpoint=len(list(enumerated.enumerationRoot)) - 1)
             logger.info("%s: index: %s", enumerated.__class__.__name__, enumeration_index)
             logger.info("%s: decoding finished.", enumerated.__class__.__name__)
             return enumerated.__class__(sorted(enumerated.enumerationRoot.values())[enumeration_index])
-- 
2.43.0


From eff7ea64439b3e4751b519ed4910f66955760f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:00 +0000
Subject: [PATCH 72/72] fix: refuse a negative size, also when it is one
 element of a union that starts at MIN

---
 asn1PERser/classes/parse_actions.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/asn1PERser/classes/parse_actions.py b/asn1PERser/classes/parse_actions.py
index 6645d67..040011e 100644
--- a/asn1PERser/classes/parse_actions.py
+++ b/asn1PERser/classes/parse_actions.py
@@ -155,7 +155,7 @@ def parse_ConstrainedType(toks):
     constraint = toks[1]
     if not isinstance(Type, (BitStringType, OctetStringType) if constraint.size else IntegerType):
         raise NotImplementedError('a constraint of this kind is not supported for {}'.format(Type.__class__.__name__))
-    Type.constraint = constraint
+    Type.constraint = _root_of(constraint)
     return Type
 
 
@@ -168,7 +168,7 @@ def parse_TypeWithConstraint(toks):
         raise NotImplemented
     if not constrain.size:
         raise NotImplementedError('SEQUENCE OF can only have a size constraint')
-    Type.constraint = constrain
+    Type.constraint = _root_of(constrain)
     return Type
 
 
@@ -222,20 +222,25 @@ def parse_Constraint(toks):
         ext_mark = True
     lower, upper, elements = _parse_endpoints(parsed)
     return constraint_tuple(lowerEndpoint=lower, upperEndpoint=upper, extensionMarker=ext_mark,
-                            elements=[] if ext_mark else elements, size=False)
+                            elements=elements, size=False)
+
+
+def _root_of(constraint):
+    # the values between the elements of an extensible union are allowed too
+    return constraint._replace(elements=[]) if constraint.extensionMarker else constraint
 
 
 def _parse_size_extension(size, following):
     if not isinstance(size, constraint_tuple):
         raise ValueError('SIZE must be followed by a constraint')
-    if any(endpoint.startswith('-') for endpoint in size[:2]):
+    if any(endpoint.startswith('-') for element in [size[:2]] + size.elements for endpoint in element):
         raise ValueError('a size cannot be negative')
     size = size._replace(size=True)
     # (SIZE(1..4), ...) is extensible just like (SIZE(1..4, ...))
     if not following:
         return size
     if ''.join(tok for tok in following if isinstance(tok, str)).startswith(',...'):
-        return size._replace(extensionMarker=True, elements=[])
+        return size._replace(extensionMarker=True)
     raise NotImplementedError('combined size constraints are not supported')
 
 
-- 
2.43.0

