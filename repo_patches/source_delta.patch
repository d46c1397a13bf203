From a1e0abe98aed82c91b0b9334f9c225df252ada5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:09 +0000
Subject: [PATCH 1/9] fix: reject fixed-point values whose excess precision
 underflows

The residue of a value with a very small exponent underflowed to zero, so that
the value was silently encoded as zero.
---
 eth_abi/encoding.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/eth_abi/encoding.py b/eth_abi/encoding.py
index 3d90518..328b8aa 100644
--- a/eth_abi/encoding.py
+++ b/eth_abi/encoding.py
@@ -346,10 +346,12 @@ class BaseFixedEncoder(NumberEncoder):
     def validate_value(self, value):
         super().validate_value(value)
 
-        with decimal.localcontext(abi_decimal_context):
+        with decimal.localcontext(abi_decimal_context) as context:
             residue = value % (TEN**-self.frac_places)
+            # A residue which is too small to be represented underflows to zero
+            underflow = context.flags[decimal.Inexact]
 
-        if residue > 0:
+        if residue > 0 or underflow:
             self.invalidate_value(
                 value,
                 exc=IllegalValue,
-- 
2.43.0


From e42eb56efb6329cdf5d8445e906cf8c4babdc2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:30 +0000
Subject: [PATCH 2/9] fix: is_encodable does not fail when the type is
 unregistered meanwhile

It looks the type up twice; a concurrent removal between the two lookups made
it raise NoEntriesFound instead of answering.
---
 eth_abi/codec.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/eth_abi/codec.py b/eth_abi/codec.py
index 48095d6..ea06bcb 100644
--- a/eth_abi/codec.py
+++ b/eth_abi/codec.py
@@ -20,6 +20,7 @@ from eth_abi.encoding import (
 )
 from eth_abi.exceptions import (
     EncodingError,
+    NoEntriesFound,
 )
 from eth_abi.registry import (
     ABIRegistry,
@@ -91,7 +92,11 @@ class ABIEncoder(BaseABICoder):
         if not self.is_encodable_type(typ):
             return False
 
-        encoder = self._registry.get_encoder(typ)
+        try:
+            encoder = self._registry.get_encoder(typ)
+        except NoEntriesFound:
+            # The type was unregistered in another thread in the meantime
+            return False
 
         try:
             encoder.validate_value(arg)
-- 
2.43.0


From 9cabd4001f8846e6f63ec45b1d9c89d44393ba64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:30 +0000
Subject: [PATCH 3/9] fix: report an oversized bytes or string length as a
 decoding error

A length beyond the platform's size type escaped as OverflowError.
---
 eth_abi/decoding.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index 71d087a..88e65f0 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -596,7 +596,14 @@ class ByteStringDecoder(SingleDecoder):
         data_length = decode_uint_256(stream)
         padded_length = ceil32(data_length)
 
-        data = stream.read(padded_length)
+        try:
+            data = stream.read(padded_length)
+        except OverflowError:
+            # The length does not even fit into the platform's size type
+            raise InsufficientDataBytes(
+                f"Tried to read {padded_length} bytes, which is more than any stream "
+                "can hold"
+            )
 
         if self.strict:
             if len(data) < padded_length:
-- 
2.43.0


From 1ddea651ccb96bf2965dce0067cbb9fe17b24a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:30 +0000
Subject: [PATCH 4/9] fix: lenient decoding rejects byte strings with missing
 data bytes

strict=False waives the padding checks only, but a truncated payload or an
inflated length was returned as a shortened value.
---
 eth_abi/decoding.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index 88e65f0..7c9e3b6 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -605,6 +605,12 @@ class ByteStringDecoder(SingleDecoder):
                 "can hold"
             )
 
+        # Padding may be missing if not in strict mode, but the data itself may not
+        if len(data) < data_length:
+            raise InsufficientDataBytes(
+                f"Tried to read {data_length} bytes, only got {len(data)} bytes"
+            )
+
         if self.strict:
             if len(data) < padded_length:
                 raise InsufficientDataBytes(
-- 
2.43.0


From 2a0d0f92839871c099c5b7df779cac41130841e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:30 +0000
Subject: [PATCH 5/9] fix: unregistering by an equal predicate removes its
 label as well

Matchers are keyed by equality, but the label was searched by identity and
stayed behind as a dangling label that could neither be reused nor removed.
---
 eth_abi/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eth_abi/registry.py b/eth_abi/registry.py
index 29b8fc5..d38f24a 100644
--- a/eth_abi/registry.py
+++ b/eth_abi/registry.py
@@ -123,7 +123,7 @@ class PredicateMapping(Copyable):
         # Both keys and values in `_labeled_predicates` are unique since the
         # `add` method enforces this
         for key, value in self._labeled_predicates.items():
-            if value is predicate:
+            if value == predicate:
                 return key
 
         raise ValueError(
-- 
2.43.0


From 0ac6c4a5bc31e244f23ecf46b86e5d6ef79ef2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:30 +0000
Subject: [PATCH 6/9] fix: the strict flag of one lookup no longer changes a
 registered decoder object

The flag was set on the shared object itself and so leaked into every other
decode call that uses it.
---
 eth_abi/registry.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eth_abi/registry.py b/eth_abi/registry.py
index d38f24a..5cf6106 100644
--- a/eth_abi/registry.py
+++ b/eth_abi/registry.py
@@ -478,7 +478,11 @@ class ABIRegistry(Copyable, BaseRegistry):
             # Set a transient flag each time a call is made to ``get_decoder()``.
             # Only dynamic decoders should be allowed these looser constraints. All
             # other decoders should keep the default value of ``True``.
-            decoder.strict = strict
+            if getattr(decoder, "strict", None) != strict:
+                # The registered decoder may be an object which is shared with other
+                # lookups, so leave it alone
+                decoder = copy.copy(decoder)
+                decoder.strict = strict
 
         return decoder
 
-- 
2.43.0


From 393562333f27ce2c36843b988fe9ec93f2ab82f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:30 +0000
Subject: [PATCH 7/9] fix: make registration changes safe with concurrent
 lookups and changes

The coder caches were cleared before the change was made, so a concurrent
lookup could cache an outdated coder for good; lookups iterated over the live
mapping and failed when it changed; and changes raced with each other and with
copying.
---
 eth_abi/registry.py | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/eth_abi/registry.py b/eth_abi/registry.py
index 5cf6106..9bb3923 100644
--- a/eth_abi/registry.py
+++ b/eth_abi/registry.py
@@ -4,6 +4,7 @@ from collections.abc import (
 )
 import copy
 import functools
+import threading
 from typing import (
     Any,
     Union,
@@ -78,9 +79,11 @@ class PredicateMapping(Copyable):
         self._values[predicate] = value
 
     def find(self, type_str):
+        # Iterate over a snapshot since another thread (or a predicate) may change
+        # the mapping in the meantime
         results = tuple(
             (predicate, value)
-            for predicate, value in self._values.items()
+            for predicate, value in tuple(self._values.items())
             if predicate(type_str)
         )
 
@@ -280,8 +283,14 @@ def is_base_tuple(type_str):
 def _clear_encoder_cache(old_method: Callable[..., None]) -> Callable[..., None]:
     @functools.wraps(old_method)
     def new_method(self: "ABIRegistry", *args: Any, **kwargs: Any) -> None:
-        self.get_encoder.cache_clear()
-        return old_method(self, *args, **kwargs)
+        # Start with a fresh cache once the change is made.  Clearing the old one is
+        # not enough: a lookup which began before the change, in another thread, may
+        # still store an outdated encoder in it.
+        with self._lock:
+            try:
+                return old_method(self, *args, **kwargs)
+            finally:
+                self.get_encoder = functools.cache(self._get_encoder_uncached)
 
     return new_method
 
@@ -289,8 +298,14 @@ def _clear_encoder_cache(old_method: Callable[..., None]) -> Callable[..., None]
 def _clear_decoder_cache(old_method: Callable[..., None]) -> Callable[..., None]:
     @functools.wraps(old_method)
     def new_method(self: "ABIRegistry", *args: Any, **kwargs: Any) -> None:
-        self.get_decoder.cache_clear()
-        return old_method(self, *args, **kwargs)
+        # Start with a fresh cache once the change is made.  Clearing the old one is
+        # not enough: a lookup which began before the change, in another thread, may
+        # still store an outdated decoder in it.
+        with self._lock:
+            try:
+                return old_method(self, *args, **kwargs)
+            finally:
+                self.get_decoder = functools.cache(self._get_decoder_uncached)
 
     return new_method
 
@@ -341,6 +356,8 @@ class BaseRegistry:
 
 class ABIRegistry(Copyable, BaseRegistry):
     def __init__(self):
+        # Serializes changes to (and copying of) the registry between threads
+        self._lock = threading.RLock()
         self._encoders = PredicateMapping("encoder registry")
         self._decoders = PredicateMapping("decoder registry")
         self.get_encoder = functools.cache(self._get_encoder_uncached)
@@ -441,16 +458,18 @@ class ABIRegistry(Copyable, BaseRegistry):
             entry in the registry via the :any:`unregister` method and its
             variants.
         """
-        self.register_encoder(lookup, encoder, label=label)
-        self.register_decoder(lookup, decoder, label=label)
+        with self._lock:
+            self.register_encoder(lookup, encoder, label=label)
+            self.register_decoder(lookup, decoder, label=label)
 
     def unregister(self, label: str | None) -> None:
         """
         Unregisters the entries in the encoder and decoder registries which
         have the label ``label``.
         """
-        self.unregister_encoder(label)
-        self.unregister_decoder(label)
+        with self._lock:
+            self.unregister_encoder(label)
+            self.unregister_decoder(label)
 
     def _get_encoder_uncached(self, type_str):
         return self._get_registration(self._encoders, type_str)
@@ -497,8 +516,9 @@ class ABIRegistry(Copyable, BaseRegistry):
         """
         cpy = type(self)()
 
-        cpy._encoders = copy.copy(self._encoders)
-        cpy._decoders = copy.copy(self._decoders)
+        with self._lock:
+            cpy._encoders = copy.copy(self._encoders)
+            cpy._decoders = copy.copy(self._decoders)
 
         return cpy
 
-- 
2.43.0


From 9ed89fbb323daf4f408e1d2264e820342a45442f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:13 +0000
Subject: [PATCH 8/9] fix: count the whole head of a tuple when validating
 pointers

Static tuples and nested static arrays occupy several words in the head
section, but were counted as one (or as one per item), so that pointers
leading back into the head were accepted.
---
 eth_abi/decoding.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index 7c9e3b6..00d60b5 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -169,6 +169,19 @@ class HeadTailDecoder(BaseDecoder):
         return value
 
 
+def _num_head_words(decoder):
+    """
+    Returns the number of 32 byte words which a decoder occupies in the head section
+    of the tuple that contains it.
+    """
+    if isinstance(decoder, TupleDecoder):
+        return sum(_num_head_words(d) for d in decoder.decoders)
+    if isinstance(decoder, SizedArrayDecoder):
+        return decoder.array_size * _num_head_words(decoder.item_decoder)
+
+    return getattr(decoder, "array_size", 1)
+
+
 class TupleDecoder(BaseDecoder):
     decoders: tuple[BaseDecoder, ...] | None = None
 
@@ -193,9 +206,7 @@ class TupleDecoder(BaseDecoder):
         Verify that all pointers point to a valid location in the stream.
         """
         current_location = stream.tell()
-        len_of_head = sum(
-            getattr(decoder, "array_size", 1) for decoder in self.decoders
-        )
+        len_of_head = sum(_num_head_words(decoder) for decoder in self.decoders)
         end_of_offsets = current_location + 32 * len_of_head
         total_stream_length = len(stream.getbuffer())
         for decoder in self.decoders:
-- 
2.43.0


From a062b16b5ab755d4f95dd5674142ccb61c4f285e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:55 +0000
Subject: [PATCH 9/9] fix: never leave a label behind which refers to no
 registration

An exception delivered while a predicate was hashed in add, or while the label of
a removed predicate was searched, left a label without a registration, so that the
label could not be used again.
---
 eth_abi/registry.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/eth_abi/registry.py b/eth_abi/registry.py
index 9bb3923..885eb3c 100644
--- a/eth_abi/registry.py
+++ b/eth_abi/registry.py
@@ -74,10 +74,13 @@ class PredicateMapping(Copyable):
                     f"in {self._name}"
                 )
 
-            self._labeled_predicates[label] = predicate
-
+        # A label is stored after, and deleted before, what it refers to so that none is
+        # left behind if this gets interrupted
         self._values[predicate] = value
 
+        if label is not None:
+            self._labeled_predicates[label] = predicate
+
     def find(self, type_str):
         # Iterate over a snapshot since another thread (or a predicate) may change
         # the mapping in the meantime
@@ -108,10 +111,7 @@ class PredicateMapping(Copyable):
         return values[0]
 
     def remove_by_equality(self, predicate):
-        # Delete the predicate mapping to the previously stored value
-        try:
-            del self._values[predicate]
-        except KeyError:
+        if predicate not in self._values:
             raise KeyError(f"Matcher {repr(predicate)} not found in {self._name}")
 
         # Delete any label which refers to this predicate
@@ -122,6 +122,9 @@ class PredicateMapping(Copyable):
         else:
             del self._labeled_predicates[label]
 
+        # Delete the predicate mapping to the previously stored value
+        del self._values[predicate]
+
     def _label_for_predicate(self, predicate):
         # Both keys and values in `_labeled_predicates` are unique since the
         # `add` method enforces this
-- 
2.43.0

