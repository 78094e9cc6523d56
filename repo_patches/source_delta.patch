From dad85c833e6a15e468c15a05f289fba18feaff18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:44 +0000
Subject: [PATCH 01/55] fix: device refuses an input order that is not a
 permutation

---
 monero_glue/protocol/tsx_sign_builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monero_glue/protocol/tsx_sign_builder.py b/monero_glue/protocol/tsx_sign_builder.py
index d83f707..9165ecd 100644
--- a/monero_glue/protocol/tsx_sign_builder.py
+++ b/monero_glue/protocol/tsx_sign_builder.py
@@ -736,6 +736,9 @@ class TTransactionBuilder(object):
         Set permutation on the inputs - sorted by key image on host.
         """
         self.state.input_permutation()
+        if len(permutation) != self.num_inputs():
+            raise ValueError("Invalid permutation length")
+        common.check_permutation(permutation)
         self.source_permutation = permutation
         self.inp_idx = -1
 
-- 
2.43.0


From 57e22cd5a71378fff32df62d6cf3c63539dd0cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:45 +0000
Subject: [PATCH 02/55] fix: device refuses range proof batches that do not
 partition the outputs

---
 monero_glue/protocol/tsx_sign_builder.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/monero_glue/protocol/tsx_sign_builder.py b/monero_glue/protocol/tsx_sign_builder.py
index 9165ecd..81fc38d 100644
--- a/monero_glue/protocol/tsx_sign_builder.py
+++ b/monero_glue/protocol/tsx_sign_builder.py
@@ -435,6 +435,7 @@ class TTransactionBuilder(object):
         self.use_bulletproof = self.rsig_type > 0
         self.use_simple_rct = self.input_count > 1 or self.rsig_type != 0
         self.bp_version = tsx_data.rsig_data.bp_version or 1
+        self._check_grouping()
 
         # Additional keys w.r.t. subaddress destinations
         class_res = classify_subaddresses(tsx_data.outputs, self.change_address())
@@ -1378,6 +1379,15 @@ class TTransactionBuilder(object):
             r += 1
         return r - 1
 
+    def _check_grouping(self):
+        """
+        Range proof batches have to partition the outputs
+        """
+        if any(x <= 0 for x in self.rsig_grp):
+            raise ValueError("Invalid grouping batch")
+        if sum(self.rsig_grp) != self.output_count:
+            raise ValueError("Invalid grouping")
+
     def _is_last_in_batch(self, idx, bidx=None):
         """
         Returns true if the current output is last in the rsig batch
-- 
2.43.0


From 449c63487bf6522c669c9a5c0bdfc6d312febd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:45 +0000
Subject: [PATCH 03/55] fix: device requires the last offloaded range proof
 before fixing the message

---
 monero_glue/protocol/tsx_sign_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/monero_glue/protocol/tsx_sign_builder.py b/monero_glue/protocol/tsx_sign_builder.py
index 81fc38d..0e0bf04 100644
--- a/monero_glue/protocol/tsx_sign_builder.py
+++ b/monero_glue/protocol/tsx_sign_builder.py
@@ -1434,6 +1434,8 @@ class TTransactionBuilder(object):
 
         if self.out_idx + 1 != self.num_dests():
             raise ValueError("Invalid out num")
+        if self.is_det_mask() and self.rsig_offload:
+            utils.ensure(self.is_processing_offloaded, "Missing offloaded BP")
 
         # Fee test
         if self.fee != (self.summary_inputs_money - self.summary_outs_money):
-- 
2.43.0


From 12e201500279c3c63cc39770478a398fa9202978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:45 +0000
Subject: [PATCH 04/55] fix: device refuses an offloaded range proof while no
 batch is complete

---
 monero_glue/protocol/tsx_sign_builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monero_glue/protocol/tsx_sign_builder.py b/monero_glue/protocol/tsx_sign_builder.py
index 0e0bf04..c587ee2 100644
--- a/monero_glue/protocol/tsx_sign_builder.py
+++ b/monero_glue/protocol/tsx_sign_builder.py
@@ -958,6 +958,9 @@ class TTransactionBuilder(object):
                 not last_in_batch or self.is_processing_offloaded != is_offloaded_bp,
                 "Offloaded BP out of order",
             )
+            utils.ensure(
+                last_in_batch or not is_offloaded_bp, "Offloaded BP before batch end"
+            )
             self.is_processing_offloaded = is_offloaded_bp
 
         if not self.is_processing_offloaded:
-- 
2.43.0


From 878317b351ffa38205836f8fe850bf2a9758e941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:45 +0000
Subject: [PATCH 05/55] fix: device checks the change address of a sweep when
 it is paid

---
 monero_glue/protocol/tsx_sign_builder.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/monero_glue/protocol/tsx_sign_builder.py b/monero_glue/protocol/tsx_sign_builder.py
index c587ee2..b997b52 100644
--- a/monero_glue/protocol/tsx_sign_builder.py
+++ b/monero_glue/protocol/tsx_sign_builder.py
@@ -205,16 +205,21 @@ class TTransactionBuilder(object):
             self._mem_trace("No change" if __debug__ else None)
             return
 
-        if change_idx is None and self.output_change.amount == 0 and len(outputs) == 2:
-            self._mem_trace("Sweep tsx" if __debug__ else None)
-            return  # sweep dummy tsx
-
         found = False
         for out in outputs:
             if addr_eq(out.addr, change_addr):
                 found = True
                 break
 
+        if (
+            not found
+            and change_idx is None
+            and self.output_change.amount == 0
+            and len(outputs) == 2
+        ):
+            self._mem_trace("Sweep tsx" if __debug__ else None)
+            return  # sweep dummy tsx
+
         if not found:
             raise misc.TrezorChangeAddressError("Change address not found in outputs")
 
-- 
2.43.0


From ef8b7f151da7fefe9c1e2e038ea747b4d8ed8c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:45 +0000
Subject: [PATCH 06/55] fix: transfers to the own change address get a payment
 id

---
 monero_glue/protocol/tsx_sign_builder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monero_glue/protocol/tsx_sign_builder.py b/monero_glue/protocol/tsx_sign_builder.py
index b997b52..38b3c05 100644
--- a/monero_glue/protocol/tsx_sign_builder.py
+++ b/monero_glue/protocol/tsx_sign_builder.py
@@ -579,6 +579,10 @@ class TTransactionBuilder(object):
         if not tsx_data.payment_id and count <= 1:
             tsx_data.payment_id = bytearray(8)
 
+        # All money goes to the change address
+        if count == 0 and change_addr:
+            return change_addr.view_public_key
+
         return addr.view_public_key
 
     async def compute_sec_keys(self, tsx_data):
-- 
2.43.0


From 18bad406e0cf1849f4cdf05bd558d5f8870a4492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:15 +0000
Subject: [PATCH 07/55] fix: device refuses to close the inputs before all of
 them are hashed

---
 monero_glue/protocol/tsx_sign_builder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/monero_glue/protocol/tsx_sign_builder.py b/monero_glue/protocol/tsx_sign_builder.py
index 38b3c05..070379a 100644
--- a/monero_glue/protocol/tsx_sign_builder.py
+++ b/monero_glue/protocol/tsx_sign_builder.py
@@ -795,6 +795,7 @@ class TTransactionBuilder(object):
         If in the applicable offloading mode, generate commitment masks.
         """
         self._mem_trace(0)
+        utils.ensure(self.inp_idx + 1 == self.num_inputs(), "Inputs missing")
         self.state.input_all_done()
         await self.trezor.iface.transaction_step(self.STEP_ALL_IN)
 
-- 
2.43.0


From 40f65e267622bd6ed8b2ff9ffecfce413592f4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:08 +0000
Subject: [PATCH 08/55] fix: chunking does not end with an empty chunk

---
 monero_glue/xmr/common.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/monero_glue/xmr/common.py b/monero_glue/xmr/common.py
index 25ae2c0..23336d6 100644
--- a/monero_glue/xmr/common.py
+++ b/monero_glue/xmr/common.py
@@ -192,12 +192,9 @@ def defattr(obj, attr, default=None, take_none=True):
 def chunk(arr, size=1):
     res = []
     idx = 0
-    while True:
-        c = arr[idx : idx + size]
-        res.append(c)
+    while idx < len(arr):
+        res.append(arr[idx : idx + size])
         idx += size
-        if len(c) != size:
-            break
     return res
 
 
-- 
2.43.0


From 8d9a8d57e91e22853c08ae59162f0b62ae611ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:54 +0000
Subject: [PATCH 09/55] fix: live refresh refuses key images with a small order
 component

---
 monero_glue/agent/agent_lite.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/monero_glue/agent/agent_lite.py b/monero_glue/agent/agent_lite.py
index 24a2b39..87abcec 100644
--- a/monero_glue/agent/agent_lite.py
+++ b/monero_glue/agent/agent_lite.py
@@ -910,6 +910,11 @@ class Agent(object):
 
         ki_bin = decr[:32]
         ki = crypto.decodepoint(ki_bin)
+        # the proof does not bind components of small order: l * ki == 0
+        ki_neg = crypto.scalarmult(ki, crypto.sc_sub(crypto.sc_0(), crypto.sc_init(1)))
+        if not crypto.point_eq(crypto.point_add(ki_neg, ki), crypto.identity()):
+            raise ValueError("Invalid KI")
+
         sig = [[crypto.decodeint(decr[32:64]), crypto.decodeint(decr[64:])]]
 
         if not ring_ct.check_ring_singature(
-- 
2.43.0


From ad3abac514f143b890d12c325b086a72557fd0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:27 +0000
Subject: [PATCH 10/55] fix: base58 block of exactly 2^64 is an overflow

---
 monero_glue/misc/b58_mnr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/misc/b58_mnr.py b/monero_glue/misc/b58_mnr.py
index 274086e..6a60b82 100644
--- a/monero_glue/misc/b58_mnr.py
+++ b/monero_glue/misc/b58_mnr.py
@@ -171,7 +171,7 @@ def decode_block(data, buf, index):
             return "Invalid symbol"
 
         product = order * digit + res_num
-        if product > __UINT64MAX:
+        if product >= __UINT64MAX:
             return "Overflow"
 
         res_num = product
-- 
2.43.0


From 59b961fe0185a631a2db2b7582be68899ac671ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:27 +0000
Subject: [PATCH 11/55] fix: address payload of a wrong length is refused

---
 monero_glue/xmr/sub/addr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/monero_glue/xmr/sub/addr.py b/monero_glue/xmr/sub/addr.py
index 892d970..4dd8714 100644
--- a/monero_glue/xmr/sub/addr.py
+++ b/monero_glue/xmr/sub/addr.py
@@ -26,6 +26,8 @@ class AddrInfo(object):
             self.set_addr(ver, data, self.payment_id)
 
     def set_addr(self, ver, data, payment_id=None):
+        if len(data) != (72 if is_integrated(ver) else 64):
+            raise ValueError("Invalid address length")
         self.net_type = get_addr_type(ver)
         self.is_sub_address = is_subaddress(ver)
         self.is_integrated = is_integrated(ver)
-- 
2.43.0


From f4f7868a34ab6709f7058913e43485c0795e5863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:27 +0000
Subject: [PATCH 12/55] fix: integrated address with an empty payment id is
 refused

---
 monero_glue/xmr/sub/addr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/sub/addr.py b/monero_glue/xmr/sub/addr.py
index 4dd8714..710bca1 100644
--- a/monero_glue/xmr/sub/addr.py
+++ b/monero_glue/xmr/sub/addr.py
@@ -122,7 +122,7 @@ def public_addr_encode(
     :param payment_id: for integrated address
     :return:
     """
-    if payment_id and len(payment_id) != 8:
+    if payment_id is not None and len(payment_id) != 8:
         raise ValueError("Payment ID has to have exactly 8B for an integrated address")
     net_ver = net_version(net, is_sub, payment_id is not None)
     return encode_addr(
-- 
2.43.0


From 31c60a1d09fd0c162b9af826c1ace3651c62e034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:27 +0000
Subject: [PATCH 13/55] fix: address kind of subaddresses with one zero index
 and of index (0, 0)

---
 monero_glue/xmr/monero.py   | 2 +-
 monero_glue/xmr/sub/addr.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/monero_glue/xmr/monero.py b/monero_glue/xmr/monero.py
index 44467c7..2b3b33a 100644
--- a/monero_glue/xmr/monero.py
+++ b/monero_glue/xmr/monero.py
@@ -500,6 +500,6 @@ def build_address_info(creds, subidx=None, payment_id=None, net_type=NetworkType
     ai.payment_id = payment_id
     ai.net_type = net_type
     ai.is_integrated = payment_id is not None
-    ai.is_sub_address = subidx is not None
+    ai.is_sub_address = subidx is not None and subidx != (0, 0)
     ai.recompute_addr()
     return ai
diff --git a/monero_glue/xmr/sub/addr.py b/monero_glue/xmr/sub/addr.py
index 710bca1..a0b975a 100644
--- a/monero_glue/xmr/sub/addr.py
+++ b/monero_glue/xmr/sub/addr.py
@@ -51,7 +51,7 @@ class AddrInfo(object):
     def recompute_sub(self, spend_key, view_key, major=0, minor=0):
         self.spend_key = spend_key
         self.view_key = view_key
-        self.is_sub_address = major != 0 and minor != 0
+        self.is_sub_address = major != 0 or minor != 0
         self.recompute_addr()
 
 
-- 
2.43.0


From b4908bbb0a4cac2dcd606fda8f620b5c30bd874c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:17 +0000
Subject: [PATCH 14/55] fix: Monero word lists with a wrong checksum, count or
 triplet are refused

---
 monero_glue/xmr/core/mnemonic.py | 9 +++++++--
 monero_glue/xmr/sub/seed.py      | 2 ++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/monero_glue/xmr/core/mnemonic.py b/monero_glue/xmr/core/mnemonic.py
index a3db4b4..3d87634 100644
--- a/monero_glue/xmr/core/mnemonic.py
+++ b/monero_glue/xmr/core/mnemonic.py
@@ -1681,10 +1681,13 @@ def mn_encode(message, checksum=False):
 def mn_decode(wlist):
     out = ""
     n = len(words)
-    has_checksum = (n % 3) == 1
+    if len(wlist) < 3 or len(wlist) % 3 == 2:
+        raise ValueError("Invalid number of words")
+
+    has_checksum = (len(wlist) % 3) == 1
 
     if has_checksum:
-        if not checksum_test(wlist):
+        if not checksum_test(list(wlist)):
             raise ValueError("Electrum checksum incorrect")
         wlist = wlist[:-1]
 
@@ -1694,6 +1697,8 @@ def mn_decode(wlist):
         w2 = words.index(word2)
         w3 = words.index(word3)
         x = w1 + n * ((n + w2 - w1) % n) + n * n * ((n + w3 - w2) % n)  # as an int
+        if x >= 2 ** 32:
+            raise ValueError("Invalid word triplet")
         b = "%08x" % x  # this is big endian!
         out += mn_swap_endian_4byte(b)
 
diff --git a/monero_glue/xmr/sub/seed.py b/monero_glue/xmr/sub/seed.py
index 7e02123..b03e088 100644
--- a/monero_glue/xmr/sub/seed.py
+++ b/monero_glue/xmr/sub/seed.py
@@ -129,6 +129,8 @@ class SeedDerivation(object):
     def from_monero_mnemonics(cls, mnemonics_words, *args, **kwargs):
         mnems = SeedDerivation.clean_input(mnemonics_words)
         seed = mnemonic.mn_decode(mnems)
+        if len(seed) != 64:
+            raise ValueError("Invalid number of words")
 
         r = cls()
         r.set_monero_seed(binascii.unhexlify(seed))
-- 
2.43.0


From 6ce0f34a1c314dd86033d8e808092121e2eec931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 15/55] fix: truncated and malformed wire messages are refused

---
 monero_glue/protobuf.py | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/monero_glue/protobuf.py b/monero_glue/protobuf.py
index 88b59c8..776f421 100644
--- a/monero_glue/protobuf.py
+++ b/monero_glue/protobuf.py
@@ -50,7 +50,15 @@ def load_uvarint(reader):
     shift = 0
     byte = 0x80
     while byte & 0x80:
-        if reader.readinto(buffer) == 0:
+        if shift > 63:
+            raise ValueError("Varint too long")
+        try:
+            nread = reader.readinto(buffer)
+        except EOFError:
+            nread = 0
+        if nread == 0:
+            if shift > 0:
+                raise ValueError("Truncated varint")
             raise EOFError
         byte = buffer[0]
         result += (byte & 0x7F) << shift
@@ -237,6 +245,13 @@ class CountingWriter:
 FLAG_REPEATED = 1
 
 
+def load_bytes(reader, size):
+    buf = bytearray(size)
+    if size > 0 and reader.readinto(buf) != size:
+        raise EOFError
+    return buf
+
+
 async def load_message(reader, msg_type):
     fields = msg_type.get_fields()
     msg = msg_type()
@@ -249,6 +264,8 @@ async def load_message(reader, msg_type):
 
         ftag = fkey >> 3
         wtype = fkey & 7
+        if ftag == 0:
+            raise ValueError("Invalid field tag")
 
         field = fields.get(ftag, None)
 
@@ -257,7 +274,7 @@ async def load_message(reader, msg_type):
                 load_uvarint(reader)
             elif wtype == 2:
                 ivalue = load_uvarint(reader)
-                reader.readinto(bytearray(ivalue))
+                load_bytes(reader, ivalue)
             else:
                 raise ValueError
             continue
@@ -275,15 +292,14 @@ async def load_message(reader, msg_type):
         elif ftype is BoolType:
             fvalue = bool(ivalue)
         elif ftype is BytesType:
-            buf = bytearray(ivalue)
-            reader.readinto(buf)
-            fvalue = bytes(buf)
+            fvalue = bytes(load_bytes(reader, ivalue))
         elif ftype is UnicodeType:
-            buf = bytearray(ivalue)
-            reader.readinto(buf)
-            fvalue = buf.decode()
+            fvalue = load_bytes(reader, ivalue).decode()
         elif issubclass(ftype, MessageType):
-            fvalue = await load_message(LimitedReader(reader, ivalue), ftype)
+            limited = LimitedReader(reader, ivalue)
+            fvalue = await load_message(limited, ftype)
+            if limited.limit != 0:
+                raise EOFError
         else:
             raise TypeError  # field type is unknown
 
-- 
2.43.0


From bed39944b6042889562c4449c723120c05600db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 16/55] fix: messages with enumeration fields (Failure,
 ButtonRequest) can be written and read

---
 monero_glue/protobuf.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/monero_glue/protobuf.py b/monero_glue/protobuf.py
index 776f421..72dda5e 100644
--- a/monero_glue/protobuf.py
+++ b/monero_glue/protobuf.py
@@ -125,6 +125,19 @@ class BoolType:
     WIRE_TYPE = 0
 
 
+class EnumType:
+    WIRE_TYPE = 0
+
+    def __init__(self, enum_name, enum_values):
+        self.enum_name = enum_name
+        self.enum_values = enum_values
+
+    def validate(self, fvalue):
+        if fvalue not in self.enum_values:
+            raise TypeError("Invalid value of enum %s" % self.enum_name)
+        return fvalue
+
+
 class BytesType:
     WIRE_TYPE = 2
 
@@ -291,6 +304,8 @@ async def load_message(reader, msg_type):
             fvalue = uint_to_sint(ivalue)
         elif ftype is BoolType:
             fvalue = bool(ivalue)
+        elif isinstance(ftype, EnumType):
+            fvalue = ftype.validate(ivalue)
         elif ftype is BytesType:
             fvalue = bytes(load_bytes(reader, ivalue))
         elif ftype is UnicodeType:
@@ -342,6 +357,9 @@ async def dump_message(writer, msg):
             elif ftype is BoolType:
                 dump_uvarint(writer, int(svalue))
 
+            elif isinstance(ftype, EnumType):
+                dump_uvarint(writer, ftype.validate(svalue))
+
             elif ftype is BytesType:
                 if isinstance(svalue, list):
                     dump_uvarint(writer, _count_bytes_list(svalue))
@@ -425,6 +443,9 @@ def format_message(
 
 
 def value_to_proto(ftype, value):
+    if isinstance(ftype, EnumType):
+        return int(value)
+
     if issubclass(ftype, MessageType):
         raise TypeError("value_to_proto only converts simple values")
 
@@ -457,7 +478,7 @@ def dict_to_proto(message_type, d):
         if not repeated:
             value = [value]
 
-        if issubclass(ftype, MessageType):
+        if not isinstance(ftype, EnumType) and issubclass(ftype, MessageType):
             function = dict_to_proto
         else:
             function = value_to_proto
-- 
2.43.0


From dd119c39af1f6c153a6fa50b6e2174b6ddb0425c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:11 +0000
Subject: [PATCH 17/55] fix: declared length of a wire field does not allocate
 memory before the data is there

---
 monero_glue/protobuf.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/monero_glue/protobuf.py b/monero_glue/protobuf.py
index 72dda5e..fc360ef 100644
--- a/monero_glue/protobuf.py
+++ b/monero_glue/protobuf.py
@@ -259,9 +259,13 @@ FLAG_REPEATED = 1
 
 
 def load_bytes(reader, size):
-    buf = bytearray(size)
-    if size > 0 and reader.readinto(buf) != size:
-        raise EOFError
+    buf = bytearray()
+    while len(buf) < size:
+        chunk = bytearray(min(size - len(buf), 4096))
+        nread = reader.readinto(chunk)
+        if not nread:
+            raise EOFError
+        buf += chunk[:nread]
     return buf
 
 
-- 
2.43.0


From 46d3549227af99138f6f89caa1226ba6f5e2d0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:04 +0000
Subject: [PATCH 18/55] fix: extra nonce of 128 bytes and more has a two byte
 length

---
 monero_glue/xmr/sub/tsx_helper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monero_glue/xmr/sub/tsx_helper.py b/monero_glue/xmr/sub/tsx_helper.py
index cc39eda..13ca517 100644
--- a/monero_glue/xmr/sub/tsx_helper.py
+++ b/monero_glue/xmr/sub/tsx_helper.py
@@ -5,6 +5,7 @@
 from monero_glue.messages.MoneroAccountPublicAddress import MoneroAccountPublicAddress
 from monero_glue.xmr import crypto
 from monero_serialize import xmrserialize
+from monero_serialize.core.int_serialize import dump_uvarint_b
 from monero_serialize.core.readwriter import MemoryReaderWriter
 from monero_serialize.xmrtypes import TxExtraAdditionalPubKeys, TxExtraField
 
@@ -212,7 +213,7 @@ def add_extra_nonce_to_tx_extra(extra, extra_nonce):
     """
     if len(extra_nonce) > 255:
         raise ValueError("Nonce could be 255 bytes max")
-    extra += b"\x02" + len(extra_nonce).to_bytes(1, "big") + extra_nonce
+    extra += b"\x02" + dump_uvarint_b(len(extra_nonce)) + extra_nonce
     return extra
 
 
-- 
2.43.0


From 9d50a7aaea1b3c8b67e197441f6295066e888702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:22 +0000
Subject: [PATCH 19/55] fix: removing a field from extra keeps the other fields
 as they are, padding included

---
 monero_glue/xmr/sub/tsx_helper.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/monero_glue/xmr/sub/tsx_helper.py b/monero_glue/xmr/sub/tsx_helper.py
index 13ca517..77dffb6 100644
--- a/monero_glue/xmr/sub/tsx_helper.py
+++ b/monero_glue/xmr/sub/tsx_helper.py
@@ -184,7 +184,7 @@ def set_encrypted_payment_id_to_tx_extra_nonce(payment_id):
 async def remove_field_from_tx_extra(extra, mtype):
     """
     Removes extra field of fiven type from the buffer
-    Reserializes with skipping the given mtype.
+    Copies all fields but those of the given mtype.
     :param extra:
     :param mtype:
     :return:
@@ -192,16 +192,17 @@ async def remove_field_from_tx_extra(extra, mtype):
     if len(extra) == 0:
         return []
 
+    extra = bytes(extra)
+    res = bytearray()
     reader = MemoryReaderWriter(extra)
-    writer = MemoryReaderWriter()
     ar_read = xmrserialize.Archive(reader, False)
-    ar_write = xmrserialize.Archive(writer, True)
     while len(reader.get_buffer()) > 0:
+        start = reader.offset
         c_extras = await ar_read.variant(elem_type=TxExtraField)
         if not isinstance(c_extras, mtype):
-            await ar_write.variant(c_extras, elem_type=TxExtraField)
+            res += extra[start : reader.offset]
 
-    return writer.get_buffer()
+    return res
 
 
 def add_extra_nonce_to_tx_extra(extra, extra_nonce):
-- 
2.43.0


From ac5907732f324c99a3b223b701f3053eb74bb6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:58 +0000
Subject: [PATCH 20/55] fix: message hasher takes the message exactly once and
 before the signature base

---
 monero_glue/xmr/sub/mlsag_hasher.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/monero_glue/xmr/sub/mlsag_hasher.py b/monero_glue/xmr/sub/mlsag_hasher.py
index f72a83c..a312f2d 100644
--- a/monero_glue/xmr/sub/mlsag_hasher.py
+++ b/monero_glue/xmr/sub/mlsag_hasher.py
@@ -20,6 +20,7 @@ class PreMlsagHasher(object):
             self.rtcsig_hasher = KeccakXmrArchive(state[4]) if state[4] else None
         else:
             self.rtcsig_hasher = KeccakXmrArchive()
+        self.message_set = state[5] if state else False
 
     def state_save(self):
         return (
@@ -28,6 +29,7 @@ class PreMlsagHasher(object):
             self.kc_master.ctx,
             self.rsig_hasher,
             self.rtcsig_hasher.ctx() if self.rtcsig_hasher else None,
+            self.message_set,
         )
 
     def state_load(self, x):
@@ -41,6 +43,7 @@ class PreMlsagHasher(object):
             self.rtcsig_hasher = KeccakXmrArchive(x[4])
         else:
             self.rtcsig_hasher = None
+        self.message_set = x[5]
 
     def init(self, is_simple):
         if self.state != 0:
@@ -50,6 +53,10 @@ class PreMlsagHasher(object):
         self.is_simple = is_simple
 
     async def set_message(self, message):
+        # the message is hashed first, exactly once
+        if self.message_set or self.state >= 6:
+            raise ValueError("State error")
+        self.message_set = True
         self.kc_master.update(message)
 
     async def set_type_fee(self, rv_type, fee):
@@ -95,7 +102,7 @@ class PreMlsagHasher(object):
         await self.rtcsig_hasher.field(mask if mask else out_pk, ECKey)
 
     async def rctsig_base_done(self):
-        if self.state != 5:
+        if self.state != 5 or not self.message_set:
             raise ValueError("State error")
         self.state = 6
 
-- 
2.43.0


From 116b6f8d0b2d0c0f6152863cd90de845f695d9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:58 +0000
Subject: [PATCH 21/55] fix: refreshed hash archive does not keep writing into
 the old hash

---
 monero_glue/xmr/sub/keccak_hasher.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/monero_glue/xmr/sub/keccak_hasher.py b/monero_glue/xmr/sub/keccak_hasher.py
index 53bb50c..f77a244 100644
--- a/monero_glue/xmr/sub/keccak_hasher.py
+++ b/monero_glue/xmr/sub/keccak_hasher.py
@@ -40,6 +40,7 @@ class KeccakXmrArchive(object):
         if ctx is None:
             ctx = self.kwriter.ctx()
         self.kwriter = get_keccak_writer(ctx=ctx)
+        self.ar = None
 
     def _ar(self, xser=None):
         if self.keeping and self.ar:
-- 
2.43.0


From 538d61734d302f3280660a070057107d26212973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:18 +0000
Subject: [PATCH 22/55] fix: hashing zero bytes of a buffer and hexadecimal
 digests with the trezor backend

---
 monero_glue/xmr/core/ec_trezor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monero_glue/xmr/core/ec_trezor.py b/monero_glue/xmr/core/ec_trezor.py
index 734c22e..d5bd292 100644
--- a/monero_glue/xmr/core/ec_trezor.py
+++ b/monero_glue/xmr/core/ec_trezor.py
@@ -75,7 +75,7 @@ class KeccakWrapper(object):
         return r
 
     def hexdigest(self):
-        return self.digest().encode("hex")
+        return self.digest().hex()
 
 
 def get_keccak(*args, **kwargs):
@@ -103,7 +103,7 @@ def keccak_hash_into(r, inp, size=None):
     :return:point_add
     """
     bf = tcry.KEY_BUFF.from_buffer(r)
-    tcry.cl().xmr_fast_hash(bf, bytes(inp), size if size else len(inp))
+    tcry.cl().xmr_fast_hash(bf, bytes(inp), len(inp) if size is None else size)
     return r
 
 
-- 
2.43.0


From ffeb1a6d54a3c496bdd3334a0311a278ae5e2eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 23/55] fix: amounts typed become exactly that many atomic
 units or are refused

---
 monero_poc/utils/misc.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/monero_poc/utils/misc.py b/monero_poc/utils/misc.py
index 701ae0f..93f3b2a 100644
--- a/monero_poc/utils/misc.py
+++ b/monero_poc/utils/misc.py
@@ -17,6 +17,8 @@ import sys
 import threading
 import time
 import traceback
+from decimal import Decimal
+from fractions import Fraction
 from shlex import quote
 
 from monero_glue.hwtoken.misc import TrezorError
@@ -129,8 +131,22 @@ def gen_simple_passwd(n):
     )
 
 
+def parse_amount(amount):
+    """
+    Parses amount in the display units, plain decimal notation, without losing precision.
+    :param amount:
+    :return:
+    """
+    if not re.match(r"^([0-9]+\.?[0-9]*|\.[0-9]+)\Z", amount):
+        raise ValueError("Amount not valid: %s" % amount)
+    return Decimal(amount)
+
+
 def amount_to_uint64(amount):
-    return int((10 ** DISPLAY_DECIMAL_POINT) * amount)
+    atomic = Fraction(str(amount)) * 10 ** DISPLAY_DECIMAL_POINT
+    if atomic.denominator != 1 or not 0 <= atomic < 2 ** 64:
+        raise ValueError("Amount cannot be represented: %s" % amount)
+    return int(atomic)
 
 
 class TransferArgs(object):
@@ -178,14 +194,14 @@ def cut_addr(parts):
 
 def cut_amount(parts):
     try:
-        return float(parts[0]), parts[1:]
+        return parse_amount(parts[0]), parts[1:]
     except Exception as e:
         raise ValueError("Format error, Amount not valid") from e
 
 
 def cut_addr_amount(parts):
     try:
-        return parts[0], float(parts[1]), parts[2:]
+        return parts[0], parse_amount(parts[1]), parts[2:]
     except Exception as e:
         return None, None, parts
 
-- 
2.43.0


From d4d74229bc50e65eff207e8ed70f7827e5df3882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 24/55] fix: commands with arguments after the payment ID are
 refused

---
 monero_poc/utils/misc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/monero_poc/utils/misc.py b/monero_poc/utils/misc.py
index 93f3b2a..f2c0e2a 100644
--- a/monero_poc/utils/misc.py
+++ b/monero_poc/utils/misc.py
@@ -222,6 +222,8 @@ def cut_payment_id(parts):
     payment_id = parts[0]
     if len(payment_id) != 16 and len(payment_id) != 64:
         raise ValueError("Payment ID allowed only 8 and 32 B")
+    if len(parts) > 1:
+        raise ValueError("Format error, too many arguments")
     return payment_id, parts[1:]
 
 
-- 
2.43.0


From 16a901c930d685353a62c086752134b0364c7751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 25/55] fix: sweep_single command parses its own arguments and
 passes address and key image

---
 monero_poc/agent.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index 20ba79c..db31297 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -356,7 +356,7 @@ class HostAgent(cli.BaseCli):
             )
             return
 
-        params = misc.parse_sweep_below(line)
+        params = misc.parse_sweep_single(line)
         self.sweep_cmd(params, is_single=True)
 
     def do_sign(self, line):
@@ -1282,12 +1282,13 @@ class HostAgent(cli.BaseCli):
             params["below_amount"] = misc.amount_to_uint64(parts.amount_threshold)
 
         if parts.key_image is not None:
-            params["key_image"] = parts.key_image
+            params["key_image"] = binascii.hexlify(parts.key_image).decode("ascii")
+
+        params["address"] = parts.address
 
         if not is_single:
             params["account_index"] = self.account_idx
             params["subaddr_indices"] = parts.indices
-            params["address"] = parts.address
 
         return params
 
-- 
2.43.0


From e30e48a5ebe06635641bf75ce06bc543f9840361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 26/55] fix: transfer passes the ring size typed as the ring
 size, not as the number of decoys

---
 monero_poc/agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index db31297..016d5f8 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -1258,7 +1258,7 @@ class HostAgent(cli.BaseCli):
             params["priority"] = priority
 
         if mixin is not None:
-            params["mixin"] = mixin
+            params["ring_size"] = mixin
 
         if new_payment_id is not None:
             params["payment_id"] = binascii.hexlify(new_payment_id).decode("ascii")
-- 
2.43.0


From 762cc20d63a5d5c1c2ce55f4c05f72e581e593cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:55 +0000
Subject: [PATCH 27/55] fix: ring signatures with more responses than ring
 members are refused

---
 monero_glue/xmr/mlsag2.py  | 3 +++
 monero_glue/xmr/ring_ct.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/monero_glue/xmr/mlsag2.py b/monero_glue/xmr/mlsag2.py
index 4a6570f..ef33a5f 100644
--- a/monero_glue/xmr/mlsag2.py
+++ b/monero_glue/xmr/mlsag2.py
@@ -784,6 +784,9 @@ def _generate_clsag(
 
 def verify_clsag(msg, ss, sc1, sI, sD, pubs, C_offset):
     n = len(pubs)
+    if len(ss) != n:
+        raise ValueError("Bad ss size")
+
     c = crypto.new_scalar()
     D_8 = crypto.new_point()
     tmp_bf = bytearray(32)
diff --git a/monero_glue/xmr/ring_ct.py b/monero_glue/xmr/ring_ct.py
index 2a42643..f0061ea 100644
--- a/monero_glue/xmr/ring_ct.py
+++ b/monero_glue/xmr/ring_ct.py
@@ -584,6 +584,9 @@ def check_ring_singature(prefix_hash, image, pubs, sig):
     """
     Checks ring signature generated with generate_ring_signature
     """
+    if len(sig) != len(pubs):
+        return False
+
     image_unp = crypto.ge_frombytes_vartime(image)
     image_pre = crypto.ge_dsm_precomp(image_unp)
 
-- 
2.43.0


From 032ce118bc4638843c5babf71c0038bbd194cc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:55 +0000
Subject: [PATCH 28/55] fix: ring signatures with a small order component in
 the key image are refused

---
 monero_glue/xmr/crypto.py  | 10 ++++++++++
 monero_glue/xmr/mlsag2.py  |  2 ++
 monero_glue/xmr/ring_ct.py |  4 ++++
 3 files changed, 16 insertions(+)

diff --git a/monero_glue/xmr/crypto.py b/monero_glue/xmr/crypto.py
index b77a4e7..6c77b9a 100644
--- a/monero_glue/xmr/crypto.py
+++ b/monero_glue/xmr/crypto.py
@@ -107,6 +107,16 @@ def check_signature(data, c, r, pub):
     return not sc_isnonzero(res)
 
 
+def is_prime_order(pt):
+    """
+    True if the point has no small order component, i.e., l * pt == 0
+    :param pt:
+    :return:
+    """
+    neg = scalarmult(pt, sc_sub(sc_0(), sc_init(1)))
+    return bool(point_eq(point_add(neg, pt), identity()))
+
+
 def xmr_base58_addr_encode_check(version, buff):
     buf = bytes([version]) + buff
     h = cn_fast_hash(buf)
diff --git a/monero_glue/xmr/mlsag2.py b/monero_glue/xmr/mlsag2.py
index ef33a5f..fd50a50 100644
--- a/monero_glue/xmr/mlsag2.py
+++ b/monero_glue/xmr/mlsag2.py
@@ -412,6 +412,8 @@ def ver_mlsag_ext(message, pk, rv, dsRows):
 
     Ip = key_vector(dsRows)
     for i in range(dsRows):
+        if not crypto.is_prime_order(rv.II[i]):
+            return False
         Ip[i] = crypto.precomp(rv.II[i])
 
     i = 0
diff --git a/monero_glue/xmr/ring_ct.py b/monero_glue/xmr/ring_ct.py
index f0061ea..662a07a 100644
--- a/monero_glue/xmr/ring_ct.py
+++ b/monero_glue/xmr/ring_ct.py
@@ -587,6 +587,10 @@ def check_ring_singature(prefix_hash, image, pubs, sig):
     if len(sig) != len(pubs):
         return False
 
+    # the signature does not bind small order components of the key image
+    if not crypto.is_prime_order(image):
+        return False
+
     image_unp = crypto.ge_frombytes_vartime(image)
     image_pre = crypto.ge_dsm_precomp(image_unp)
 
-- 
2.43.0


From 3a249420a63802b27efc7df8518511a88663c161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 29/55] fix: range proofs use fresh randomness for every proof

The prover drew its blinding scalars from a generator with a constant seed and its blinding
vectors from two constant seeds, so anybody could recompute them and read masks and amounts
from a published proof.
---
 monero_glue/xmr/bulletproof.py    | 18 +++++++++---------
 monero_glue/xmr/bulletproof_cl.py |  1 -
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/monero_glue/xmr/bulletproof.py b/monero_glue/xmr/bulletproof.py
index 7add744..5519dff 100644
--- a/monero_glue/xmr/bulletproof.py
+++ b/monero_glue/xmr/bulletproof.py
@@ -47,7 +47,8 @@ _PRINT_INT = False
 COUNT_STATE = False
 slot_sizes = None
 
-PRNG = crypto.prng(_ZERO)
+# Source of the prover's secret randomness, system random number generator if not set (set_prng)
+PRNG = None
 
 # Aliasing
 ubinascii = binascii
@@ -185,9 +186,10 @@ def _scalarmult_base(dst, x):
 
 def _sc_gen(dst=None):
     dst = _ensure_dst_key(dst)
-    buff = PRNG.next(32, bytearray(32))
-    crypto.decodeint_into(_tmp_sc_1, buff)
-    #crypto.random_scalar(_tmp_sc_1)
+    if PRNG is None:
+        crypto.random_scalar_into(_tmp_sc_1)
+    else:
+        crypto.decodeint_into(_tmp_sc_1, PRNG.next(32, bytearray(32)))
     crypto.encodeint_into(dst, _tmp_sc_1)
     return dst
 
@@ -1967,7 +1969,7 @@ class BulletProofBuilder:
 
     def sL_vct(self, ln=_BP_N, allow_nonlinear=False):
         return (
-            KeyVPrngMask(ln, _ZERO, allow_nonlinear=allow_nonlinear) #crypto.random_bytes(32))
+            KeyVPrngMask(ln, self.proof_sec[:32], allow_nonlinear=allow_nonlinear)
             # KeyVEval(ln, lambda i, dst: self._det_mask(i, True, dst))
             if self.use_det_masks
             else self.sX_gen(ln)
@@ -1975,7 +1977,7 @@ class BulletProofBuilder:
 
     def sR_vct(self, ln=_BP_N, allow_nonlinear=False):
         return (
-            KeyVPrngMask(ln, _ONE, allow_nonlinear=allow_nonlinear)  # crypto.random_bytes(32))
+            KeyVPrngMask(ln, self.proof_sec[32:], allow_nonlinear=allow_nonlinear)
             # KeyVEval(ln, lambda i, dst: self._det_mask(i, False, dst))
             if self.use_det_masks
             else self.sX_gen(ln)
@@ -1987,8 +1989,6 @@ class BulletProofBuilder:
         buff_mv = memoryview(buff)
         sc = crypto.new_scalar()
         for i in range(ln):
-            buff0 = PRNG.next(32, bytearray(32))
-            crypto.decodeint_into(sc, buff0)
             crypto.random_scalar_into(sc)
             crypto.encodeint_into(buff_mv[i * 32 : (i + 1) * 32], sc)
             _gc_iter(i)
@@ -2343,7 +2343,7 @@ class BulletProofBuilder:
         self.assrt(len(sv) == len(gamma), "|sv| != |gamma|")
         self.assrt(len(sv) > 0, "sv empty")
 
-        self.proof_sec = b"\x00"*32  #crypto.random_bytes(64)
+        self.proof_sec = crypto.random_bytes(64)
         self._det_mask_init()
         gc.collect()
         self.sv = [crypto.encodeint(x) for x in sv]
diff --git a/monero_glue/xmr/bulletproof_cl.py b/monero_glue/xmr/bulletproof_cl.py
index 01fdd02..22163a6 100644
--- a/monero_glue/xmr/bulletproof_cl.py
+++ b/monero_glue/xmr/bulletproof_cl.py
@@ -444,7 +444,6 @@ class BulletproofMPCRunner:
         bpi, res = None, None
         if p1 == 0:
             # crypto.report_reset()
-            bp.set_prng(crypto.prng(bp.ZERO))
             bpi = bp.BulletProofBuilder()
             # bpi.gc_fnc = gc.collect
             bpi.gc_trace = self.log_trace
-- 
2.43.0


From ceb40ae21460ddb1e24585017fe20c6020c18e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:09 +0000
Subject: [PATCH 30/55] fix: prove_batch_ multiplies the blinding vector by the
 powers of y

---
 monero_glue/xmr/bulletproof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/bulletproof.py b/monero_glue/xmr/bulletproof.py
index 5519dff..3b4c0c1 100644
--- a/monero_glue/xmr/bulletproof.py
+++ b/monero_glue/xmr/bulletproof.py
@@ -2112,7 +2112,7 @@ class BulletProofBuilder:
         r0 = KeyR0(MN, N, aR, y, z)
         ypow = KeyVPowers(MN, y, raw=True)
         r1 = KeyVEval(
-            MN, lambda i, d: _sc_mul(d, sR.to(i), None, ypow[i])  # noqa: F821
+            MN, lambda i, d: _sc_mul(d, sR.to(i), None, None, ypow[i])  # noqa: F821
         )
         del aR
         self.gc(14)
-- 
2.43.0


From 32efde628961b686916778e08d84ce29e95134cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:07 +0000
Subject: [PATCH 31/55] fix: Borromean range proofs with surplus elements are
 refused

---
 monero_glue/xmr/ring_ct.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monero_glue/xmr/ring_ct.py b/monero_glue/xmr/ring_ct.py
index 662a07a..18e352b 100644
--- a/monero_glue/xmr/ring_ct.py
+++ b/monero_glue/xmr/ring_ct.py
@@ -403,6 +403,9 @@ def ver_range(C=None, rsig=None, use_bulletproof=False, decode=True):
         rsig = monero.recode_rangesig(rsig, encode=False, copy=True)
 
     if not use_bulletproof:
+        if not (len(rsig.Ci) == len(rsig.asig.s0) == len(rsig.asig.s1) == n):
+            return 0
+
         for i in range(0, n):
             CiH[i] = crypto.point_sub(rsig.Ci[i], c_H)
             C_tmp = crypto.point_add(C_tmp, rsig.Ci[i])
-- 
2.43.0


From 353f3155d4e2d0d11707de5d004731c05e390da5 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:48:30 +0000
Subject: [PATCH 32/55] fix: indices over 32 bits are refused instead of
 truncated by the trezor backend

---
 monero_glue/xmr/core/ec_trezor.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/monero_glue/xmr/core/ec_trezor.py b/monero_glue/xmr/core/ec_trezor.py
index d5bd292..ff73849 100644
--- a/monero_glue/xmr/core/ec_trezor.py
+++ b/monero_glue/xmr/core/ec_trezor.py
@@ -819,6 +819,18 @@ def generate_key_derivation(key1, key2):
     return tcry.xmr_generate_key_derivation_r(key1, key2)
 
 
+def check_u32(x):
+    """
+    The C code takes 32-bit indices, larger ones would be truncated silently.
+
+    :param x:
+    :return:
+    """
+    if not 0 <= x <= 0xFFFFFFFF:
+        raise ValueError("Index out of 32-bit range")
+    return x
+
+
 def derivation_to_scalar(derivation, output_index):
     """
     H_s(derivation || varint(output_index))
@@ -827,7 +839,7 @@ def derivation_to_scalar(derivation, output_index):
     :return:
     """
     check_ed25519point(derivation)
-    return tcry.xmr_derivation_to_scalar_r(derivation, output_index)
+    return tcry.xmr_derivation_to_scalar_r(derivation, check_u32(output_index))
 
 
 def derive_public_key(derivation, output_index, base):
@@ -843,7 +855,7 @@ def derive_public_key(derivation, output_index, base):
         raise ValueError("derive pub key bad point")
     check_ed25519point(base)
 
-    return tcry.xmr_derive_public_key_r(derivation, output_index, base)
+    return tcry.xmr_derive_public_key_r(derivation, check_u32(output_index), base)
 
 
 def derive_secret_key(derivation, output_index, base):
@@ -856,7 +868,7 @@ def derive_secret_key(derivation, output_index, base):
     """
     if sc_check(base) != 0:
         raise ValueError("cs_check in derive_secret_key")
-    return tcry.xmr_derive_private_key_r(derivation, output_index, base)
+    return tcry.xmr_derive_private_key_r(derivation, check_u32(output_index), base)
 
 
 def get_subaddress_secret_key(secret_key, major=0, minor=0):
@@ -870,7 +882,7 @@ def get_subaddress_secret_key(secret_key, major=0, minor=0):
     :param minor:
     :return:
     """
-    return tcry.xmr_get_subaddress_secret_key_r(major, minor, secret_key)
+    return tcry.xmr_get_subaddress_secret_key_r(check_u32(major), check_u32(minor), secret_key)
 
 
 def prove_range(amount, last_mask=None):
-- 
2.43.0


From a42abe4204057884002244b823327588d64c1abb Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:53:26 +0000
Subject: [PATCH 33/55] fix: decoding an output's amount leaves the transaction
 as it was

---
 monero_glue/xmr/monero.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/monero.py b/monero_glue/xmr/monero.py
index 2b3b33a..2ab0e48 100644
--- a/monero_glue/xmr/monero.py
+++ b/monero_glue/xmr/monero.py
@@ -316,7 +316,7 @@ def ecdh_decode_simple(rv, sk, i, v2=False):
         raise ValueError("outPk vs ecdhInfo mismatch")
 
     ecdh_info = rv.ecdhInfo[i]
-    ecdh_info = recode_ecdh(ecdh_info, False)
+    ecdh_info = recode_ecdh(copy_ecdh(ecdh_info), False)
 
     ecdh_info = ring_ct.ecdh_decode(ecdh_info, derivation=crypto.encodeint(sk), v2=v2)
 
-- 
2.43.0


From 215091d7faed3d60d693ac93dc13039558e4697a Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 23:28:15 +0000
Subject: [PATCH 34/55] fix: keys file reader ends the key data at its closing
 quote

---
 monero_glue/xmr/wallet.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/monero_glue/xmr/wallet.py b/monero_glue/xmr/wallet.py
index f27dc15..f51d0f9 100644
--- a/monero_glue/xmr/wallet.py
+++ b/monero_glue/xmr/wallet.py
@@ -108,7 +108,10 @@ async def load_keys_data(data, password):
     buff = bytes(msg.iv + msg.account_data)
     dec = chacha.decrypt(key, buff)
 
-    m = re.search(b'(.*)"key_data":"(.+?)",(.*)', dec)
+    # key data is an escaped string, ends with the first quote not escaped
+    m = re.search(
+        b'''(.*?)"key_data":"((?:[^"\\\\]|\\\\.)+)",(.*)''', dec, flags=re.DOTALL
+    )
     key_data = m.group(2)
 
     dat = xmrjson.unescape_json_str(key_data)
-- 
2.43.0


From 5eb66345a062a65f6b0c01e2afa26656178080b7 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 23:28:15 +0000
Subject: [PATCH 35/55] fix: writing a keys file leaves the wallet object as it
 was

---
 monero_glue/xmr/wallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/wallet.py b/monero_glue/xmr/wallet.py
index f51d0f9..7b26400 100644
--- a/monero_glue/xmr/wallet.py
+++ b/monero_glue/xmr/wallet.py
@@ -151,7 +151,7 @@ async def gen_keys_file(password, wkeyfile):
     :return:
     """
     key_data = wkeyfile.key_data  # type: WalletKeyData
-    js = wkeyfile.to_json()
+    js = dict(wkeyfile.to_json())
     del js["key_data"]
 
     # encode wallet key file wth classical json encoder, key data added later with monero encoding.
-- 
2.43.0


From e36e897b8cbc75c01191ac218fed733a684e43cd Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 23:28:15 +0000
Subject: [PATCH 36/55] fix: keys file holds the whole creation timestamp

---
 monero_glue/xmr/wallet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monero_glue/xmr/wallet.py b/monero_glue/xmr/wallet.py
index 7b26400..163dee2 100644
--- a/monero_glue/xmr/wallet.py
+++ b/monero_glue/xmr/wallet.py
@@ -160,6 +160,9 @@ async def gen_keys_file(password, wkeyfile):
     # key_data KV serialization. Message -> Model.
     modeler = xmrrpc.Modeler(writing=True, modelize=True)
     mdl = await modeler.message(msg=key_data)
+    mdl["m_creation_timestamp"] = xmrrpc.IntegerModel(
+        key_data.m_creation_timestamp, xmrrpc.SerializeType.UINT64
+    )
 
     # Model -> binary
     writer = xmrserialize.MemoryReaderWriter()
-- 
2.43.0


From 70a20c2e80ba349d73f5197232200c2e54545d2e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 23:28:15 +0000
Subject: [PATCH 37/55] fix: signatures of wallet files with unreduced scalars
 are refused

---
 monero_glue/xmr/enc/chacha.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/monero_glue/xmr/enc/chacha.py b/monero_glue/xmr/enc/chacha.py
index 092d23f..ac09ee9 100644
--- a/monero_glue/xmr/enc/chacha.py
+++ b/monero_glue/xmr/enc/chacha.py
@@ -51,7 +51,9 @@ def decrypt_xmr(priv_key, ciphertext, authenticated=True):
         pub = crypto.scalarmult_base(priv_key)
         c = crypto.decodeint(signature[:32])
         r = crypto.decodeint(signature[32:])
-        res = crypto.check_signature(hash, c, r, pub)
+        # scalars have one encoding only
+        canonical = crypto.encodeint(c) + crypto.encodeint(r) == bytes(signature)
+        res = canonical and crypto.check_signature(hash, c, r, pub)
         if not res:
             raise ValueError("Signature invalid")
 
-- 
2.43.0


From dffbdf5894aa31d581f5157984e32cd52e29fa32 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 23:30:43 +0000
Subject: [PATCH 38/55] fix: signed sets and records are written in a version
 that can be read back

---
 monero_glue/xmr/wallet.py | 5 +++--
 monero_poc/agent.py       | 8 ++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/monero_glue/xmr/wallet.py b/monero_glue/xmr/wallet.py
index 163dee2..d464686 100644
--- a/monero_glue/xmr/wallet.py
+++ b/monero_glue/xmr/wallet.py
@@ -236,16 +236,17 @@ async def dump_unsigned_tx(priv_key, unsigned_tx, hf=9):
     return UNSIGNED_TX_PREFIX + ciphertext
 
 
-async def dump_signed_tx(priv_key, signed_tx):
+async def dump_signed_tx(priv_key, signed_tx, hf=10):
     """
     Dumps signed_tx to a file as wallet produces
 
     :param priv_key:
     :param signed_tx:
+    :param hf:
     :return:
     """
     writer = xmrserialize.MemoryReaderWriter()
-    ar = xmrboost.Archive(writer, True)
+    ar = xmrboost.Archive(writer, True, xmrtypes.hf_versions(hf))
     try:
         await ar.root()
         await ar.message(signed_tx)
diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index 016d5f8..95faef8 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -1468,7 +1468,9 @@ class HostAgent(cli.BaseCli):
         # Key images array has to cover all transfers sent.
         # Watch only wallet does not have key images.
         signed_tx = xmrtypes.SignedTxSet(ptx=pendings, key_images=key_images)
-        signed_data = await wallet.dump_signed_tx(self.priv_view, signed_tx)
+        signed_data = await wallet.dump_signed_tx(
+            self.priv_view, signed_tx, hf=self.agent.hf
+        )
         with open("signed_monero_tx", "wb+") as fh:
             fh.write(signed_data)
             print("Signed transaction file: signed_monero_tx")
@@ -1525,7 +1527,9 @@ class HostAgent(cli.BaseCli):
         unsigned_data.transfers = transfers if transfers is not None else []
 
         writer = xmrserialize.MemoryReaderWriter()
-        ar = xmrboost.Archive(writer, True)
+        ar = xmrboost.Archive(
+            writer, True, xmrtypes.hf_versions(self.agent.hf)
+        )
         await ar.root()
         await ar.message(unsigned_data)
 
-- 
2.43.0


From 43208c35cec52433aece8ba8cc70508cac00d35d Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 23:30:43 +0000
Subject: [PATCH 39/55] fix: an outputs export with data left over is refused

---
 monero_glue/xmr/wallet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monero_glue/xmr/wallet.py b/monero_glue/xmr/wallet.py
index d464686..9855ed5 100644
--- a/monero_glue/xmr/wallet.py
+++ b/monero_glue/xmr/wallet.py
@@ -331,6 +331,9 @@ async def load_exported_outputs(priv_key, data):
         if exps_root[0] != 0:
             raise ValueError('Offset has to be 0')
 
+    if not reader.is_empty():
+        raise ValueError("Exported outputs contain unexpected data")
+
     return OutputsDump(
         m_spend_public_key=spend_pub, m_view_public_key=view_pub, tds=exps
     )
-- 
2.43.0


From 0d3d76301f7371e71c578143cfe420763a09f958 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 23:36:56 +0000
Subject: [PATCH 40/55] fix: restore height is confirmed again only once it is
 entered anew

---
 monero_poc/agent.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index 95faef8..d19a439 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -750,6 +750,7 @@ class HostAgent(cli.BaseCli):
                     == self.PROCEED_YES
                 ):
                     break
+                sure_stage = False
 
             height = misc.py_raw_input("Restore height: ").strip().lower()
             if height == "-":
-- 
2.43.0


From 6fb58e7ee7197d7b8d9ae344283dc2547de46dcb Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 23:43:49 +0000
Subject: [PATCH 41/55] fix: the server asks for one confirmation of a kind at
 a time and an answer counts for the request shown

---
 monero_poc/trezor.py     | 21 +++++--------
 monero_poc/utils/misc.py | 67 ++++++++++++++++------------------------
 2 files changed, 33 insertions(+), 55 deletions(-)

diff --git a/monero_poc/trezor.py b/monero_poc/trezor.py
index ab46331..8e7654d 100644
--- a/monero_poc/trezor.py
+++ b/monero_poc/trezor.py
@@ -48,7 +48,6 @@ class TokenInterface(iface.TokenInterface):
         self.tsx_waiter = misc.CliPrompt(pre_wait_hook=server.update_prompt)
         self.ki_sync_waiter = misc.CliPrompt(pre_wait_hook=server.update_prompt)
         self.tsx_data = None
-        self.confirmed_result = False
 
     def get_tx_data(self):
         return self.tsx_data
@@ -58,19 +57,14 @@ class TokenInterface(iface.TokenInterface):
         return self.tsx_waiter.in_confirmation
 
     def confirmation(self, confirmed):
-        self.confirmed_result = confirmed
         self.tsx_waiter.confirmation(confirmed)
 
     async def confirm_transaction(self, tsx_data, creds=None, ctx=None):
-        self.confirmed_result = False
-        self.tsx_data = tsx_data
-        try:
+        def on_start():
+            self.tsx_data = tsx_data
             self.server.on_confirm_start()
-            self.tsx_waiter.wait_confirmation()
-            return self.confirmed_result
 
-        finally:
-            self.tsx_data = None
+        return self.tsx_waiter.wait_confirmation(on_start)
 
     async def transaction_signed(self, ctx=None):
         logger.debug("Transaction signed")
@@ -85,9 +79,9 @@ class TokenInterface(iface.TokenInterface):
         logger.debug("Transaction step: %s, sub step: %s" % (step, sub_step))
 
     async def confirm_ki_sync(self, init_msg, ctx=None):
-        self.server.on_confirm_ki_sync(init_msg)
-        self.ki_sync_waiter.wait_confirmation()
-        return self.ki_sync_waiter.confirmed_result
+        return self.ki_sync_waiter.wait_confirmation(
+            lambda: self.server.on_confirm_ki_sync(init_msg)
+        )
 
     async def ki_error(self, e, ctx=None):
         logger.error("ki sync error: %s" % e)
@@ -307,8 +301,7 @@ class TrezorServer(cli.BaseCli):
             return abort(406)
 
         # Prompt user to confirm.
-        self.on_watchonly()
-        confirmed = self.watch_only_waiter.wait_confirmation()
+        confirmed = self.watch_only_waiter.wait_confirmation(self.on_watchonly)
 
         if not confirmed:
             logger.warning("Watch only rejected")
diff --git a/monero_poc/utils/misc.py b/monero_poc/utils/misc.py
index f2c0e2a..1ff8698 100644
--- a/monero_poc/utils/misc.py
+++ b/monero_poc/utils/misc.py
@@ -52,62 +52,47 @@ class TrezorAddressMismatchError(TrezorError):
 class CliPrompt(object):
     """
     Synchronous CLI confirmation waiter.
+    Handles one request at a time, the answer belongs to the request being confirmed.
     """
 
     def __init__(self, pre_wait_hook=None, *args, **kwargs):
         self.in_confirmation = False
         self.conf_evt = None
-        self.confirmed_result = False
+        self.answer = None
+        self.lock = threading.Lock()
         self.pre_wait_hook = pre_wait_hook
 
     def confirmation(self, confirmed):
-        self.confirmed_result = confirmed
-        self.in_confirmation = False
-        self.conf_evt.set()
-
-    def _init_wait(self):
-        self.in_confirmation = True
-        self.confirmed_result = False
-        self.conf_evt = threading.Event()
-
-    def wait_confirmation(self):
-        """
-        Synchronous waiting
-        :return:
-        """
-        self._init_wait()
-        if self.pre_wait_hook:
-            self.pre_wait_hook()
-
-        try:
-            self.conf_evt.wait()
-            return self.confirmed_result
-
-        finally:
+        with self.lock:
+            if not self.in_confirmation:
+                return
             self.in_confirmation = False
+            self.answer.append(confirmed)
+            self.conf_evt.set()
 
-    async def async_wait_confirmation(self):
+    def wait_confirmation(self, on_start=None):
         """
-        Asynchronous waiting
-        Asyncio waiting not implemented.
-
-        :return:
+        Synchronous waiting
+        :param on_start: called when the confirmation of this request starts
+        :return: True if this request was confirmed, False if it was rejected or if the user is already
+                 being asked to confirm another one
         """
-        self._init_wait()
-        try:
-            # TODO: asyncio wait
-            # TODO: eventlet could require another locking mechanism
-            self.conf_evt.wait()
-            return self.confirmed_result
+        with self.lock:
+            if self.in_confirmation:
+                logger.warning("Another request is being confirmed")
+                return False
 
-        finally:
-            self.in_confirmation = False
+            if on_start:
+                on_start()
+            self.in_confirmation = True
+            self.conf_evt = conf_evt = threading.Event()
+            self.answer = answer = []
 
-    def __enter__(self):
-        self._init_wait()
+        if self.pre_wait_hook:
+            self.pre_wait_hook()
 
-    def __exit__(self, exc_type, exc_val, exc_tb):
-        self.in_confirmation = False
+        conf_evt.wait()
+        return answer == [True]
 
 
 def py_raw_input(question=None):
-- 
2.43.0


From 6cb9402758dd7619930d72e2d0619d8af1612fa9 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 23:43:49 +0000
Subject: [PATCH 42/55] fix: watch-only credentials of the emulated token hold
 the encoded view key

---
 monero_glue/hwtoken/token.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/hwtoken/token.py b/monero_glue/hwtoken/token.py
index b14da3f..f7bbd6e 100644
--- a/monero_glue/hwtoken/token.py
+++ b/monero_glue/hwtoken/token.py
@@ -105,7 +105,7 @@ class TokenLite(object):
             return Failure(message="InvalidNetworkType")
 
         return MoneroWatchKey(
-            watch_key=crypto.encodepoint(self.creds.view_key_private),
+            watch_key=crypto.encodeint(self.creds.view_key_private),
             address=self.creds.address,
         )
 
-- 
2.43.0


From 3e30120397ec7f21f183bc0e3ff3ebaa5c61af39 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:46:40 +0000
Subject: [PATCH 43/55] fix: non-canonical point encodings and short encodings
 are refused by both backends

A y of q or more and x = 0 with the sign set were decoded as the point they
reduce to, and the trezor backend padded short buffers with zeros.
---
 monero_glue/xmr/core/ec_base.py   | 14 ++++++++++++++
 monero_glue/xmr/core/ec_py.py     |  2 +-
 monero_glue/xmr/core/ec_trezor.py | 31 ++++++++++++++++++++++++-------
 3 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/monero_glue/xmr/core/ec_base.py b/monero_glue/xmr/core/ec_base.py
index 033c209..c1ff038 100644
--- a/monero_glue/xmr/core/ec_base.py
+++ b/monero_glue/xmr/core/ec_base.py
@@ -68,6 +68,20 @@ py_fe_fffb4 = (
 NULL_KEY_ENC = b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00"
 
 
+def check_point_encoding(x):
+    """
+    Accepts only the encoding a point encodes to: y is reduced and x = 0 has a positive sign.
+
+    :param x:
+    :return:
+    """
+    y = int.from_bytes(x[:32], "little")
+    sign, y = y >> 255, y & ((1 << 255) - 1)
+    if len(x) < 32 or y >= py_q or (sign and y in (1, py_q - 1)):
+        raise ValueError("Invalid point encoding")
+    return x
+
+
 def pow2(x, p):
     """== pow(x, 2**p, q)"""
     while p > 0:
diff --git a/monero_glue/xmr/core/ec_py.py b/monero_glue/xmr/core/ec_py.py
index d9afc0a..3c87c2f 100644
--- a/monero_glue/xmr/core/ec_py.py
+++ b/monero_glue/xmr/core/ec_py.py
@@ -107,7 +107,7 @@ class EdPoint(object):
         elif isinstance(src, tuple):
             self.v = src
         else:
-            self.v = _decodepoint(src[offset:])
+            self.v = _decodepoint(check_point_encoding(src[offset:]))
         return self
 
     def __repr__(self):
diff --git a/monero_glue/xmr/core/ec_trezor.py b/monero_glue/xmr/core/ec_trezor.py
index ff73849..ff854e9 100644
--- a/monero_glue/xmr/core/ec_trezor.py
+++ b/monero_glue/xmr/core/ec_trezor.py
@@ -164,12 +164,30 @@ def _offset(x, offset=0):
     return memoryview(x)[offset:]
 
 
+def _key_buff(x, offset=0):
+    """
+    32 B of the buffer. Shorter ones would be padded with zeros by ctypes.
+
+    :param x:
+    :param offset:
+    :return:
+    """
+    bb = _offset(x, offset)[:32]
+    if len(bb) != 32:
+        raise ValueError("Invalid encoding length")
+    return tcry.KEY_BUFF(*bb)
+
+
 def decodepoint(x, offset=0):
-    return tcry.ge25519_unpack_vartime_r(tcry.KEY_BUFF(*_offset(x, offset)[:32]))
+    bf = _key_buff(x, offset)
+    check_point_encoding(bytes(bf))
+    return tcry.ge25519_unpack_vartime_r(bf)
 
 
 def decodepoint_into(r, x, offset=0):
-    tcry.ge25519_unpack_vartime(r, tcry.KEY_BUFF(*_offset(x, offset)[:32]))
+    bf = _key_buff(x, offset)
+    check_point_encoding(bytes(bf))
+    tcry.ge25519_unpack_vartime(r, bf)
     return r
 
 
@@ -184,22 +202,21 @@ def encodepoint_into(b, pt, offset=0):
 
 
 def decodeint(x, offset=0):
-    return tcry.expand256_modm_r(tcry.KEY_BUFF(*_offset(x, offset)))
+    return tcry.expand256_modm_r(_key_buff(x, offset))
 
 
 def decodeint_noreduce(x, offset=0):
-    return tcry.expand_raw256_modm_r(tcry.KEY_BUFF(*_offset(x, offset)))
+    return tcry.expand_raw256_modm_r(_key_buff(x, offset))
 
 
 def decodeint_into(r, x, offset=0):
-    bb = _offset(x, offset)[:32]
-    tcry.expand256_modm(r, tcry.KEY_BUFF(*bb), 32)
+    tcry.expand256_modm(r, _key_buff(x, offset), 32)
     return r
 
 
 def decodeint_into_noreduce(r, x, offset=0):
     r = r if r else new_scalar()
-    tcry.expand_raw256_modm(r, tcry.KEY_BUFF(*_offset(x, offset)))
+    tcry.expand_raw256_modm(r, _key_buff(x, offset))
     return r
 
 
-- 
2.43.0


From 5d8a96d15880945b99e8cfff60b609af91cb2150 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:46:40 +0000
Subject: [PATCH 44/55] fix: numbers outside 64 bits are refused where the
 trezor backend would truncate them

---
 monero_glue/xmr/core/ec_py.py     | 4 ++--
 monero_glue/xmr/core/ec_trezor.py | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/monero_glue/xmr/core/ec_py.py b/monero_glue/xmr/core/ec_py.py
index 3c87c2f..284f91f 100644
--- a/monero_glue/xmr/core/ec_py.py
+++ b/monero_glue/xmr/core/ec_py.py
@@ -448,14 +448,14 @@ def sc_0_into(r):
 
 
 def sc_init(x):
-    if x >= (1 << 64):
+    if not 0 <= x < (1 << 64):
         raise ValueError("Initialization works up to 64-bit only")
     return EdScalar(x)
 
 
 def sc_init_into(r, x):
     r = r if r else new_scalar()
-    if x >= (1 << 64):
+    if not 0 <= x < (1 << 64):
         raise ValueError("Initialization works up to 64-bit only")
     return r.init(x)
 
diff --git a/monero_glue/xmr/core/ec_trezor.py b/monero_glue/xmr/core/ec_trezor.py
index ff854e9..d67d45c 100644
--- a/monero_glue/xmr/core/ec_trezor.py
+++ b/monero_glue/xmr/core/ec_trezor.py
@@ -303,7 +303,7 @@ def sc_init(x):
     Sets x to the scalar value Zmod(m)
     :return:
     """
-    if x >= (1 << 64):
+    if not 0 <= x < (1 << 64):
         raise ValueError("Initialization works up to 64-bit only")
     return tcry.init256_modm_r(x)
 
@@ -320,7 +320,7 @@ def sc_init_into(r, x):
     :return:
     """
     r = r if r else new_scalar()
-    if x >= (1 << 64):
+    if not 0 <= x < (1 << 64):
         raise ValueError("Initialization works up to 64-bit only")
     tcry.init256_modm(r, x)
     return r
@@ -816,6 +816,8 @@ def gen_c(a, amount):
     :param amount:
     :return:
     """
+    if not 0 <= amount < (1 << 64):
+        raise ValueError("Amount out of 64-bit range")
     return tcry.xmr_gen_c_r(a, amount)
 
 
-- 
2.43.0


From 3810a129526f76bb9b94bb926dc42309c13581c6 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:54:32 +0000
Subject: [PATCH 45/55] fix: amounts shown for confirmation are exact

The emulated token showed amounts and the fee with eight decimal places, computed in floating
point: amounts below 0.000000005 were shown as zero.
---
 monero_glue/xmr/wallet.py | 13 +++++++++++++
 monero_poc/trezor.py      |  8 ++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/monero_glue/xmr/wallet.py b/monero_glue/xmr/wallet.py
index 9855ed5..d62afb6 100644
--- a/monero_glue/xmr/wallet.py
+++ b/monero_glue/xmr/wallet.py
@@ -296,6 +296,19 @@ def conv_disp_amount(amount):
     return amount / float(10 ** monero.DISPLAY_DECIMAL_POINT)
 
 
+def format_amount(amount):
+    """
+    Monero uint64 to text with all decimal places, exact
+    :param amount:
+    :return:
+    """
+    return "%d.%0*d" % (
+        amount // 10 ** monero.DISPLAY_DECIMAL_POINT,
+        monero.DISPLAY_DECIMAL_POINT,
+        amount % 10 ** monero.DISPLAY_DECIMAL_POINT,
+    )
+
+
 async def load_exported_outputs(priv_key, data):
     """
     Loads exported outputs file
diff --git a/monero_poc/trezor.py b/monero_poc/trezor.py
index 8e7654d..ea5a054 100644
--- a/monero_poc/trezor.py
+++ b/monero_poc/trezor.py
@@ -449,7 +449,7 @@ class TrezorServer(cli.BaseCli):
         self.poutput("Key image sync procedure\nEnter K to start\n")
 
     def conv_disp_amount(self, amount):
-        return wallet.conv_disp_amount(amount)
+        return wallet.format_amount(amount)
 
     def do_T(self, line):
         if not self.trez_iface.in_confirmation:
@@ -482,7 +482,7 @@ class TrezorServer(cli.BaseCli):
             )
             if addr != addr_chg:
                 self.poutput(
-                    "  Output %2d: %12.8f to %s, sub: %s"
+                    "  Output %2d: %17s to %s, sub: %s"
                     % (
                         idx,
                         self.conv_disp_amount(out.amount),
@@ -492,7 +492,7 @@ class TrezorServer(cli.BaseCli):
                 )
             else:
                 self.poutput(
-                    "  Change:    %12.8f to %s, sub: %s"
+                    "  Change:    %17s to %s, sub: %s"
                     % (
                         self.conv_disp_amount(out.amount),
                         addr.decode("utf8"),
@@ -500,7 +500,7 @@ class TrezorServer(cli.BaseCli):
                     )
                 )
 
-        self.poutput("  Fee: %.8f" % self.conv_disp_amount(tsx_data.fee))
+        self.poutput("  Fee: %s" % self.conv_disp_amount(tsx_data.fee))
         self.poutput("  Account: %s" % tsx_data.account)
 
         self.poutput("- " * 40)
-- 
2.43.0


From dc4281ec4d98be6eab958888c8d65fe7c93a2ca3 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 03:17:13 +0000
Subject: [PATCH 46/55] fix: amounts and fees shown by the wallet tool are
 exact

---
 monero_poc/agent.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index d19a439..840767d 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -1310,9 +1310,9 @@ class HostAgent(cli.BaseCli):
         )
         fees = common.defvalkey(result, "fee_list", [common.defvalkey(result, "fee")])
         for idx in range(len(amounts)):
-            st = "Amount: %s" % wallet.conv_disp_amount(amounts[idx])
+            st = "Amount: %s" % wallet.format_amount(amounts[idx])
             if idx < len(fees):
-                st += ", Fee: %s" % wallet.conv_disp_amount(fees[idx])
+                st += ", Fee: %s" % wallet.format_amount(fees[idx])
             self.poutput(st)
 
         ask_res = self.ask_proceed_quit("Do you confirm (y/n) ? ")
@@ -1335,9 +1335,9 @@ class HostAgent(cli.BaseCli):
         )
         fees = common.defvalkey(result, "fee_list", [common.defvalkey(result, "fee")])
         for idx in range(len(amounts)):
-            st = "Amount: %s" % wallet.conv_disp_amount(amounts[idx])
+            st = "Amount: %s" % wallet.format_amount(amounts[idx])
             if idx < len(fees):
-                st += ", Fee: %s" % wallet.conv_disp_amount(fees[idx])
+                st += ", Fee: %s" % wallet.format_amount(fees[idx])
             self.poutput(st)
 
         ask_res = self.ask_proceed_quit("Do you confirm (y/n) ? ")
-- 
2.43.0


From 2f822615a58474575e77c1209ef5c02db4a34104 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 03:24:04 +0000
Subject: [PATCH 47/55] fix: trezor_init loads the mnemonic given on the
 command line

---
 monero_poc/trezor_init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_poc/trezor_init.py b/monero_poc/trezor_init.py
index 81cd55d..23f5c16 100644
--- a/monero_poc/trezor_init.py
+++ b/monero_poc/trezor_init.py
@@ -83,7 +83,7 @@ def main():
 
     mnemonic = mnemonic24 if args.mnemonic_idx == 1 else mnemonic12
     if args.mnemonic:
-        mnemonic = mnemonic
+        mnemonic = args.mnemonic
 
     wirelink = get_transport(path)
     client = (
-- 
2.43.0


From 4de3661819e180094d2b3dc9d42f35245f9a249d Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 03:32:08 +0000
Subject: [PATCH 48/55] fix: commands work with an already running wallet RPC

---
 monero_poc/agent.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index 840767d..c85189f 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -1141,6 +1141,7 @@ class HostAgent(cli.BaseCli):
             self.wallet_proxy.set_addr(self.args.wallet_rpc_addr)
             self.wallet_proxy.set_creds(self.args.wallet_rpc_creds)
             self.rpc_running = True
+            self.rpc_ready = True
             self.update_prompt()
             return
 
-- 
2.43.0


From 78d7dac82b22ef197ed2bd2a1a561d6f985dd69b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 03:32:08 +0000
Subject: [PATCH 49/55] fix: the wallet RPC of a stage network wallet runs on
 the stage network

---
 monero_poc/agent.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index c85189f..adf004d 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -971,6 +971,8 @@ class HostAgent(cli.BaseCli):
 
         if self.args.testnet or self.network_type == monero.NetworkTypes.TESTNET:
             args.append("--testnet")
+        elif self.network_type == monero.NetworkTypes.STAGENET:
+            args.append("--stagenet")
         if self.args.debug_rpc:
             logger.debug("RPC credentials: trezor:%s" % self.rpc_passwd)
 
-- 
2.43.0


From 989fb44e8e2dccf915b267ea24c78de1a06ce9f6 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 03:32:08 +0000
Subject: [PATCH 50/55] fix: wallet RPC in a directory with special characters
 is started, and gets the signal to stop

---
 monero_poc/agent.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index adf004d..362cc07 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -979,7 +979,8 @@ class HostAgent(cli.BaseCli):
         def preexec_function():
             os.setpgrp()
 
-        cmd = "%s %s" % (rpc_cmd, " ".join(args))
+        # exec: signals go to the wallet RPC, not to the shell that starts it
+        cmd = "exec %s %s" % (misc.escape_shell(rpc_cmd), " ".join(args))
         feeder = misc.Feeder()
         p = misc.run(
             cmd,
-- 
2.43.0


From 8bee3b91e050b0167196ad97deb00a778a3ead29 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 03:32:08 +0000
Subject: [PATCH 51/55] fix: any output of the wallet RPC can be read

---
 monero_poc/agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index 362cc07..34fc41b 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -1034,7 +1034,7 @@ class HostAgent(cli.BaseCli):
                 self.on_rpc_ready()
 
         def add_output(buffers, is_err=False):
-            buffers = [x.decode("utf8") for x in buffers]
+            buffers = [x.decode("utf8", "replace") for x in buffers]
             lines = [""]
 
             dst_cur = err_cur if is_err else out_cur
-- 
2.43.0


From 3f81a73de830e98a0fb217e2e4bd038024e3b62b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 03:47:27 +0000
Subject: [PATCH 52/55] fix: a view key that is not that of the address is
 noticed

---
 monero_poc/agent.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index 34fc41b..92af267 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -487,7 +487,7 @@ class HostAgent(cli.BaseCli):
 
             self.priv_view = crypto.decodeint(res.watch_key)
             self.set_address(res.address)
-            await self.open_with_keys(self.priv_view, self.address)
+            await self.open_with_keys(self.priv_view, res.address)
 
         except Exception as e:
             if not self.args:
@@ -869,7 +869,9 @@ class HostAgent(cli.BaseCli):
         self.set_address(self.args.address.encode("ascii"))
         self.wallet_file = self.args.watch_wallet
         self.monero_bin = self.args.monero_bin
-        await self.open_with_keys(self.priv_view, self.address)
+        await self.open_with_keys(
+            self.priv_view, self.args.address.encode("ascii")
+        )
 
     async def open_account_file(self, file):
         """
@@ -905,7 +907,7 @@ class HostAgent(cli.BaseCli):
         self.set_address(js["address"].encode("utf8"))
         self.rpc_addr = js["rpc_addr"]
 
-        await self.open_with_keys(self.priv_view, self.address)
+        await self.open_with_keys(self.priv_view, js["address"].encode("utf8"))
 
     async def open_with_keys(self, view_key, address):
         """
-- 
2.43.0


From d2772d58c1b47a8e84fa70a2719fb66376004e24 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 03:47:27 +0000
Subject: [PATCH 53/55] fix: keys that could not be loaded from the device are
 not used

---
 monero_poc/agent.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index 92af267..08d1c98 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -490,7 +490,10 @@ class HostAgent(cli.BaseCli):
             await self.open_with_keys(self.priv_view, res.address)
 
         except Exception as e:
-            if not self.args:
+            # Keys that do not belong together must not be used
+            self.priv_view, self.pub_view, self.pub_spend = None, None, None
+            self.address, self.address_info, self.address_base_info = None, None, None
+            if not self.args.no_init:
                 raise ValueError(e)
             else:
                 logger.warning("Loading watch-only keys failed (but init is not required), %s" % (e,))
-- 
2.43.0


From ae916aec2d3ab0352d5edd6d764ebb54c14b5acb Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 03:47:27 +0000
Subject: [PATCH 54/55] fix: messages nested in replies of a Trezor device are
 converted too

---
 monero_glue/protocol_base/messages.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/monero_glue/protocol_base/messages.py b/monero_glue/protocol_base/messages.py
index 1d6d023..080f512 100644
--- a/monero_glue/protocol_base/messages.py
+++ b/monero_glue/protocol_base/messages.py
@@ -91,13 +91,17 @@ class MessageConverter(object):
                 field_name = field[0]
                 if hasattr(msg, field_name):
                     cval = getattr(msg, field_name, None)
-                    setattr(nmsg, field_name, self.to_trezorlib(cval))
+                    setattr(
+                        nmsg, field_name, self._transform(cval, src_proto, dst_package)
+                    )
             return nmsg
 
         elif isinstance(msg, list):
-            return [self.to_trezorlib(x) for x in msg]
+            return [self._transform(x, src_proto, dst_package) for x in msg]
         elif isinstance(msg, dict):
-            return {v: self.to_trezorlib(x) for v, x in msg.items()}
+            return {
+                v: self._transform(x, src_proto, dst_package) for v, x in msg.items()
+            }
         else:
             return msg
 
-- 
2.43.0


From 53de6147e9eec0015b22803052d6234454b40f21 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:03:32 +0000
Subject: [PATCH 55/55] fix: sweeps are made only with the device of the wallet
 attached

---
 monero_poc/agent.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index 08d1c98..db4629c 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -311,6 +311,7 @@ class HostAgent(cli.BaseCli):
         if not self.check_rpc():
             return
 
+        self.check_address()
         res = self.wallet_proxy.sweep_dust({"do_not_relay": True})
         if "result" not in res:
             logger.error("Sweep dust error: %s" % res)
@@ -324,6 +325,7 @@ class HostAgent(cli.BaseCli):
         if not self.check_rpc():
             return
 
+        self.check_address()
         if len(line) == 0:
             self.poutput(
                 "sweep_all [index=<N1>[,<N2>,...]] [<priority>] [<ring_size>] <address> [<payment_id>]"
@@ -337,6 +339,7 @@ class HostAgent(cli.BaseCli):
         if not self.check_rpc():
             return
 
+        self.check_address()
         if len(line) == 0:
             self.poutput(
                 "sweep_below <amount_threshold> [index=<N1>[,<N2>,...]] [<priority>] [<ring_size>] <address> [<payment_id>]"
@@ -350,6 +353,7 @@ class HostAgent(cli.BaseCli):
         if not self.check_rpc():
             return
 
+        self.check_address()
         if len(line) == 0:
             self.poutput(
                 "sweep_single [<priority>] [<ring_size>] <key_image> <address> [<payment_id>]"
-- 
2.43.0

