From 8ee0ace67809b5411a458921ca1252db91f9afc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:14 +0000
Subject: [PATCH 01/40] fix: immutable ByteData keeps no caller-mutable
 attributes and refuses del

---
 riemann/tx/shared.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/riemann/tx/shared.py b/riemann/tx/shared.py
index f478326..2686f27 100644
--- a/riemann/tx/shared.py
+++ b/riemann/tx/shared.py
@@ -80,6 +80,11 @@ class ByteData():
             raise TypeError("%r cannot be written to." % self)
         object.__setattr__(self, key, value)
 
+    def __delattr__(self, key: str):
+        if self.__immutable:
+            raise TypeError("%r cannot be written to." % self)
+        object.__delattr__(self, key)
+
     def __format__(self, code):
         '''
         ByteData -> str
@@ -114,6 +119,12 @@ class ByteData():
         Prevents any future changes to the object
         '''
         self._bytes = bytes(self._bytes)
+        # Attributes may be byte-likes that the caller can still change
+        for key, value in list(vars(self).items()):
+            if isinstance(value, bytearray):
+                setattr(self, key, bytes(value))
+            elif isinstance(value, ByteData) and not value.__immutable:
+                setattr(self, key, value.to_bytes())
         self.__immutable = True
 
     def find(self, substring: Byteslike) -> int:
-- 
2.43.0


From 2f03a253f9327387c6a7c91839b1e4a3f5e707a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:14 +0000
Subject: [PATCH 02/40] fix: DecredTx stores its vectors as tuples, not the
 caller's lists

---
 riemann/tx/decred.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index 5084d15..01d474b 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -251,11 +251,11 @@ class DecredTx(DecredByteData):
             self += tx_witness
 
         self.version = version
-        self.tx_ins = tx_ins
-        self.tx_outs = tx_outs
+        self.tx_ins = tuple(tx_in for tx_in in tx_ins)
+        self.tx_outs = tuple(tx_out for tx_out in tx_outs)
         self.lock_time = lock_time
         self.expiry = expiry
-        self.tx_witnesses = tx_witnesses
+        self.tx_witnesses = tuple(tx_witness for tx_witness in tx_witnesses)
 
         if len(self) > 100000:
             raise ValueError(
-- 
2.43.0


From f307f886f586c59ddb4eb0bce7b43851c07c4ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:11 +0000
Subject: [PATCH 03/40] fix: VarInt.from_bytes requires every byte and keeps a
 non-compact form intact

A prefix followed by too few bytes was accepted as a smaller number, values
253-255 were taken for non-compact, and non-compact values re-serialized
differently from the bytes they were read from.
---
 riemann/tx/shared.py | 27 +++++++++++++++------------
 riemann/tx/tx.py     | 14 +++++++-------
 2 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/riemann/tx/shared.py b/riemann/tx/shared.py
index 2686f27..439a810 100644
--- a/riemann/tx/shared.py
+++ b/riemann/tx/shared.py
@@ -183,15 +183,15 @@ class VarInt(ByteData):
             raise ValueError('VarInt cannot be greater than (2 ** 64) - 1. '
                              'Got: {}'
                              .format(number))
-        if number <= 0xfc:
+        if number <= 0xfc and length not in [3, 5, 9]:
             pass  # No prefix
-        elif number <= 0xffff or length == 3:
+        elif number <= 0xffff and length not in [5, 9]:
             self += bytes([0xfd])
             length = 3
-        elif number <= 0xffffffff or length == 5:
+        elif number <= 0xffffffff and length != 9:
             self += bytes([0xfe])
             length = 5
-        elif number <= 0xffffffffffffffff or length == 9:
+        else:
             self += bytes([0xff])
             length = 9
         self += utils.i2le(number)
@@ -205,7 +205,7 @@ class VarInt(ByteData):
         self._make_immutable()
 
     def copy(self) -> 'VarInt':
-        return VarInt(self.number)
+        return VarInt(self.number, length=len(self))
 
     @classmethod
     def from_bytes(VarInt, byte_string: bytes) -> 'VarInt':
@@ -216,20 +216,23 @@ class VarInt(ByteData):
         num = byte_string
         if num[0] <= 0xfc:
             num = num[0:1]
-            non_compact = False
+            expected = 1
         elif num[0] == 0xfd:
             num = num[1:3]
-            non_compact = (num[-1:] == b'\x00')
+            expected = 2
         elif num[0] == 0xfe:
             num = num[1:5]
-            non_compact = (num[-2:] == b'\x00\x00')
+            expected = 4
         elif num[0] == 0xff:
             num = num[1:9]
-            non_compact = (num[-4:] == b'\x00\x00\x00\x00')
-        if len(num) not in [1, 2, 4, 8]:
+            expected = 8
+        if len(num) != expected:
             raise ValueError('Malformed VarInt. Got: {}'
                              .format(byte_string.hex()))
 
+        number = utils.le2i(num)
+        non_compact = expected != 1 and len(VarInt(number)) <= expected
+
         if (non_compact
             and ('overwinter' in riemann.get_current_network_name()
                  or 'sapling' in riemann.get_current_network_name())):
@@ -237,7 +240,7 @@ class VarInt(ByteData):
                              .format(byte_string.hex()))
 
         ret = VarInt(
-            utils.le2i(num),
-            length=len(num) + 1 if non_compact else 0)
+            number,
+            length=expected + 1 if non_compact else 0)
 
         return ret
diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index a58b8a6..f5cde3c 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -273,16 +273,16 @@ class TxOut(ByteData):
         '''
         Parse a TxOut from a bytestring. Also available as from_hex
         '''
+        # Any length that needs a VarInt prefix is at least 0xfd
+        if byte_string[8] >= 0xfc:
+            raise NotImplementedError(
+                'No support for abnormally long pk_scripts.')
         n = VarInt.from_bytes(byte_string[8:])
         script_start = 8 + len(n)
         script_end = script_start + n.number
-        if n.number < 0xfc:
-            return TxOut(
-                value=byte_string[:8],
-                output_script=byte_string[script_start:script_end])
-        else:
-            raise NotImplementedError(
-                'No support for abnormally long pk_scripts.')
+        return TxOut(
+            value=byte_string[:8],
+            output_script=byte_string[script_start:script_end])
 
 
 class WitnessStackItem(ByteData):
-- 
2.43.0


From c8cc4ca19220310547134faba99d75f470add877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 04/40] fix: TxIn.from_bytes keeps script_sigs that do not
 re-serialize identically

---
 riemann/tx/tx.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index f5cde3c..0d58ecb 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -183,6 +183,9 @@ class TxIn(ByteData):
             redeem_script = serialization.serialize(items[-1])
         except (IndexError, ValueError, NotImplementedError):
             pass
+        # Non-minimal pushes serialize differently. Keep what was on the wire
+        if stack_script + redeem_script != script_sig:
+            return script_sig, b''
         return stack_script, redeem_script
 
     @classmethod
-- 
2.43.0


From 9d842121ceff358205e003ba297fb801a79089fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 05/40] fix: decoders refuse truncated input and lengths they
 cannot represent

TxIn, TxOut, WitnessStackItem, InputWitness, Tx, SproutTx and DecredTxOut
accepted a script or item cut short, or a non-compact length, and returned an
object (and ids) for other bytes than those read.
---
 riemann/tx/decred.py |  4 +++-
 riemann/tx/shared.py |  9 +++++++++
 riemann/tx/sprout.py |  4 +++-
 riemann/tx/tx.py     | 20 +++++++++++++++-----
 4 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index 01d474b..1a2f7ed 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -129,10 +129,12 @@ class DecredTxOut(DecredByteData):
         script_start = 10 + len(n)
         script_end = script_start + n.number
         if n.number < 0xfc:
-            return DecredTxOut(
+            ret = DecredTxOut(
                 value=byte_string[:8],
                 version=byte_string[8:10],
                 output_script=byte_string[script_start:script_end])
+            ret._check_parsed_from(byte_string)
+            return ret
         else:
             raise NotImplementedError(
                 'No support for abnormally long pk_scripts.')
diff --git a/riemann/tx/shared.py b/riemann/tx/shared.py
index 439a810..c6c0d5b 100644
--- a/riemann/tx/shared.py
+++ b/riemann/tx/shared.py
@@ -136,6 +136,15 @@ class ByteData():
             substring = substring.to_bytes()
         return self._bytes.find(substring)
 
+    def _check_parsed_from(self, byte_string: bytes):
+        '''
+        Raises ValueError if self is not what byte_string starts with, e.g.
+        because byte_string was cut short or used a non-compact length.
+        '''
+        if self != byte_string[:len(self)]:
+            raise ValueError('Malformed {}. Got: {}'.format(
+                type(self).__name__, byte_string.hex()))
+
     @staticmethod
     def validate_bytes(data: Any, length: Optional[int] = 4):
         '''
diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index 117ac25..79c3308 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -196,7 +196,7 @@ class SproutTx(z.ZcashByteData):
             current += 32
             joinsplit_sig = byte_string[current:current + 64]
 
-        return SproutTx(
+        ret = SproutTx(
             version=version,
             tx_ins=tx_ins,
             tx_outs=tx_outs,
@@ -204,6 +204,8 @@ class SproutTx(z.ZcashByteData):
             tx_joinsplits=tx_joinsplits,
             joinsplit_pubkey=joinsplit_pubkey,
             joinsplit_sig=joinsplit_sig)
+        ret._check_parsed_from(byte_string)
+        return ret
 
     def calculate_fee(self, input_values: Sequence[int]) -> int:
         '''
diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index 0d58ecb..e01efac 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -216,11 +216,13 @@ class TxIn(ByteData):
         # Parse the script sig into stack and redeem
         else:
             stack_script, redeem_script = TxIn._parse_script_sig(script_sig)
-        return TxIn(
+        ret = TxIn(
             outpoint=outpoint,
             stack_script=stack_script,
             redeem_script=redeem_script,
             sequence=sequence)
+        ret._check_parsed_from(byte_string)
+        return ret
 
 
 class TxOut(ByteData):
@@ -283,9 +285,11 @@ class TxOut(ByteData):
         n = VarInt.from_bytes(byte_string[8:])
         script_start = 8 + len(n)
         script_end = script_start + n.number
-        return TxOut(
+        ret = TxOut(
             value=byte_string[:8],
             output_script=byte_string[script_start:script_end])
+        ret._check_parsed_from(byte_string)
+        return ret
 
 
 class WitnessStackItem(ByteData):
@@ -320,7 +324,9 @@ class WitnessStackItem(ByteData):
         n = VarInt.from_bytes(byte_string)
         item_start = len(n)
         item_end = item_start + n.number
-        return WitnessStackItem(byte_string[item_start:item_end])
+        ret = WitnessStackItem(byte_string[item_start:item_end])
+        ret._check_parsed_from(byte_string)
+        return ret
 
 
 class InputWitness(ByteData):
@@ -369,7 +375,9 @@ class InputWitness(ByteData):
             item = WitnessStackItem.from_bytes(byte_string[item_start:])
             item_start += len(item)
             items.append(item)
-        return InputWitness(items)
+        ret = InputWitness(items)
+        ret._check_parsed_from(byte_string)
+        return ret
 
     def copy(self,
              stack: Optional[List[WitnessStackItem]] = None) -> 'InputWitness':
@@ -602,13 +610,15 @@ class Tx(ByteData):
 
         # Get the lock time and return a complete tx
         lock_time = byte_string[current:current + 4]
-        return Tx(
+        ret = Tx(
             version=version,
             flag=flag,
             tx_ins=tx_ins,
             tx_outs=tx_outs,
             tx_witnesses=tx_witnesses,
             lock_time=lock_time)
+        ret._check_parsed_from(byte_string)
+        return ret
 
     def no_witness(self) -> bytes:
         '''
-- 
2.43.0


From 32ed88ba3465fb6eb85715d2a6c02b956b9c2a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 06/40] fix: OverwinterTx.from_bytes refuses data cut before
 the joinsplit count

---
 riemann/tx/overwinter.py | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/riemann/tx/overwinter.py b/riemann/tx/overwinter.py
index 3e39d94..a860b80 100644
--- a/riemann/tx/overwinter.py
+++ b/riemann/tx/overwinter.py
@@ -235,25 +235,18 @@ class OverwinterTx(z.ZcashByteData):
         expiry_height = byte_string[current:current + 4]
         current += 4
 
-        tx_joinsplits: Sequence[z.SproutJoinsplit]
-        if current == len(byte_string):
-            # No joinsplits
-            tx_joinsplits = tuple()
-            joinsplit_pubkey = None
-            joinsplit_sig = None
-        else:
-            tx_joinsplits = []
-            tx_joinsplits_num = shared.VarInt.from_bytes(byte_string[current:])
-            current += len(tx_outs_num)
-            for _ in range(tx_joinsplits_num.number):
-                tx_joinsplit = z.SproutJoinsplit.from_bytes(
-                    byte_string[current:])
-                current += len(tx_joinsplit)
-                tx_joinsplits.append(tx_joinsplit)
-
-            joinsplit_pubkey = byte_string[current:current + 32]
-            current += 32
-            joinsplit_sig = byte_string[current:current + 64]
+        tx_joinsplits = []
+        tx_joinsplits_num = shared.VarInt.from_bytes(byte_string[current:])
+        current += len(tx_outs_num)
+        for _ in range(tx_joinsplits_num.number):
+            tx_joinsplit = z.SproutJoinsplit.from_bytes(
+                byte_string[current:])
+            current += len(tx_joinsplit)
+            tx_joinsplits.append(tx_joinsplit)
+
+        joinsplit_pubkey = byte_string[current:current + 32]
+        current += 32
+        joinsplit_sig = byte_string[current:current + 64]
 
         return OverwinterTx(
             tx_ins=tx_ins,
-- 
2.43.0


From 5576d871d757dd7671c112d5d9c54491e41f4b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:54 +0000
Subject: [PATCH 07/40] fix: Overwinter and Sapling parse joinsplits after 253
 or more outputs

---
 riemann/tx/overwinter.py | 2 +-
 riemann/tx/sapling.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/riemann/tx/overwinter.py b/riemann/tx/overwinter.py
index a860b80..aee1216 100644
--- a/riemann/tx/overwinter.py
+++ b/riemann/tx/overwinter.py
@@ -237,7 +237,7 @@ class OverwinterTx(z.ZcashByteData):
 
         tx_joinsplits = []
         tx_joinsplits_num = shared.VarInt.from_bytes(byte_string[current:])
-        current += len(tx_outs_num)
+        current += len(tx_joinsplits_num)
         for _ in range(tx_joinsplits_num.number):
             tx_joinsplit = z.SproutJoinsplit.from_bytes(
                 byte_string[current:])
diff --git a/riemann/tx/sapling.py b/riemann/tx/sapling.py
index c606300..dfcf1bb 100644
--- a/riemann/tx/sapling.py
+++ b/riemann/tx/sapling.py
@@ -561,7 +561,7 @@ class SaplingTx(z.ZcashByteData):
 
         tx_joinsplits = []
         tx_joinsplits_num = shared.VarInt.from_bytes(byte_string[current:])
-        current += len(tx_outs_num)
+        current += len(tx_joinsplits_num)
         for _ in range(tx_joinsplits_num.number):
             tx_joinsplit = SaplingJoinsplit.from_bytes(
                 byte_string[current:])
-- 
2.43.0


From cd832f1052f6857e5147725f8c2b69f337ae4030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:56 +0000
Subject: [PATCH 08/40] fix: SproutTx.from_bytes parses version 1 transactions

---
 riemann/tx/sprout.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index 79c3308..a1342b9 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -180,11 +180,10 @@ class SproutTx(z.ZcashByteData):
         lock_time = byte_string[current:current + 4]
         current += 4
 
-        tx_joinsplits = None
+        tx_joinsplits = []
         joinsplit_pubkey = None
         joinsplit_sig = None
         if utils.le2i(version) == 2:  # If we expect joinsplits
-            tx_joinsplits = []
             tx_joinsplits_num = shared.VarInt.from_bytes(byte_string[current:])
             current += len(tx_joinsplits_num)
 
-- 
2.43.0


From 3d8bdd0d0410e9cf34f10b6f9487110055285ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:58 +0000
Subject: [PATCH 09/40] fix: a legacy Tx read by from_bytes is not a witness Tx

---
 riemann/tx/tx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index e01efac..f401e99 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -638,7 +638,7 @@ class Tx(ByteData):
 
     def is_witness(self) -> bool:
         '''Return True if the transaction witness flag is set'''
-        return self.flag is not None or self.tx_witnesses is not None
+        return self.flag is not None
 
     def calculate_fee(self, input_values: Sequence[int]) -> int:
         '''
-- 
2.43.0


From 736b445702ae9e77ebbfd93dae8b8e5b1bf813cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:07 +0000
Subject: [PATCH 10/40] fix: SIGHASH_SINGLE resizes the outputs to the signed
 index, not the inputs

---
 riemann/tx/decred.py | 2 +-
 riemann/tx/sprout.py | 2 +-
 riemann/tx/tx.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index 1a2f7ed..728b087 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -372,7 +372,7 @@ class DecredTx(DecredByteData):
                             value=b'\xff' * 8,
                             version=b'\x00\x00',
                             output_script=b'')
-                            for _ in copy_tx.tx_ins]
+                            for _ in copy_tx_outs]
             copy_tx_outs[index] = copy_tx.tx_outs[index]
         except IndexError:
             raise NotImplementedError(
diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index a1342b9..860f711 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -311,7 +311,7 @@ class SproutTx(z.ZcashByteData):
         # Other tx_outs are set to -1 value and null scripts
         copy_tx_outs = copy_tx.tx_outs[:index + 1]
         copy_tx_outs = [TxOut(value=b'\xff' * 8, output_script=b'')
-                        for _ in copy_tx.tx_ins]  # Null them all
+                        for _ in copy_tx_outs]  # Null them all
         copy_tx_outs[index] = copy_tx.tx_outs[index]  # Fix the current one
 
         # Other tx_ins sequence numbers are set to 0
diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index f401e99..0983f8d 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -937,7 +937,7 @@ class Tx(ByteData):
         # Other tx_outs are set to -1 value and null scripts
         copy_tx_outs = list(copy_tx.tx_outs[:index + 1])
         copy_tx_outs = [TxOut(value=b'\xff' * 8, output_script=b'')
-                        for _ in copy_tx.tx_ins]  # Null them all
+                        for _ in copy_tx_outs]  # Null them all
         copy_tx_outs[index] = copy_tx.tx_outs[index]  # Fix the current one
 
         # Other tx_ins sequence numbers are set to 0
-- 
2.43.0


From e428c75d75ea53af35665ff8644cbf037fb8de5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 11/40] fix: Sapling sighashes and Overwinter sighash_all
 honour anyone_can_pay

---
 riemann/tx/overwinter.py |  5 ++++-
 riemann/tx/sapling.py    | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/riemann/tx/overwinter.py b/riemann/tx/overwinter.py
index aee1216..dfa40f2 100644
--- a/riemann/tx/overwinter.py
+++ b/riemann/tx/overwinter.py
@@ -261,7 +261,10 @@ class OverwinterTx(z.ZcashByteData):
         return False
 
     def sighash_all(self, anyone_can_pay: bool = False, **kwargs) -> bytes:
-        return self.sighash(sighash_type=shared.SIGHASH_ALL, **kwargs)
+        return self.sighash(
+            sighash_type=shared.SIGHASH_ALL,
+            anyone_can_pay=anyone_can_pay,
+            **kwargs)
 
     def sighash_single(self, anyone_can_pay: bool = False, **kwargs) -> bytes:
         return self.sighash(sighash_type=shared.SIGHASH_SINGLE, **kwargs)
diff --git a/riemann/tx/sapling.py b/riemann/tx/sapling.py
index dfcf1bb..2d2b536 100644
--- a/riemann/tx/sapling.py
+++ b/riemann/tx/sapling.py
@@ -603,10 +603,16 @@ class SaplingTx(z.ZcashByteData):
         return False
 
     def sighash_all(self, anyone_can_pay: bool = False, **kwargs) -> bytes:
-        return self.sighash(sighash_type=shared.SIGHASH_ALL, **kwargs)
+        return self.sighash(
+            sighash_type=shared.SIGHASH_ALL,
+            anyone_can_pay=anyone_can_pay,
+            **kwargs)
 
     def sighash_single(self, anyone_can_pay: bool = False, **kwargs) -> bytes:
-        return self.sighash(sighash_type=shared.SIGHASH_SINGLE, **kwargs)
+        return self.sighash(
+            sighash_type=shared.SIGHASH_SINGLE,
+            anyone_can_pay=anyone_can_pay,
+            **kwargs)
 
     def sighash(self,
                 sighash_type: int,
-- 
2.43.0


From 9b759ee4cd4d2335decefb7a4a6b8a1052f51ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 12/40] fix: SproutTx without joinsplits signs with SINGLE and
 ANYONECANPAY

---
 riemann/tx/sprout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index 860f711..2562012 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -298,7 +298,7 @@ class SproutTx(z.ZcashByteData):
         https://github.com/petertodd/python-bitcoinlib/blob/051ec4e28c1f6404fd46713c2810d4ebbed38de4/bitcoin/core/script.py#L913-L965
         '''
 
-        if self.tx_joinsplits is not None:
+        if len(self.tx_joinsplits) != 0:
             raise ValueError('Sighash single not permitted with joinsplits.')
 
         if index >= len(self.tx_outs):
@@ -342,7 +342,7 @@ class SproutTx(z.ZcashByteData):
         https://en.bitcoin.it/wiki/OP_CHECKSIG#Procedure_for_Hashtype_SIGHASH_ANYONECANPAY
         '''
 
-        if self.tx_joinsplits is not None:
+        if len(self.tx_joinsplits) != 0:
             raise ValueError(
                 'Sighash anyonecanpay not permitted with joinsplits.')
 
-- 
2.43.0


From 3463023d90119810755cd09b872f0736b547b931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 13/40] fix: DecredTx ANYONECANPAY commits to the signed input
 only

---
 riemann/tx/decred.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index 728b087..cfac4bf 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -419,11 +419,10 @@ class DecredTx(DecredByteData):
                                 index: int,
                                 copy_tx: 'DecredTx',
                                 sighash_type: int) -> bytes:
-        copy_tx_witnesses = [
-            w.copy(stack_script=b'', redeem_script=b'')
-            for w in copy_tx.tx_witnesses]
-        copy_tx_witnesses[index] = copy_tx.tx_witnesses[index]
-        copy_tx = copy_tx.copy(tx_witnesses=copy_tx_witnesses)
+        # The txCopy input and witness vectors are resized to a length of one.
+        copy_tx = copy_tx.copy(
+            tx_ins=[copy_tx.tx_ins[index]],
+            tx_witnesses=[copy_tx.tx_witnesses[index]])
 
         return self._sighash_final_hashing(
             index=index,
-- 
2.43.0


From bccc48e807ea22d758cbe4c0efd2044fa53fd9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 14/40] fix: do not report a failed allocation as invalid input

The handlers for malformed input caught every Exception, so a MemoryError
inside them made a valid address, checksum or transaction look invalid.
---
 riemann/encoding/addresses.py | 4 ++--
 riemann/encoding/base58.py    | 4 ++--
 riemann/networks/standard.py  | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/riemann/encoding/addresses.py b/riemann/encoding/addresses.py
index 94783fb..5071924 100644
--- a/riemann/encoding/addresses.py
+++ b/riemann/encoding/addresses.py
@@ -230,12 +230,12 @@ def parse(address: str) -> bytes:
 
     try:
         return bytearray(riemann.network.SEGWIT_ENCODER.decode(address))
-    except Exception:
+    except (AttributeError, LookupError, TypeError, ValueError):
         pass
 
     try:
         return bytearray(riemann.network.CASHADDR_ENCODER.decode(address))
-    except Exception:
+    except (AttributeError, LookupError, TypeError, ValueError):
         pass
 
     raise ValueError(
diff --git a/riemann/encoding/base58.py b/riemann/encoding/base58.py
index 7d0808c..f4d8a99 100644
--- a/riemann/encoding/base58.py
+++ b/riemann/encoding/base58.py
@@ -103,7 +103,7 @@ def from_long(
         try:
             v, mod = divmod(v, base)
             ba.append(charset(mod))
-        except Exception:
+        except (LookupError, TypeError, ValueError):
             raise ValueError(
                 "can't convert to character corresponding to %d" % mod)
     ba.extend([charset(0)] * prefix)
@@ -131,7 +131,7 @@ def to_long(
         v *= base
         try:
             v += lookup_f(c)
-        except Exception:
+        except (LookupError, TypeError, ValueError):
             raise ValueError(f"bad character {c!r} in string {s!r}")
         if v == 0:
             prefix += 1
diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index a88034d..197a611 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -31,7 +31,7 @@ def check_is_standard_tx(t: tx.Tx) -> bool:
             if (len(tx_in.script_sig) > 1650
                     or not is_push_only(tx_in.script_sig)):
                 return False
-        except Exception:
+        except (LookupError, NotImplementedError, ValueError):
             return False
 
     # 'scriptpubkey'
-- 
2.43.0


From 4d63f5b57e0895533b0043053dd047675312771c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:39 +0000
Subject: [PATCH 15/40] fix: parse_hash handles bech32 addresses in upper case

---
 riemann/encoding/addresses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/encoding/addresses.py b/riemann/encoding/addresses.py
index 5071924..d651cbc 100644
--- a/riemann/encoding/addresses.py
+++ b/riemann/encoding/addresses.py
@@ -365,7 +365,7 @@ def parse_hash(address: str) -> bytes:
 
     # Segwit addresses
     try:
-        if address.find(riemann.network.BECH32_HRP) == 0:
+        if address.lower().find(riemann.network.BECH32_HRP) == 0:
             if raw.find(riemann.network.P2WSH_PREFIX) == 0:
                 return raw[len(riemann.network.P2WSH_PREFIX):]
             if raw.find(riemann.network.P2WPKH_PREFIX) == 0:
-- 
2.43.0


From 7cd7306aeaa00ae807b1df92b08e96871a8917f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 16/40] fix: to_output_script reads cashaddr types in cashaddrs
 only

Legacy mainnet addresses passed for P2PKH on the Bitcoin Cash test networks.
---
 riemann/encoding/addresses.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/riemann/encoding/addresses.py b/riemann/encoding/addresses.py
index d651cbc..1fd23da 100644
--- a/riemann/encoding/addresses.py
+++ b/riemann/encoding/addresses.py
@@ -270,7 +270,8 @@ def to_output_script(address: str) -> bytes:
         pass
 
     try:
-        if (parsed.find(riemann.network.CASHADDR_P2SH) == 0
+        if (address.find(riemann.network.CASHADDR_PREFIX) == 0
+                and parsed.find(riemann.network.CASHADDR_P2SH) == 0
                 and len(parsed) == len(riemann.network.CASHADDR_P2SH) + 20):
             prefix = b'\xa9\x14'  # OP_HASH160 PUSH14
             parsed_hash = parsed[len(riemann.network.P2SH_PREFIX):]
@@ -279,7 +280,8 @@ def to_output_script(address: str) -> bytes:
         pass
 
     try:
-        if (parsed.find(riemann.network.CASHADDR_P2PKH) == 0
+        if (address.find(riemann.network.CASHADDR_PREFIX) == 0
+                and parsed.find(riemann.network.CASHADDR_P2PKH) == 0
                 and len(parsed) == len(riemann.network.CASHADDR_P2PKH) + 20):
             prefix = b'\x76\xa9\x14'  # OP_DUP OP_HASH160 PUSH14
             parsed_hash = parsed[len(riemann.network.P2PKH_PREFIX):]
-- 
2.43.0


From 164c5bff6aa2189c4a5ddf3695cc58c132d3d69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 17/40] fix: parse_hash goes by the length of the parsed
 address

Networks without a bech32 prefix got hashes with the script prefix left in.
---
 riemann/encoding/addresses.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/riemann/encoding/addresses.py b/riemann/encoding/addresses.py
index 1fd23da..3ac167b 100644
--- a/riemann/encoding/addresses.py
+++ b/riemann/encoding/addresses.py
@@ -365,20 +365,23 @@ def parse_hash(address: str) -> bytes:
     except TypeError:
         pass
 
-    # Segwit addresses
+    # Segwit addresses. Not all networks encode these with bech32
     try:
-        if address.lower().find(riemann.network.BECH32_HRP) == 0:
-            if raw.find(riemann.network.P2WSH_PREFIX) == 0:
-                return raw[len(riemann.network.P2WSH_PREFIX):]
-            if raw.find(riemann.network.P2WPKH_PREFIX) == 0:
-                return raw[len(riemann.network.P2WPKH_PREFIX):]
+        if (raw.find(riemann.network.P2WSH_PREFIX) == 0
+                and len(raw) == len(riemann.network.P2WSH_PREFIX) + 32):
+            return raw[len(riemann.network.P2WSH_PREFIX):]
+        if (raw.find(riemann.network.P2WPKH_PREFIX) == 0
+                and len(raw) == len(riemann.network.P2WPKH_PREFIX) + 20):
+            return raw[len(riemann.network.P2WPKH_PREFIX):]
     except TypeError:
         pass
 
     # Legacy Addresses
-    if raw.find(riemann.network.P2SH_PREFIX) == 0:
+    if (raw.find(riemann.network.P2SH_PREFIX) == 0
+            and len(raw) == len(riemann.network.P2SH_PREFIX) + 20):
         return raw[len(riemann.network.P2SH_PREFIX):]
-    if raw.find(riemann.network.P2PKH_PREFIX) == 0:
+    if (raw.find(riemann.network.P2PKH_PREFIX) == 0
+            and len(raw) == len(riemann.network.P2PKH_PREFIX) + 20):
         return raw[len(riemann.network.P2PKH_PREFIX):]
 
     raise ValueError('Could not parse hash, unknown error')
-- 
2.43.0


From 48feed64fcb4cc88a3adec0c32b35e93a1b7021c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 18/40] fix: BLAKE.addsalt pads a short salt with null bytes

---
 riemann/blake256.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/blake256.py b/riemann/blake256.py
index 044e9c5..f1c0d72 100644
--- a/riemann/blake256.py
+++ b/riemann/blake256.py
@@ -347,7 +347,7 @@ class BLAKE(object):
         # if too short, prefix with null bytes.  if too long,
         # truncate high order bytes
         if len(salt) < saltsize:
-            salt = (chr(0)*(saltsize-len(salt)) + salt)
+            salt = (b'\x00'*(saltsize-len(salt)) + salt)
         else:
             salt = salt[-saltsize:]
         # prep the salt array
-- 
2.43.0


From e224666401527bd7d5c1b54cb5c664f2adc34793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:28 +0000
Subject: [PATCH 19/40] fix: BLAKE.update counts the bytes of encoded text, not
 its characters

---
 riemann/blake256.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riemann/blake256.py b/riemann/blake256.py
index f1c0d72..428e2b8 100644
--- a/riemann/blake256.py
+++ b/riemann/blake256.py
@@ -370,8 +370,7 @@ class BLAKE(object):
         BLKBYTES = self.BLKBYTES   # de-referenced for improved readability
         BLKBITS  = self.BLKBITS
 
-        datalen = len(data)
-        if not datalen:  return
+        if not len(data):  return
 
         if type(data) == type(u''):
 
@@ -390,6 +389,7 @@ class BLAKE(object):
             # that does nothing would at least allow
             # compatibility between Python2 and Python3.
 
+        datalen = len(data)     # in bytes, so after any encoding
         left = len(self.cache)
         fill = BLKBYTES - left
 
-- 
2.43.0


From 535b77f45b85d8c79b286bbdedcf9317eb9ec172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 20/40] fix: DecredTx SIGHASH_SINGLE nulls value and script of
 other outputs, not their version

---
 riemann/tx/decred.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index cfac4bf..b02f478 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -370,9 +370,9 @@ class DecredTx(DecredByteData):
             copy_tx_outs = copy_tx.tx_outs[:index + 1]
             copy_tx_outs = [DecredTxOut(
                             value=b'\xff' * 8,
-                            version=b'\x00\x00',
+                            version=tx_out.version,
                             output_script=b'')
-                            for _ in copy_tx_outs]
+                            for tx_out in copy_tx_outs]
             copy_tx_outs[index] = copy_tx.tx_outs[index]
         except IndexError:
             raise NotImplementedError(
-- 
2.43.0


From f6918d8faf697176482886d5ebd9c4dbbddc0958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:25 +0000
Subject: [PATCH 21/40] fix: an address form is recognized only in the
 network's own encoding of it

---
 riemann/encoding/addresses.py | 63 ++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 19 deletions(-)

diff --git a/riemann/encoding/addresses.py b/riemann/encoding/addresses.py
index 3ac167b..9c1b419 100644
--- a/riemann/encoding/addresses.py
+++ b/riemann/encoding/addresses.py
@@ -2,6 +2,8 @@ import riemann
 from riemann import utils
 from riemann.script import serialization as script_ser
 
+from typing import Any, Tuple
+
 
 def _hash_to_sh_address(
         script_hash: bytes,
@@ -214,27 +216,30 @@ def make_legacy_p2pkh_address(pubkey: bytes) -> str:
     return make_pkh_address(pubkey=pubkey, witness=False, cashaddr=False)
 
 
-def parse(address: str) -> bytes:
+def _parse(address: str) -> Tuple[Any, bytearray]:
     '''
-    Decode an address to the underlying raw bytes
+    Decode an address, and say which of the network's encoders it was for
 
     Args:
         address: The address to parse
     Returns:
-        The raw bytestring encoded by the address
+        The encoder, and the raw bytestring encoded by the address
     '''
+    encoder = riemann.network.LEGACY_ENCODER
     try:
-        return bytearray(riemann.network.LEGACY_ENCODER.decode(address))
+        return encoder, bytearray(encoder.decode(address))
     except ValueError:
         pass
 
+    encoder = riemann.network.SEGWIT_ENCODER
     try:
-        return bytearray(riemann.network.SEGWIT_ENCODER.decode(address))
+        return encoder, bytearray(encoder.decode(address))
     except (AttributeError, LookupError, TypeError, ValueError):
         pass
 
+    encoder = riemann.network.CASHADDR_ENCODER
     try:
-        return bytearray(riemann.network.CASHADDR_ENCODER.decode(address))
+        return encoder, bytearray(encoder.decode(address))
     except (AttributeError, LookupError, TypeError, ValueError):
         pass
 
@@ -242,6 +247,18 @@ def parse(address: str) -> bytes:
         'Unsupported address format. Got: {}'.format(address))
 
 
+def parse(address: str) -> bytes:
+    '''
+    Decode an address to the underlying raw bytes
+
+    Args:
+        address: The address to parse
+    Returns:
+        The raw bytestring encoded by the address
+    '''
+    return _parse(address)[1]
+
+
 def to_output_script(address: str) -> bytes:
     '''
     Convert an address into its associated output script.
@@ -252,25 +269,27 @@ def to_output_script(address: str) -> bytes:
         The output script that corresponds to the address, suitable for
         inclusion in a TxOut
     '''
-    parsed = parse(address)
+    encoder, parsed = _parse(address)
     parsed_hash = b''
 
     try:
-        if (parsed.find(riemann.network.P2WPKH_PREFIX) == 0
+        if (encoder is riemann.network.SEGWIT_ENCODER
+                and parsed.find(riemann.network.P2WPKH_PREFIX) == 0
                 and len(parsed) == 22):
             return parsed
     except TypeError:
         pass
 
     try:
-        if (parsed.find(riemann.network.P2WSH_PREFIX) == 0
+        if (encoder is riemann.network.SEGWIT_ENCODER
+                and parsed.find(riemann.network.P2WSH_PREFIX) == 0
                 and len(parsed) == 34):
             return parsed
     except TypeError:
         pass
 
     try:
-        if (address.find(riemann.network.CASHADDR_PREFIX) == 0
+        if (encoder is riemann.network.CASHADDR_ENCODER
                 and parsed.find(riemann.network.CASHADDR_P2SH) == 0
                 and len(parsed) == len(riemann.network.CASHADDR_P2SH) + 20):
             prefix = b'\xa9\x14'  # OP_HASH160 PUSH14
@@ -280,7 +299,7 @@ def to_output_script(address: str) -> bytes:
         pass
 
     try:
-        if (address.find(riemann.network.CASHADDR_PREFIX) == 0
+        if (encoder is riemann.network.CASHADDR_ENCODER
                 and parsed.find(riemann.network.CASHADDR_P2PKH) == 0
                 and len(parsed) == len(riemann.network.CASHADDR_P2PKH) + 20):
             prefix = b'\x76\xa9\x14'  # OP_DUP OP_HASH160 PUSH14
@@ -289,13 +308,15 @@ def to_output_script(address: str) -> bytes:
     except TypeError:
         pass
 
-    if (parsed.find(riemann.network.P2PKH_PREFIX) == 0
+    if (encoder is riemann.network.LEGACY_ENCODER
+            and parsed.find(riemann.network.P2PKH_PREFIX) == 0
             and len(parsed) == len(riemann.network.P2PKH_PREFIX) + 20):
         prefix = b'\x76\xa9\x14'  # OP_DUP OP_HASH160 PUSH14
         parsed_hash = parsed[len(riemann.network.P2PKH_PREFIX):]
         suffix = b'\x88\xac'  # OP_EQUALVERIFY OP_CHECKSIG
 
-    if (parsed.find(riemann.network.P2SH_PREFIX) == 0
+    if (encoder is riemann.network.LEGACY_ENCODER
+            and parsed.find(riemann.network.P2SH_PREFIX) == 0
             and len(parsed) == len(riemann.network.P2SH_PREFIX) + 20):
         prefix = b'\xa9\x14'  # OP_HASH160 PUSH14
         parsed_hash = parsed[len(riemann.network.P2SH_PREFIX):]
@@ -353,11 +374,11 @@ def parse_hash(address: str) -> bytes:
     Returns:
         The 20 or 32 byte hash represented by the address
     '''
-    raw = parse(address)
+    encoder, raw = _parse(address)
 
     # Cash addresses
     try:
-        if address.find(riemann.network.CASHADDR_PREFIX) == 0:
+        if encoder is riemann.network.CASHADDR_ENCODER and len(raw) == 21:
             if raw.find(riemann.network.CASHADDR_P2SH) == 0:
                 return raw[len(riemann.network.CASHADDR_P2SH):]
             if raw.find(riemann.network.CASHADDR_P2PKH) == 0:
@@ -367,20 +388,24 @@ def parse_hash(address: str) -> bytes:
 
     # Segwit addresses. Not all networks encode these with bech32
     try:
-        if (raw.find(riemann.network.P2WSH_PREFIX) == 0
+        if (encoder is riemann.network.SEGWIT_ENCODER
+                and raw.find(riemann.network.P2WSH_PREFIX) == 0
                 and len(raw) == len(riemann.network.P2WSH_PREFIX) + 32):
             return raw[len(riemann.network.P2WSH_PREFIX):]
-        if (raw.find(riemann.network.P2WPKH_PREFIX) == 0
+        if (encoder is riemann.network.SEGWIT_ENCODER
+                and raw.find(riemann.network.P2WPKH_PREFIX) == 0
                 and len(raw) == len(riemann.network.P2WPKH_PREFIX) + 20):
             return raw[len(riemann.network.P2WPKH_PREFIX):]
     except TypeError:
         pass
 
     # Legacy Addresses
-    if (raw.find(riemann.network.P2SH_PREFIX) == 0
+    if (encoder is riemann.network.LEGACY_ENCODER
+            and raw.find(riemann.network.P2SH_PREFIX) == 0
             and len(raw) == len(riemann.network.P2SH_PREFIX) + 20):
         return raw[len(riemann.network.P2SH_PREFIX):]
-    if (raw.find(riemann.network.P2PKH_PREFIX) == 0
+    if (encoder is riemann.network.LEGACY_ENCODER
+            and raw.find(riemann.network.P2PKH_PREFIX) == 0
             and len(raw) == len(riemann.network.P2PKH_PREFIX) + 20):
         return raw[len(riemann.network.P2PKH_PREFIX):]
 
-- 
2.43.0


From 10dd19e470c8343705e532dc91ce7ea7ac0135f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:32 +0000
Subject: [PATCH 22/40] fix: cashaddr decoding refuses superfluous characters
 and non-zero padding

---
 riemann/encoding/cashaddr.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/riemann/encoding/cashaddr.py b/riemann/encoding/cashaddr.py
index 59b75f9..19c3f21 100644
--- a/riemann/encoding/cashaddr.py
+++ b/riemann/encoding/cashaddr.py
@@ -58,9 +58,12 @@ def decode(data: str) -> bytes:
     decoded = b32decode(data)
     if not verify_checksum(prefix, decoded):
         raise ValueError('Bad cash address checksum')
-    converted = convertbits(decoded, 5, 8)
+    # the checksum is the last 8 characters
+    converted = convertbits(decoded[:-8], 5, 8, False)
+    if converted is None:
+        raise ValueError('Bad cash address padding')
 
-    return bytes(converted[:-6])  # remove the checksum from the end
+    return bytes(converted)
 
 
 def polymod(values):
-- 
2.43.0


From 193ea9d50782ed3bebd265f4093b229094fefc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:30 +0000
Subject: [PATCH 23/40] fix: make_tx on Decred takes a list of witnesses, and
 none for an unsigned tx

---
 riemann/tx/tx_builder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riemann/tx/tx_builder.py b/riemann/tx/tx_builder.py
index 77b34b6..4ac5af9 100644
--- a/riemann/tx/tx_builder.py
+++ b/riemann/tx/tx_builder.py
@@ -577,7 +577,9 @@ def make_tx(  # noqa: F811
             tx_outs=tx_outs,
             lock_time=utils.i2le_padded(lock_time, 4),
             expiry=utils.i2le_padded(expiry, 4),
-            tx_witnesses=[tx_witnesses])
+            tx_witnesses=([tx_witnesses] if isinstance(
+                tx_witnesses, decred.DecredInputWitness)
+                else tx_witnesses if tx_witnesses is not None else []))
     if 'sprout' in n and tx_joinsplits is not None:
         return sprout.SproutTx(
             version=version,
-- 
2.43.0


From 03245f7d8801b6648f795b6de7819a379cdbac56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:42 +0000
Subject: [PATCH 24/40] fix: outputs built on Decred default to version 0

---
 riemann/tx/tx_builder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/riemann/tx/tx_builder.py b/riemann/tx/tx_builder.py
index 4ac5af9..a5ce082 100644
--- a/riemann/tx/tx_builder.py
+++ b/riemann/tx/tx_builder.py
@@ -3,7 +3,7 @@ from riemann import utils
 from riemann.script import serialization
 from riemann.tx import tx, decred, overwinter, sapling, sprout, zcash_shared
 
-from typing import cast, List, Optional, overload
+from typing import List, Optional, overload
 
 
 def make_sh_script_pubkey(script_bytes: bytes, witness: bool = False) -> bytes:
@@ -160,7 +160,7 @@ def _make_output(  # noqa: F811
     Args:
         value: The 8-byte LE-encoded integer value of the output.
         output_script: The non-length-prepended output script.
-        version: Only in Decred transactions, the output version.
+        version: Only in Decred transactions, the output version. Default 0.
 
     Returns:
         The TxOut object. A DecredTxOut if version was passed in.
@@ -168,7 +168,7 @@ def _make_output(  # noqa: F811
     if 'decred' in riemann.get_current_network_name():
         return decred.DecredTxOut(
             value=value,
-            version=cast(int, version),
+            version=version if version is not None else b'\x00\x00',
             output_script=output_script)
     return tx.TxOut(value=value, output_script=output_script)
 
-- 
2.43.0


From af741b3759e695ff9f225b6386da5d26b96e4de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:45 +0000
Subject: [PATCH 25/40] fix: make_tx on Zcash Sprout takes the version as a
 number, as elsewhere

---
 riemann/tx/tx_builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riemann/tx/tx_builder.py b/riemann/tx/tx_builder.py
index a5ce082..2072d6e 100644
--- a/riemann/tx/tx_builder.py
+++ b/riemann/tx/tx_builder.py
@@ -582,7 +582,8 @@ def make_tx(  # noqa: F811
                 else tx_witnesses if tx_witnesses is not None else []))
     if 'sprout' in n and tx_joinsplits is not None:
         return sprout.SproutTx(
-            version=version,
+            version=(utils.i2le_padded(version, 4)
+                     if isinstance(version, int) else version),
             tx_ins=tx_ins,
             tx_outs=tx_outs,
             lock_time=utils.i2le_padded(lock_time, 4),
-- 
2.43.0


From 8bfcc527cf1ecc5cb6986f533092d28d970dec4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:00 +0000
Subject: [PATCH 26/40] fix: make_tx on Sapling takes absent vectors as empty
 and negative balances

---
 riemann/tx/tx_builder.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/riemann/tx/tx_builder.py b/riemann/tx/tx_builder.py
index 2072d6e..c5f58f6 100644
--- a/riemann/tx/tx_builder.py
+++ b/riemann/tx/tx_builder.py
@@ -605,10 +605,12 @@ def make_tx(  # noqa: F811
             tx_outs=tx_outs,
             lock_time=utils.i2le_padded(lock_time, 4),
             expiry_height=utils.i2le_padded(expiry, 4),
-            value_balance=utils.i2le_padded(value_balance, 8),
-            tx_shielded_spends=tx_shielded_spends,
-            tx_shielded_outputs=tx_shielded_outputs,
-            tx_joinsplits=tx_joinsplits,
+            value_balance=value_balance.to_bytes(8, 'little', signed=True),
+            tx_shielded_spends=(tx_shielded_spends
+                                if tx_shielded_spends is not None else []),
+            tx_shielded_outputs=(tx_shielded_outputs
+                                 if tx_shielded_outputs is not None else []),
+            tx_joinsplits=tx_joinsplits if tx_joinsplits is not None else [],
             joinsplit_pubkey=joinsplit_pubkey,
             joinsplit_sig=joinsplit_sig,
             binding_sig=binding_sig)
-- 
2.43.0


From b9253426c4fd080e1598239c228ebc405abe028e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:08 +0000
Subject: [PATCH 27/40] fix: unsigned_legacy_tx builds Sprout transactions
 without joinsplits

---
 riemann/simple.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riemann/simple.py b/riemann/simple.py
index 6ea840e..132e348 100644
--- a/riemann/simple.py
+++ b/riemann/simple.py
@@ -107,9 +107,9 @@ def unsigned_legacy_tx(tx_ins, tx_outs, **kwargs):
                        if 'tx_joinsplits' in kwargs else []),
         joinsplit_pubkey=(kwargs['joinsplit_pubkey']
                           if 'joinsplit_pubkey' in kwargs
-                          else []),
+                          else None),
         joinsplit_sig=(kwargs['joinsplit_sig']
-                       if 'joinsplit_sig' in kwargs else []))
+                       if 'joinsplit_sig' in kwargs else None))
 
 
 def unsigned_witness_tx(tx_ins, tx_outs, **kwargs):
-- 
2.43.0


From 886400edde821f695d36a0ae265db544e9cc664b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:49 +0000
Subject: [PATCH 28/40] fix: segwit, Overwinter and Sapling digests refuse a
 prevout value that is not 8 bytes

---
 riemann/tx/overwinter.py | 1 +
 riemann/tx/sapling.py    | 1 +
 riemann/tx/tx.py         | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/riemann/tx/overwinter.py b/riemann/tx/overwinter.py
index dfa40f2..7eb06bf 100644
--- a/riemann/tx/overwinter.py
+++ b/riemann/tx/overwinter.py
@@ -301,6 +301,7 @@ class OverwinterTx(z.ZcashByteData):
         data += utils.i2le_padded(sighash_type, 4)
 
         if not joinsplit:
+            self.validate_bytes(prevout_value, 8)
             data += self.tx_ins[index].outpoint
             data += script_code
             data += prevout_value
diff --git a/riemann/tx/sapling.py b/riemann/tx/sapling.py
index 2d2b536..f7b833b 100644
--- a/riemann/tx/sapling.py
+++ b/riemann/tx/sapling.py
@@ -650,6 +650,7 @@ class SaplingTx(z.ZcashByteData):
         data += utils.i2le_padded(sighash_type, 4)
 
         if not joinsplit:
+            self.validate_bytes(prevout_value, 8)
             data += self.tx_ins[index].outpoint
             data += cast(bytes, script_code)
             data += prevout_value
diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index 0983f8d..33501b8 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -971,6 +971,8 @@ class Tx(ByteData):
         For an excellent pasta dinner, see here:
         https://ricette.giallozafferano.it/Spaghetti-alla-Norma.html
         '''
+        self.validate_bytes(prevout_value, 8)
+
         data = ByteData()
 
         # 1. nVersion of the transaction (4-byte little endian)
-- 
2.43.0


From 629228b7757c96f038638a72038ab84ab199faa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:43 +0000
Subject: [PATCH 29/40] fix: deserialize refuses PUSHDATA pushes that are cut
 short

---
 riemann/script/serialization.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/riemann/script/serialization.py b/riemann/script/serialization.py
index 666aaf4..87c8532 100644
--- a/riemann/script/serialization.py
+++ b/riemann/script/serialization.py
@@ -95,10 +95,6 @@ def deserialize(serialized_script: bytes) -> str:
                 serialized_script[i + 1: i + 1 + current_byte].hex())
 
             i += 1 + current_byte
-            if i > len(serialized_script):
-                raise IndexError(
-                    'Push {} caused out of bounds exception.'
-                    .format(current_byte))
 
         elif current_byte == 76:
             # next hex blob length
@@ -133,6 +129,11 @@ def deserialize(serialized_script: bytes) -> str:
                     'Got 0x%x' % serialized_script[i])
             i += 1
 
+        if i > len(serialized_script):
+            raise IndexError(
+                'Push {} caused out of bounds exception.'
+                .format(current_byte))
+
     return ' '.join(deserialized)
 
 
-- 
2.43.0


From 7e7c83099493059c302b21f3f2ef610c9d4f4874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:45 +0000
Subject: [PATCH 30/40] fix: deserialize reads an empty PUSHDATA push as OP_0,
 instead of dropping it

---
 riemann/script/serialization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riemann/script/serialization.py b/riemann/script/serialization.py
index 87c8532..edf5f97 100644
--- a/riemann/script/serialization.py
+++ b/riemann/script/serialization.py
@@ -101,7 +101,7 @@ def deserialize(serialized_script: bytes) -> str:
             blob_len = serialized_script[i + 1]
 
             deserialized.append(
-                serialized_script[i + 2: i + 2 + blob_len].hex())
+                serialized_script[i + 2: i + 2 + blob_len].hex() or 'OP_0')
 
             i += 2 + blob_len
 
@@ -110,7 +110,7 @@ def deserialize(serialized_script: bytes) -> str:
             blob_len = utils.le2i(serialized_script[i + 1: i + 3])
 
             deserialized.append(
-                serialized_script[i + 3: i + 3 + blob_len].hex())
+                serialized_script[i + 3: i + 3 + blob_len].hex() or 'OP_0')
 
             i += 3 + blob_len
 
-- 
2.43.0


From 7971ac6a73e2ba86604c01cdb2c138474e1201f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:33 +0000
Subject: [PATCH 31/40] fix: from_output_script ignored the end of P2PKH and
 P2SH scripts

---
 riemann/encoding/addresses.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/riemann/encoding/addresses.py b/riemann/encoding/addresses.py
index 9c1b419..ac07b46 100644
--- a/riemann/encoding/addresses.py
+++ b/riemann/encoding/addresses.py
@@ -354,11 +354,15 @@ def from_output_script(output_script: bytes, cashaddr: bool = True) -> str:
     except TypeError:
         pass
 
-    if len(output_script) == 25 and output_script.find(b'\x76\xa9\x14') == 0:
+    if (len(output_script) == 25
+            and output_script.find(b'\x76\xa9\x14') == 0
+            and output_script[23:] == b'\x88\xac'):
         return _make_pkh_address(
             output_script[3:23], witness=False, cashaddr=cashaddr)
 
-    elif len(output_script) == 23 and output_script.find(b'\xa9\x14') == 0:
+    elif (len(output_script) == 23
+            and output_script.find(b'\xa9\x14') == 0
+            and output_script[22:] == b'\x87'):
         return _hash_to_sh_address(
             output_script[2:22], witness=False, cashaddr=cashaddr)
 
-- 
2.43.0


From 9fc506bd4c9cebf6f649348f8aa86476d5824105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 32/40] fix: from_output_script gave witness scripts cash
 addresses on networks without segwit

---
 riemann/encoding/addresses.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/riemann/encoding/addresses.py b/riemann/encoding/addresses.py
index ac07b46..f898812 100644
--- a/riemann/encoding/addresses.py
+++ b/riemann/encoding/addresses.py
@@ -338,7 +338,8 @@ def from_output_script(output_script: bytes, cashaddr: bool = True) -> str:
         cashaddr: Pass False to prefer legacy to cashaddr. Default True.
     '''
     try:
-        if (len(output_script) == len(riemann.network.P2WSH_PREFIX) + 32
+        if (riemann.network.SEGWIT
+                and len(output_script) == len(riemann.network.P2WSH_PREFIX) + 32
                 and output_script.find(riemann.network.P2WSH_PREFIX) == 0):
             # Script hash is the last 32 bytes
             return _hash_to_sh_address(
@@ -346,7 +347,8 @@ def from_output_script(output_script: bytes, cashaddr: bool = True) -> str:
     except TypeError:
         pass
     try:
-        if (len(output_script) == len(riemann.network.P2WPKH_PREFIX) + 20
+        if (riemann.network.SEGWIT
+                and len(output_script) == len(riemann.network.P2WPKH_PREFIX) + 20
                 and output_script.find(riemann.network.P2WPKH_PREFIX) == 0):
             # PKH is the last 20 bytes
             return _make_pkh_address(
-- 
2.43.0


From 9843e4c8d8c09d7836c82c6dc30d854c3afbd61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:38 +0000
Subject: [PATCH 33/40] fix: make_sh_address(witness=True) made cash addresses
 of 32-byte hashes, which nothing can read

---
 riemann/encoding/addresses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/encoding/addresses.py b/riemann/encoding/addresses.py
index f898812..09e3b05 100644
--- a/riemann/encoding/addresses.py
+++ b/riemann/encoding/addresses.py
@@ -53,7 +53,7 @@ def _ser_script_to_sh_address(
     Returns:
         The encoded address
     '''
-    if witness:
+    if witness and riemann.network.SEGWIT:
         script_hash = utils.sha256(script_bytes)
     else:
         script_hash = utils.hash160(script_bytes)
-- 
2.43.0


From e3f92cae7ad69b925b80fd4a6d023c42f3b36170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:51 +0000
Subject: [PATCH 34/40] fix: check_is_standard_tx looked at the first byte of
 the version only

---
 riemann/networks/standard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index 197a611..d2657d2 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -17,7 +17,7 @@ def check_is_standard_tx(t: tx.Tx) -> bool:
         (bool): True for standard, false for non-standard
     '''
     # 'version'
-    if t.version[0] not in [1, 2]:
+    if rutils.le2i(t.version) not in [1, 2]:
         return False
 
     # 'tx-size'
-- 
2.43.0


From 2fd0a8e11d6311bd7530cf035f9f27f230342dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:51 +0000
Subject: [PATCH 35/40] fix: is_push_only took every script for push-only

---
 riemann/networks/standard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index d2657d2..56c1892 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -52,7 +52,7 @@ def is_push_only(script_sig: bytes) -> bool:
     Returns:
         (bool): True if Push Only, otherwise False
     '''
-    script = ser.deserialize(script_sig)
+    script = ser.deserialize(script_sig).split()
     non_data_opcodes = [t for t in script if t[0:3] == 'OP_']
     for token in non_data_opcodes:
         integer_opcode = opcodes.CODE_TO_INT[token]
-- 
2.43.0


From 24b563968a5a50de0f8f77e0705357a9b4d712a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:51 +0000
Subject: [PATCH 36/40] fix: is_standard_output_type read the opcode as the key
 of P2PK outputs

---
 riemann/networks/standard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index 56c1892..019d274 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -130,7 +130,7 @@ def is_standard_output_type(o: tx.TxOut) -> bool:
     # TX_PUBKEY
     if (split_script[-1] == 'OP_CHECKSIG'
             and len(split_script) == 2
-            and len(bytes.fromhex(split_script[1])) in [33, 65]):
+            and len(bytes.fromhex(split_script[0])) in [33, 65]):
         return True
 
     # TX_MULTISIG, up to x-of-3
-- 
2.43.0


From ea50097ad503f6f408f653fc33e995bd70e78433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:18 +0000
Subject: [PATCH 37/40] fix: check_is_standard refused every OP_RETURN output,
 and any two outputs

---
 riemann/networks/standard.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index 019d274..71f0467 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -71,6 +71,10 @@ def check_is_standard(t: tx.Tx) -> bool:
         (bool): True for standard, false for non-standard
     '''
     for o in t.tx_outs:
+        # carries data, not value
+        if is_op_return(o):
+            continue
+
         # 'scriptpubkey'
         if not is_standard_output_type(o):
             return False
@@ -81,7 +85,7 @@ def check_is_standard(t: tx.Tx) -> bool:
             return False
 
     # 'multi-op-return'
-    if len([is_op_return(o) for o in t.tx_outs]) > 1:
+    if len([o for o in t.tx_outs if is_op_return(o)]) > 1:
         return False
 
     return True
-- 
2.43.0


From 8ccb56505452aa3f1c63995ed6b7fd68f53a2f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:18 +0000
Subject: [PATCH 38/40] fix: is_op_return measured the text of the script, and
 took any opcode for data

---
 riemann/networks/standard.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index 71f0467..d199897 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -105,7 +105,8 @@ def is_op_return(o: tx.TxOut) -> bool:
     # TX_NULL_DATA, up to 83 bytes (80 for safety)
     if (rutils.le2i(o.value) == 0
             and split_script[0] == 'OP_RETURN'
-            and len(script) < 80):
+            and len(o.output_script) <= 80
+            and is_push_only(o.output_script[1:])):
         return True
     return False
 
-- 
2.43.0


From adf1a5fb3ed280c5c0955abe1c8e5c6c8ff66a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:18 +0000
Subject: [PATCH 39/40] fix: standardness helpers raised on outputs that no
 policy allows

---
 riemann/networks/standard.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index d199897..f780cd1 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -91,6 +91,17 @@ def check_is_standard(t: tx.Tx) -> bool:
     return True
 
 
+def is_pubkey(token: str) -> bool:
+    '''
+    Checks whether a script element has the size of a public key
+    Args:
+        token (str): an element of a human-readable script
+    Returns:
+        (bool): True if it pushes 33 or 65 bytes, otherwise False
+    '''
+    return token[0:3] != 'OP_' and len(token) // 2 in [33, 65]
+
+
 def is_op_return(o: tx.TxOut) -> bool:
     '''
     Checks whether a txout is standard TX_NULL_DATA op_return output
@@ -99,12 +110,15 @@ def is_op_return(o: tx.TxOut) -> bool:
     Returns:
         (bool): True if standard opreturn, otherwise false
     '''
-    script: str = ser.deserialize(o.output_script)
+    try:
+        script: str = ser.deserialize(o.output_script)
+    except (LookupError, NotImplementedError, ValueError):
+        return False
     split_script = script.split()
 
     # TX_NULL_DATA, up to 83 bytes (80 for safety)
     if (rutils.le2i(o.value) == 0
-            and split_script[0] == 'OP_RETURN'
+            and split_script[:1] == ['OP_RETURN']
             and len(o.output_script) <= 80
             and is_push_only(o.output_script[1:])):
         return True
@@ -129,18 +143,24 @@ def is_standard_output_type(o: tx.TxOut) -> bool:
     except ValueError:
         pass
 
-    script: str = ser.deserialize(o.output_script)
+    try:
+        script: str = ser.deserialize(o.output_script)
+    except (LookupError, NotImplementedError, ValueError):
+        return False
     split_script = script.split()
+    if len(split_script) < 2:
+        return False
 
     # TX_PUBKEY
     if (split_script[-1] == 'OP_CHECKSIG'
             and len(split_script) == 2
-            and len(bytes.fromhex(split_script[0])) in [33, 65]):
+            and is_pubkey(split_script[0])):
         return True
 
     # TX_MULTISIG, up to x-of-3
     if (split_script[-1] == 'OP_CHECKMULTISIG'
-            and split_script[-2] in ['OP_1', 'OP_2', 'OP_3']):
+            and split_script[-2] in ['OP_1', 'OP_2', 'OP_3']
+            and split_script[0] in ['OP_1', 'OP_2', 'OP_3']):
 
         num_pubkeys = int(split_script[-2][-1])
         num_sigs = int(split_script[0][-1])
@@ -149,7 +169,7 @@ def is_standard_output_type(o: tx.TxOut) -> bool:
                 or len(split_script) != num_pubkeys + 3):  # some junk script
             return False
         for pubkey in split_script[1:-2]:
-            if len(bytes.fromhex(pubkey)) not in [33, 65]:
+            if not is_pubkey(pubkey):
                 return False
         return True
 
-- 
2.43.0


From f18001e4853e4d2ec1e880e4e8c5bbf32cdd5068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:30 +0000
Subject: [PATCH 40/40] fix: i2le_script(-1) was empty, which is 0; and
 520-byte numbers were refused

to_bytes(0, signed=True) fits -1 in CPython.
---
 riemann/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/utils.py b/riemann/utils.py
index 038c8c8..85a100e 100644
--- a/riemann/utils.py
+++ b/riemann/utils.py
@@ -41,7 +41,7 @@ def i2le_script(number: int) -> str:
     '''
     if number == 0:
         return '00'
-    for i in range(520):
+    for i in range(1, 521):
         try:  # this is stupid
             return number.to_bytes(
                 length=i,  # minimal bytes lol
-- 
2.43.0

