From 583aa2b8f2b6e3f3b387e48f09299d79a27658d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 01/33] fix: check the protocol state for offloaded range proof
 messages

An offloaded-BP SetOutput message skipped the state check, so the device
acknowledged it in any protocol phase.
---
 monero_glue/protocol/tsx_sign_builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monero_glue/protocol/tsx_sign_builder.py b/monero_glue/protocol/tsx_sign_builder.py
index d83f707..06b5af7 100644
--- a/monero_glue/protocol/tsx_sign_builder.py
+++ b/monero_glue/protocol/tsx_sign_builder.py
@@ -956,9 +956,10 @@ class TTransactionBuilder(object):
             )
             self.is_processing_offloaded = is_offloaded_bp
 
+        # Offloaded BP messages are valid only in the output phase, too.
+        self.state.set_output()
         if not self.is_processing_offloaded:
             self.out_idx += 1
-            self.state.set_output()
 
         utils.ensure(
             not dst_entr or dst_entr.amount >= 0, "Destination with negative amount"
-- 
2.43.0


From 27885384ce6822a632be69c66efac392e8496c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:53 +0000
Subject: [PATCH 02/33] fix: validate the input permutation supplied by the
 host

---
 monero_glue/protocol/tsx_sign_builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monero_glue/protocol/tsx_sign_builder.py b/monero_glue/protocol/tsx_sign_builder.py
index 06b5af7..e69921e 100644
--- a/monero_glue/protocol/tsx_sign_builder.py
+++ b/monero_glue/protocol/tsx_sign_builder.py
@@ -736,6 +736,9 @@ class TTransactionBuilder(object):
         Set permutation on the inputs - sorted by key image on host.
         """
         self.state.input_permutation()
+        if len(permutation) != self.num_inputs():
+            raise ValueError("Invalid permutation length")
+        common.check_permutation(permutation)
         self.source_permutation = permutation
         self.inp_idx = -1
 
-- 
2.43.0


From afca21cffdc4e8ac907d2329224aac62744823c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:08 +0000
Subject: [PATCH 03/33] fix: require a range proof for every output before
 finishing the outputs

---
 monero_glue/protocol/tsx_sign_builder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monero_glue/protocol/tsx_sign_builder.py b/monero_glue/protocol/tsx_sign_builder.py
index e69921e..e89dd97 100644
--- a/monero_glue/protocol/tsx_sign_builder.py
+++ b/monero_glue/protocol/tsx_sign_builder.py
@@ -1426,6 +1426,10 @@ class TTransactionBuilder(object):
         if self.out_idx + 1 != self.num_dests():
             raise ValueError("Invalid out num")
 
+        # Masks are dropped only once a range proof covering them was produced or verified
+        if self.output_masks:
+            raise ValueError("Range proof missing")
+
         # Fee test
         if self.fee != (self.summary_inputs_money - self.summary_outs_money):
             raise ValueError(
-- 
2.43.0


From 23d67c5f0d9d7f56c6ad24c15b3fdf3a89e3a63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:15 +0000
Subject: [PATCH 04/33] fix: draw the range proof blinding factors from the
 system's randomness

The blinding scalars came from a generator seeded with zeros and the
masking vectors from constant seeds, so every proof was blinded with
publicly known values.
---
 monero_glue/xmr/bulletproof.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/monero_glue/xmr/bulletproof.py b/monero_glue/xmr/bulletproof.py
index 7add744..d2af2e5 100644
--- a/monero_glue/xmr/bulletproof.py
+++ b/monero_glue/xmr/bulletproof.py
@@ -185,9 +185,7 @@ def _scalarmult_base(dst, x):
 
 def _sc_gen(dst=None):
     dst = _ensure_dst_key(dst)
-    buff = PRNG.next(32, bytearray(32))
-    crypto.decodeint_into(_tmp_sc_1, buff)
-    #crypto.random_scalar(_tmp_sc_1)
+    crypto.random_scalar_into(_tmp_sc_1)
     crypto.encodeint_into(dst, _tmp_sc_1)
     return dst
 
@@ -1967,7 +1965,7 @@ class BulletProofBuilder:
 
     def sL_vct(self, ln=_BP_N, allow_nonlinear=False):
         return (
-            KeyVPrngMask(ln, _ZERO, allow_nonlinear=allow_nonlinear) #crypto.random_bytes(32))
+            KeyVPrngMask(ln, self.proof_sec[:32], allow_nonlinear=allow_nonlinear)
             # KeyVEval(ln, lambda i, dst: self._det_mask(i, True, dst))
             if self.use_det_masks
             else self.sX_gen(ln)
@@ -1975,7 +1973,7 @@ class BulletProofBuilder:
 
     def sR_vct(self, ln=_BP_N, allow_nonlinear=False):
         return (
-            KeyVPrngMask(ln, _ONE, allow_nonlinear=allow_nonlinear)  # crypto.random_bytes(32))
+            KeyVPrngMask(ln, self.proof_sec[32:], allow_nonlinear=allow_nonlinear)
             # KeyVEval(ln, lambda i, dst: self._det_mask(i, False, dst))
             if self.use_det_masks
             else self.sX_gen(ln)
@@ -2343,7 +2341,7 @@ class BulletProofBuilder:
         self.assrt(len(sv) == len(gamma), "|sv| != |gamma|")
         self.assrt(len(sv) > 0, "sv empty")
 
-        self.proof_sec = b"\x00"*32  #crypto.random_bytes(64)
+        self.proof_sec = crypto.random_bytes(64)
         self._det_mask_init()
         gc.collect()
         self.sv = [crypto.encodeint(x) for x in sv]
-- 
2.43.0


From ea936b1383cc8da7bb1cfd0bf998ae2a4b859aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 05/33] fix: generate the wallet RPC password with the system's
 randomness

---
 monero_poc/utils/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monero_poc/utils/misc.py b/monero_poc/utils/misc.py
index 701ae0f..47462e1 100644
--- a/monero_poc/utils/misc.py
+++ b/monero_poc/utils/misc.py
@@ -124,8 +124,9 @@ def gen_simple_passwd(n):
     :param n:
     :return:
     """
+    rng = random.SystemRandom()
     return "".join(
-        random.choice(string.ascii_uppercase + string.digits) for _ in range(n)
+        rng.choice(string.ascii_uppercase + string.digits) for _ in range(n)
     )
 
 
-- 
2.43.0


From f00684643d90774f9414441466ff08f71b9f8865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:14 +0000
Subject: [PATCH 06/33] fix: drop the saved signing session when a step fails

---
 monero_glue/hwtoken/token.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/monero_glue/hwtoken/token.py b/monero_glue/hwtoken/token.py
index b14da3f..476ad1c 100644
--- a/monero_glue/hwtoken/token.py
+++ b/monero_glue/hwtoken/token.py
@@ -63,6 +63,7 @@ class TokenLite(object):
 
         self.err_ctr += 1
         self.tsx_obj = None  # clear transaction object
+        self.tsx_state = None  # drop the stored session
         await self.iface.transaction_error(e)
 
     async def monero_get_creds(self, address_n=None, network_type=None):
-- 
2.43.0


From c8be065afc35cf59f6c7bce16a44ff8787480b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:58 +0000
Subject: [PATCH 07/33] fix: do not emit an empty trailing chunk when the list
 length is a multiple of the chunk size

---
 monero_glue/xmr/common.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/monero_glue/xmr/common.py b/monero_glue/xmr/common.py
index 25ae2c0..23336d6 100644
--- a/monero_glue/xmr/common.py
+++ b/monero_glue/xmr/common.py
@@ -192,12 +192,9 @@ def defattr(obj, attr, default=None, take_none=True):
 def chunk(arr, size=1):
     res = []
     idx = 0
-    while True:
-        c = arr[idx : idx + size]
-        res.append(c)
+    while idx < len(arr):
+        res.append(arr[idx : idx + size])
         idx += size
-        if len(c) != size:
-            break
     return res
 
 
-- 
2.43.0


From 5c6e45f310f2eb59a512a481f6c7647150c7a37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:05 +0000
Subject: [PATCH 08/33] fix: CLSAG verification rejects empty rings and a wrong
 number of responses

---
 monero_glue/xmr/mlsag2.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/monero_glue/xmr/mlsag2.py b/monero_glue/xmr/mlsag2.py
index 4a6570f..755260e 100644
--- a/monero_glue/xmr/mlsag2.py
+++ b/monero_glue/xmr/mlsag2.py
@@ -784,6 +784,11 @@ def _generate_clsag(
 
 def verify_clsag(msg, ss, sc1, sI, sD, pubs, C_offset):
     n = len(pubs)
+    if n == 0:
+        raise ValueError("Empty pubs")
+    if len(ss) != n:
+        raise ValueError("Bad ss size")
+
     c = crypto.new_scalar()
     D_8 = crypto.new_point()
     tmp_bf = bytearray(32)
-- 
2.43.0


From a835912a9efdc3d2a7c7574b745104ec04323e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:10 +0000
Subject: [PATCH 09/33] fix: the address of a non-zero account with index 0 is
 a subaddress

---
 monero_glue/xmr/sub/addr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/sub/addr.py b/monero_glue/xmr/sub/addr.py
index 892d970..01231ac 100644
--- a/monero_glue/xmr/sub/addr.py
+++ b/monero_glue/xmr/sub/addr.py
@@ -49,7 +49,7 @@ class AddrInfo(object):
     def recompute_sub(self, spend_key, view_key, major=0, minor=0):
         self.spend_key = spend_key
         self.view_key = view_key
-        self.is_sub_address = major != 0 and minor != 0
+        self.is_sub_address = major != 0 or minor != 0
         self.recompute_addr()
 
 
-- 
2.43.0


From 15bf12cb458b8ba9027526a61e7a3c45600c0a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:10 +0000
Subject: [PATCH 10/33] fix: refuse addresses whose content has the wrong
 length for their kind

---
 monero_glue/xmr/sub/addr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/monero_glue/xmr/sub/addr.py b/monero_glue/xmr/sub/addr.py
index 01231ac..b353225 100644
--- a/monero_glue/xmr/sub/addr.py
+++ b/monero_glue/xmr/sub/addr.py
@@ -29,6 +29,8 @@ class AddrInfo(object):
         self.net_type = get_addr_type(ver)
         self.is_sub_address = is_subaddress(ver)
         self.is_integrated = is_integrated(ver)
+        if len(data) != (72 if self.is_integrated else 64):
+            raise ValueError("Invalid address length")
         self.spend_key = data[0:32]
         self.view_key = data[32:64]
         if self.is_integrated:
-- 
2.43.0


From 1406568afd8a26c842a4f823658569046a16d2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:10 +0000
Subject: [PATCH 11/33] fix: an address without payment id never carries the
 integrated prefix

---
 monero_glue/xmr/sub/addr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/sub/addr.py b/monero_glue/xmr/sub/addr.py
index b353225..a227ece 100644
--- a/monero_glue/xmr/sub/addr.py
+++ b/monero_glue/xmr/sub/addr.py
@@ -124,7 +124,7 @@ def public_addr_encode(
     """
     if payment_id and len(payment_id) != 8:
         raise ValueError("Payment ID has to have exactly 8B for an integrated address")
-    net_ver = net_version(net, is_sub, payment_id is not None)
+    net_ver = net_version(net, is_sub, bool(payment_id))
     return encode_addr(
         net_ver, pub_addr.spend_public_key, pub_addr.view_public_key, payment_id
     )
-- 
2.43.0


From aeecb88ea7e160eb1f6c2e55179b643a0c581360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:10 +0000
Subject: [PATCH 12/33] fix: refuse a base58 block that encodes 2^64

---
 monero_glue/misc/b58_mnr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/misc/b58_mnr.py b/monero_glue/misc/b58_mnr.py
index 274086e..fcd24f3 100644
--- a/monero_glue/misc/b58_mnr.py
+++ b/monero_glue/misc/b58_mnr.py
@@ -21,7 +21,7 @@ __alphabet = [
     ord(s) for s in "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
 ]
 __b58base = 58
-__UINT64MAX = 2 ** 64
+__UINT64MAX = 2 ** 64 - 1
 __encodedBlockSizes = [0, 2, 3, 5, 6, 7, 9, 10, 11]
 __fullBlockSize = 8
 __fullEncodedBlockSize = 11
-- 
2.43.0


From f22863b6165f63b96217bc1db716a4e70f09ac7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:10 +0000
Subject: [PATCH 13/33] fix: address information of index (0, 0) describes the
 main address

---
 monero_glue/xmr/monero.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/monero.py b/monero_glue/xmr/monero.py
index 44467c7..425818c 100644
--- a/monero_glue/xmr/monero.py
+++ b/monero_glue/xmr/monero.py
@@ -500,6 +500,6 @@ def build_address_info(creds, subidx=None, payment_id=None, net_type=NetworkType
     ai.payment_id = payment_id
     ai.net_type = net_type
     ai.is_integrated = payment_id is not None
-    ai.is_sub_address = subidx is not None
+    ai.is_sub_address = subidx is not None and (subidx[0] != 0 or subidx[1] != 0)
     ai.recompute_addr()
     return ai
-- 
2.43.0


From 698d732637fbecd0077d8e13af080777b8b539c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:55 +0000
Subject: [PATCH 14/33] fix: export the private view key as a scalar and only
 after the user agreed

---
 monero_glue/hwtoken/iface.py | 8 ++++++++
 monero_glue/hwtoken/token.py | 6 +++++-
 monero_poc/trezor.py         | 4 ++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/monero_glue/hwtoken/iface.py b/monero_glue/hwtoken/iface.py
index dcb3eb7..198fea3 100644
--- a/monero_glue/hwtoken/iface.py
+++ b/monero_glue/hwtoken/iface.py
@@ -55,6 +55,14 @@ class TokenInterface(object):
         """
         return True
 
+    async def confirm_watch_only(self, msg, ctx=None):
+        """
+        Ask confirmation on the private view key export
+        :param msg:
+        :return:
+        """
+        return True
+
     async def ki_error(self, e, ctx=None):
         """
         Key image sync error
diff --git a/monero_glue/hwtoken/token.py b/monero_glue/hwtoken/token.py
index 476ad1c..4030a47 100644
--- a/monero_glue/hwtoken/token.py
+++ b/monero_glue/hwtoken/token.py
@@ -105,8 +105,12 @@ class TokenLite(object):
         if msg.network_type != self.creds.network_type:
             return Failure(message="InvalidNetworkType")
 
+        confirmation = await self.iface.confirm_watch_only(msg, ctx=self)
+        if not confirmation:
+            return Failure(code=FailureType.ActionCancelled, message="rejected")
+
         return MoneroWatchKey(
-            watch_key=crypto.encodepoint(self.creds.view_key_private),
+            watch_key=crypto.encodeint(self.creds.view_key_private),
             address=self.creds.address,
         )
 
diff --git a/monero_poc/trezor.py b/monero_poc/trezor.py
index ab46331..58bb9bb 100644
--- a/monero_poc/trezor.py
+++ b/monero_poc/trezor.py
@@ -89,6 +89,10 @@ class TokenInterface(iface.TokenInterface):
         self.ki_sync_waiter.wait_confirmation()
         return self.ki_sync_waiter.confirmed_result
 
+    async def confirm_watch_only(self, msg, ctx=None):
+        self.server.on_watchonly()
+        return self.server.watch_only_waiter.wait_confirmation()
+
     async def ki_error(self, e, ctx=None):
         logger.error("ki sync error: %s" % e)
 
-- 
2.43.0


From 7ecbb68eaceeef3e1d1155482b39d1753896701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:32 +0000
Subject: [PATCH 15/33] fix: abort the transfer when a range proof made by the
 device is invalid

---
 monero_glue/agent/agent_lite.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/monero_glue/agent/agent_lite.py b/monero_glue/agent/agent_lite.py
index 24a2b39..df95949 100644
--- a/monero_glue/agent/agent_lite.py
+++ b/monero_glue/agent/agent_lite.py
@@ -3,7 +3,6 @@
 # Author: Dusan Klinec, ph4r05, 2018
 
 import logging
-import traceback
 
 from monero_glue.agent import agent_misc
 from monero_glue.hwtoken import misc as tmisc
@@ -708,17 +707,12 @@ class Agent(object):
         self.ct.tx_out_rsigs.append(rsig)
 
         # Rsig verification
-        try:
-            if not ring_ct.ver_range(
-                C=crypto.decodepoint(self.ct.tx_out_pk[-1].mask),
-                rsig=rsig,
-                use_bulletproof=self._is_req_bulletproof(),
-            ):
-                logger.warning("Rsing not valid")
-
-        except Exception as e:
-            logger.error("Exception rsig: %s" % e)
-            traceback.print_exc()
+        if not ring_ct.ver_range(
+            C=crypto.decodepoint(self.ct.tx_out_pk[-1].mask),
+            rsig=rsig,
+            use_bulletproof=self._is_req_bulletproof(),
+        ):
+            raise ValueError("Range proof is not valid")
 
     async def _v1_offloading(self, idx, dst, t_res):
         """
-- 
2.43.0


From 4f17e45fefbfac17ebacba2b3cf064d7f7c07be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:32 +0000
Subject: [PATCH 16/33] fix: refuse a key image sync answer that does not cover
 every output

---
 monero_glue/agent/agent_lite.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monero_glue/agent/agent_lite.py b/monero_glue/agent/agent_lite.py
index df95949..f15df13 100644
--- a/monero_glue/agent/agent_lite.py
+++ b/monero_glue/agent/agent_lite.py
@@ -794,6 +794,8 @@ class Agent(object):
             )
             self.handle_error(t_res)
 
+            if len(t_res.kis) != len(rr):
+                raise ValueError("Unexpected number of key images")
             sub_res += t_res.kis
 
         t_res = await self.trezor.key_image_sync(MoneroKeyImageSyncFinalRequest())
@@ -804,6 +806,8 @@ class Agent(object):
         final_res = []
         for sub in sub_res:  # type: key_image.MoneroExportedKeyImage
             plain = chacha_poly.decrypt(enc_key, bytes(sub.iv), bytes(sub.blob))
+            if len(plain) != 3 * 32:
+                raise ValueError("Invalid key image length")
             ki_bin = plain[:32]
 
             # ki = crypto.decodepoint(ki_bin)
-- 
2.43.0


From cc5e8e090e34927f71ad328e55ab3baa6d833b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:32 +0000
Subject: [PATCH 17/33] fix: report a device failure of the address and
 watch-only requests

---
 monero_glue/agent/agent_lite.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/monero_glue/agent/agent_lite.py b/monero_glue/agent/agent_lite.py
index f15df13..ca5ee89 100644
--- a/monero_glue/agent/agent_lite.py
+++ b/monero_glue/agent/agent_lite.py
@@ -755,6 +755,7 @@ class Agent(object):
 
         msg.payment_id = payment_id
         res = await self.trezor.call(msg)
+        self.handle_error(res)
         return res
 
     async def get_watch_only(self):
@@ -766,6 +767,7 @@ class Agent(object):
             address_n=self.address_n, network_type=self.network_type
         )
         res = await self.trezor.get_view_key(msg)
+        self.handle_error(res)
         return res
 
     async def import_outputs(self, outputs):
-- 
2.43.0


From a24371dcc7e856468636990634d5e845b7477bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:32 +0000
Subject: [PATCH 18/33] fix: compare the signed message and the fee returned by
 the device with the own transaction

---
 monero_glue/agent/agent_lite.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monero_glue/agent/agent_lite.py b/monero_glue/agent/agent_lite.py
index ca5ee89..67a601e 100644
--- a/monero_glue/agent/agent_lite.py
+++ b/monero_glue/agent/agent_lite.py
@@ -488,6 +488,10 @@ class Agent(object):
         self.ct.tx_prefix_hash = await monero.get_transaction_prefix_hash(self.ct.tx)
         if not common.ct_equal(t_res.tx_prefix_hash, self.ct.tx_prefix_hash):
             raise ValueError("Transaction prefix has does not match")
+        if not common.ct_equal(rv.message, self.ct.tx_prefix_hash):
+            raise ValueError("Signed message does not match the transaction prefix")
+        if rv.txnFee != self.ct.tsx_data.fee:
+            raise ValueError("Transaction fee does not match")
 
         # RctSig
         if self.is_simple(rv):
-- 
2.43.0


From f8a33e55576ff4e40ae4db2683193413dea1ef93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:35 +0000
Subject: [PATCH 19/33] fix: refuse truncated wire messages instead of
 zero-padding their fields

---
 monero_glue/protobuf.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/monero_glue/protobuf.py b/monero_glue/protobuf.py
index 88b59c8..ffb6707 100644
--- a/monero_glue/protobuf.py
+++ b/monero_glue/protobuf.py
@@ -50,7 +50,13 @@ def load_uvarint(reader):
     shift = 0
     byte = 0x80
     while byte & 0x80:
-        if reader.readinto(buffer) == 0:
+        try:
+            nread = reader.readinto(buffer)
+        except EOFError:
+            nread = 0
+        if nread == 0:
+            if shift:
+                raise ValueError("Truncated varint")
             raise EOFError
         byte = buffer[0]
         result += (byte & 0x7F) << shift
@@ -58,6 +64,13 @@ def load_uvarint(reader):
     return result
 
 
+def _read_exact(reader, size):
+    buf = bytearray(size)
+    if size and reader.readinto(buf) != size:
+        raise EOFError("Truncated field")
+    return buf
+
+
 def dump_uvarint(writer, n):
     if n < 0:
         raise ValueError("Cannot dump signed value, convert it to unsigned first.")
@@ -257,7 +270,7 @@ async def load_message(reader, msg_type):
                 load_uvarint(reader)
             elif wtype == 2:
                 ivalue = load_uvarint(reader)
-                reader.readinto(bytearray(ivalue))
+                _read_exact(reader, ivalue)
             else:
                 raise ValueError
             continue
@@ -275,15 +288,14 @@ async def load_message(reader, msg_type):
         elif ftype is BoolType:
             fvalue = bool(ivalue)
         elif ftype is BytesType:
-            buf = bytearray(ivalue)
-            reader.readinto(buf)
-            fvalue = bytes(buf)
+            fvalue = bytes(_read_exact(reader, ivalue))
         elif ftype is UnicodeType:
-            buf = bytearray(ivalue)
-            reader.readinto(buf)
-            fvalue = buf.decode()
+            fvalue = _read_exact(reader, ivalue).decode()
         elif issubclass(ftype, MessageType):
-            fvalue = await load_message(LimitedReader(reader, ivalue), ftype)
+            nested = LimitedReader(reader, ivalue)
+            fvalue = await load_message(nested, ftype)
+            if nested.limit != 0:
+                raise EOFError("Truncated field")
         else:
             raise TypeError  # field type is unknown
 
-- 
2.43.0


From 81ae4edddf1eaa8ae320c9e43e48f5b16ad74318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:35 +0000
Subject: [PATCH 20/33] fix: convert nested messages to the requested message
 package

---
 monero_glue/protocol_base/messages.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/monero_glue/protocol_base/messages.py b/monero_glue/protocol_base/messages.py
index 1d6d023..080f512 100644
--- a/monero_glue/protocol_base/messages.py
+++ b/monero_glue/protocol_base/messages.py
@@ -91,13 +91,17 @@ class MessageConverter(object):
                 field_name = field[0]
                 if hasattr(msg, field_name):
                     cval = getattr(msg, field_name, None)
-                    setattr(nmsg, field_name, self.to_trezorlib(cval))
+                    setattr(
+                        nmsg, field_name, self._transform(cval, src_proto, dst_package)
+                    )
             return nmsg
 
         elif isinstance(msg, list):
-            return [self.to_trezorlib(x) for x in msg]
+            return [self._transform(x, src_proto, dst_package) for x in msg]
         elif isinstance(msg, dict):
-            return {v: self.to_trezorlib(x) for v, x in msg.items()}
+            return {
+                v: self._transform(x, src_proto, dst_package) for v, x in msg.items()
+            }
         else:
             return msg
 
-- 
2.43.0


From e9612e123a3a6325229e2ff4d405b1e75c4b08e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:36 +0000
Subject: [PATCH 21/33] fix: keep the multisig data in the translated source
 entry

---
 monero_glue/hwtoken/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/hwtoken/misc.py b/monero_glue/hwtoken/misc.py
index 10858d5..39bd506 100644
--- a/monero_glue/hwtoken/misc.py
+++ b/monero_glue/hwtoken/misc.py
@@ -104,7 +104,7 @@ def translate_monero_src_entry_pb(src_entry: xmrtypes.TxSourceEntry):
     d.mask = src_entry.mask
     if src_entry.multisig_kLRki:
         s = src_entry.multisig_kLRki
-        src_entry.multisig_kLRki = MoneroMultisigKLRki(K=s.K, L=s.L, R=s.R, ki=s.ki)
+        d.multisig_kLRki = MoneroMultisigKLRki(K=s.K, L=s.L, R=s.R, ki=s.ki)
     return d
 
 
-- 
2.43.0


From 26208fe07394898ef747e6b1e5b025d7e50ee74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:31 +0000
Subject: [PATCH 22/33] fix: encode and decode messages with enumeration
 fields, such as Failure

---
 monero_glue/protobuf.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/monero_glue/protobuf.py b/monero_glue/protobuf.py
index ffb6707..28a6ae7 100644
--- a/monero_glue/protobuf.py
+++ b/monero_glue/protobuf.py
@@ -130,6 +130,19 @@ class BoolType:
     WIRE_TYPE = 0
 
 
+class EnumType:
+    WIRE_TYPE = 0
+
+    def __init__(self, enum_name, enum_values):
+        self.enum_name = enum_name
+        self.enum_values = enum_values
+
+    def validate(self, value):
+        if value not in self.enum_values:
+            raise TypeError("Invalid enum value")
+        return value
+
+
 class BytesType:
     WIRE_TYPE = 2
 
@@ -287,6 +300,8 @@ async def load_message(reader, msg_type):
             fvalue = uint_to_sint(ivalue)
         elif ftype is BoolType:
             fvalue = bool(ivalue)
+        elif isinstance(ftype, EnumType):
+            fvalue = ftype.validate(ivalue)
         elif ftype is BytesType:
             fvalue = bytes(_read_exact(reader, ivalue))
         elif ftype is UnicodeType:
@@ -338,6 +353,9 @@ async def dump_message(writer, msg):
             elif ftype is BoolType:
                 dump_uvarint(writer, int(svalue))
 
+            elif isinstance(ftype, EnumType):
+                dump_uvarint(writer, svalue)
+
             elif ftype is BytesType:
                 if isinstance(svalue, list):
                     dump_uvarint(writer, _count_bytes_list(svalue))
@@ -421,6 +439,9 @@ def format_message(
 
 
 def value_to_proto(ftype, value):
+    if isinstance(ftype, EnumType):
+        return ftype.validate(int(value))
+
     if issubclass(ftype, MessageType):
         raise TypeError("value_to_proto only converts simple values")
 
@@ -453,7 +474,7 @@ def dict_to_proto(message_type, d):
         if not repeated:
             value = [value]
 
-        if issubclass(ftype, MessageType):
+        if not isinstance(ftype, EnumType) and issubclass(ftype, MessageType):
             function = dict_to_proto
         else:
             function = value_to_proto
-- 
2.43.0


From 3159585fc1c505de30277997c8b61131565db9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:01 +0000
Subject: [PATCH 23/33] fix: derive the same pbkdf2 key with both curve
 backends

---
 monero_glue/xmr/core/ec_trezor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/monero_glue/xmr/core/ec_trezor.py b/monero_glue/xmr/core/ec_trezor.py
index 734c22e..d584cd1 100644
--- a/monero_glue/xmr/core/ec_trezor.py
+++ b/monero_glue/xmr/core/ec_trezor.py
@@ -3,6 +3,7 @@
 # Author: Dusan Klinec, ph4r05, 2018
 
 import ctypes as ct
+import hashlib
 import hmac
 
 from Crypto.Protocol.KDF import PBKDF2
@@ -139,7 +140,7 @@ def compute_hmac(key, msg=None):
 
 def pbkdf2(inp, salt, length=32, count=1000, prf=None):
     """
-    PBKDF2 with default PRF as HMAC-KECCAK-256
+    PBKDF2 with default PRF as SHA256
     :param inp:
     :param salt:
     :param length:
@@ -149,7 +150,7 @@ def pbkdf2(inp, salt, length=32, count=1000, prf=None):
     """
 
     if prf is None:
-        prf = lambda p, s: hmac.new(p, msg=s, digestmod=get_keccak).digest()
+        prf = lambda p, s: hmac.new(p, msg=s, digestmod=hashlib.sha256).digest()
     return PBKDF2(inp, salt, length, count, prf)
 
 
-- 
2.43.0


From ea54cc036bdda358c63a66a0184012901d9e6a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:01 +0000
Subject: [PATCH 24/33] fix: allocate the target of the in-place operations of
 the native backend when none is given

---
 monero_glue/xmr/core/ec_trezor.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/monero_glue/xmr/core/ec_trezor.py b/monero_glue/xmr/core/ec_trezor.py
index d584cd1..50d790b 100644
--- a/monero_glue/xmr/core/ec_trezor.py
+++ b/monero_glue/xmr/core/ec_trezor.py
@@ -170,6 +170,7 @@ def decodepoint(x, offset=0):
 
 
 def decodepoint_into(r, x, offset=0):
+    r = r if r else new_point()
     tcry.ge25519_unpack_vartime(r, tcry.KEY_BUFF(*_offset(x, offset)[:32]))
     return r
 
@@ -193,6 +194,7 @@ def decodeint_noreduce(x, offset=0):
 
 
 def decodeint_into(r, x, offset=0):
+    r = r if r else new_scalar()
     bb = _offset(x, offset)[:32]
     tcry.expand256_modm(r, tcry.KEY_BUFF(*bb), 32)
     return r
@@ -278,6 +280,7 @@ def sc_0_into(r):
     Sets 0 to the scalar value Zmod(m)
     :return:
     """
+    r = r if r else new_scalar()
     tcry.init256_modm(r, 0)
     return r
 
@@ -692,6 +695,7 @@ def hash_to_scalar_into(r, data, length=None):
     :param length:
     :return:
     """
+    r = r if r else new_scalar()
     dt = data[:length] if length else data
     tcry.xmr_hash_to_scalar(r, bytes(dt))
     return r
@@ -718,6 +722,7 @@ def hash_to_point_into(r, buf):
     :param key:
     :return:
     """
+    r = r if r else new_point()
     bf = tcry.KEY_BUFF.from_buffer_copy(buf)
     tcry.xmr_hash_to_ec(r, bf)
     return r
@@ -761,6 +766,7 @@ def add_keys2_into(r, a, b, B):
     :param B:
     :return:
     """
+    r = r if r else new_point()
     tcry.xmr_add_keys2_vartime(r, a, b, B)
     return r
 
@@ -787,6 +793,7 @@ def add_keys3_into(r, a, A, b, B):
     :param B:
     :return:
     """
+    r = r if r else new_point()
     tcry.xmr_add_keys3_vartime(r, a, A, b, B)
     return r
 
-- 
2.43.0


From 44718ace371265c7ce795bfb8489a84fb3639599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:01 +0000
Subject: [PATCH 25/33] fix: refuse truncated keys in the native curve backend

---
 monero_glue/xmr/core/ec_trezor.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/monero_glue/xmr/core/ec_trezor.py b/monero_glue/xmr/core/ec_trezor.py
index 50d790b..339126a 100644
--- a/monero_glue/xmr/core/ec_trezor.py
+++ b/monero_glue/xmr/core/ec_trezor.py
@@ -165,13 +165,20 @@ def _offset(x, offset=0):
     return memoryview(x)[offset:]
 
 
+def _key(x, offset=0):
+    x = _offset(x, offset)[:32]
+    if len(x) != 32:
+        raise ValueError("Encoded key has to have 32 bytes")
+    return tcry.KEY_BUFF(*x)
+
+
 def decodepoint(x, offset=0):
-    return tcry.ge25519_unpack_vartime_r(tcry.KEY_BUFF(*_offset(x, offset)[:32]))
+    return tcry.ge25519_unpack_vartime_r(_key(x, offset))
 
 
 def decodepoint_into(r, x, offset=0):
     r = r if r else new_point()
-    tcry.ge25519_unpack_vartime(r, tcry.KEY_BUFF(*_offset(x, offset)[:32]))
+    tcry.ge25519_unpack_vartime(r, _key(x, offset))
     return r
 
 
@@ -186,23 +193,22 @@ def encodepoint_into(b, pt, offset=0):
 
 
 def decodeint(x, offset=0):
-    return tcry.expand256_modm_r(tcry.KEY_BUFF(*_offset(x, offset)))
+    return tcry.expand256_modm_r(_key(x, offset))
 
 
 def decodeint_noreduce(x, offset=0):
-    return tcry.expand_raw256_modm_r(tcry.KEY_BUFF(*_offset(x, offset)))
+    return tcry.expand_raw256_modm_r(_key(x, offset))
 
 
 def decodeint_into(r, x, offset=0):
     r = r if r else new_scalar()
-    bb = _offset(x, offset)[:32]
-    tcry.expand256_modm(r, tcry.KEY_BUFF(*bb), 32)
+    tcry.expand256_modm(r, _key(x, offset), 32)
     return r
 
 
 def decodeint_into_noreduce(r, x, offset=0):
     r = r if r else new_scalar()
-    tcry.expand_raw256_modm(r, tcry.KEY_BUFF(*_offset(x, offset)))
+    tcry.expand_raw256_modm(r, _key(x, offset))
     return r
 
 
-- 
2.43.0


From e7c63baf01b7d7e28a27148fcce2cf04500e483b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:01 +0000
Subject: [PATCH 26/33] fix: refuse numbers out of the 64-bit range in both
 curve backends

---
 monero_glue/xmr/core/ec_py.py     | 6 ++++--
 monero_glue/xmr/core/ec_trezor.py | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/monero_glue/xmr/core/ec_py.py b/monero_glue/xmr/core/ec_py.py
index d9afc0a..eb4b57d 100644
--- a/monero_glue/xmr/core/ec_py.py
+++ b/monero_glue/xmr/core/ec_py.py
@@ -448,14 +448,14 @@ def sc_0_into(r):
 
 
 def sc_init(x):
-    if x >= (1 << 64):
+    if x < 0 or x >= (1 << 64):
         raise ValueError("Initialization works up to 64-bit only")
     return EdScalar(x)
 
 
 def sc_init_into(r, x):
     r = r if r else new_scalar()
-    if x >= (1 << 64):
+    if x < 0 or x >= (1 << 64):
         raise ValueError("Initialization works up to 64-bit only")
     return r.init(x)
 
@@ -466,6 +466,8 @@ def sc_copy(r, x):
 
 
 def sc_get64(x):
+    if x.v >= (1 << 64):
+        raise ValueError("Scalar does not fit 64 bits")
     return x.v
 
 
diff --git a/monero_glue/xmr/core/ec_trezor.py b/monero_glue/xmr/core/ec_trezor.py
index 339126a..61bb168 100644
--- a/monero_glue/xmr/core/ec_trezor.py
+++ b/monero_glue/xmr/core/ec_trezor.py
@@ -296,7 +296,7 @@ def sc_init(x):
     Sets x to the scalar value Zmod(m)
     :return:
     """
-    if x >= (1 << 64):
+    if x < 0 or x >= (1 << 64):
         raise ValueError("Initialization works up to 64-bit only")
     return tcry.init256_modm_r(x)
 
@@ -313,7 +313,7 @@ def sc_init_into(r, x):
     :return:
     """
     r = r if r else new_scalar()
-    if x >= (1 << 64):
+    if x < 0 or x >= (1 << 64):
         raise ValueError("Initialization works up to 64-bit only")
     tcry.init256_modm(r, x)
     return r
-- 
2.43.0


From e03443525d71e4c68f211fa828737330351250a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:01 +0000
Subject: [PATCH 27/33] fix: hash the same prefix with both curve backends,
 never past the end of the input

---
 monero_glue/xmr/core/ec_trezor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/monero_glue/xmr/core/ec_trezor.py b/monero_glue/xmr/core/ec_trezor.py
index 61bb168..141f262 100644
--- a/monero_glue/xmr/core/ec_trezor.py
+++ b/monero_glue/xmr/core/ec_trezor.py
@@ -90,12 +90,13 @@ def get_keccak(*args, **kwargs):
     return k
 
 
-def keccak_hash(inp):
+def keccak_hash(inp, size=None):
     """
     Hashesh input in one call
     :return:
     """
-    return tcry.xmr_fast_hash_r(bytes(inp))
+    inpx = inp if size is None else inp[:size]
+    return tcry.xmr_fast_hash_r(bytes(inpx))
 
 
 def keccak_hash_into(r, inp, size=None):
@@ -104,7 +105,8 @@ def keccak_hash_into(r, inp, size=None):
     :return:point_add
     """
     bf = tcry.KEY_BUFF.from_buffer(r)
-    tcry.cl().xmr_fast_hash(bf, bytes(inp), size if size else len(inp))
+    inpx = inp if size is None else inp[:size]
+    tcry.cl().xmr_fast_hash(bf, bytes(inpx), len(inpx))
     return r
 
 
-- 
2.43.0


From c00e85dbb9fdb20e8ae7d437b02713730383f3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:01 +0000
Subject: [PATCH 28/33] fix: hash the whole buffer to a point in place

---
 monero_glue/xmr/core/ec_trezor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/monero_glue/xmr/core/ec_trezor.py b/monero_glue/xmr/core/ec_trezor.py
index 141f262..bba6244 100644
--- a/monero_glue/xmr/core/ec_trezor.py
+++ b/monero_glue/xmr/core/ec_trezor.py
@@ -718,7 +718,7 @@ def hash_to_point(buf):
     :param key:
     :return:
     """
-    return tcry.xmr_hash_to_ec_r(buf)
+    return tcry.xmr_hash_to_ec_r(bytes(buf))
 
 
 def hash_to_point_into(r, buf):
@@ -731,8 +731,7 @@ def hash_to_point_into(r, buf):
     :return:
     """
     r = r if r else new_point()
-    bf = tcry.KEY_BUFF.from_buffer_copy(buf)
-    tcry.xmr_hash_to_ec(r, bf)
+    tcry.xmr_hash_to_ec(r, bytes(buf))
     return r
 
 
-- 
2.43.0


From df936e00d698616ad227806c2034f525d3a6a87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:01 +0000
Subject: [PATCH 29/33] fix: refuse points that are not on the curve in
 ge_frombytes_vartime

---
 monero_glue/xmr/core/ec_py.py     | 22 +++-------------------
 monero_glue/xmr/core/ec_trezor.py |  3 ++-
 2 files changed, 5 insertions(+), 20 deletions(-)

diff --git a/monero_glue/xmr/core/ec_py.py b/monero_glue/xmr/core/ec_py.py
index eb4b57d..dfed229 100644
--- a/monero_glue/xmr/core/ec_py.py
+++ b/monero_glue/xmr/core/ec_py.py
@@ -760,24 +760,7 @@ def ge_frombytes_vartime_check(point):
     :param key:
     :return:
     """
-    x, y = point[:2]
-    z = fe_1()
-    u = fe_sq(y)
-    v = fe_mul(u, d)
-    u = fe_sub(u, z)  # u = y^2-1
-    v = fe_add(v, z)  # v = dy^2+1
-
-    # x = uv^3(uv^7)^((q-5)/8)
-
-    vxx = fe_sq(x)
-    vxx = fe_mul(vxx, v)
-    check = fe_sub(vxx, u)  # vx^2-u
-    if fe_isnonzero(check):
-        check = fe_add(vxx, u)
-        if fe_isnegative(check):
-            # return -1
-            raise ValueError("Point check failed")
-    return 0
+    return 0 if ed25519_2.isoncurve(point.v) else -1
 
 
 def ge_frombytes_vartime(point):
@@ -787,7 +770,8 @@ def ge_frombytes_vartime(point):
     :param key:
     :return:
     """
-    ge_frombytes_vartime_check(point)
+    if ge_frombytes_vartime_check(point) != 0:
+        raise ValueError("Point check failed")
     return point
 
 
diff --git a/monero_glue/xmr/core/ec_trezor.py b/monero_glue/xmr/core/ec_trezor.py
index bba6244..68aa438 100644
--- a/monero_glue/xmr/core/ec_trezor.py
+++ b/monero_glue/xmr/core/ec_trezor.py
@@ -649,7 +649,8 @@ def ge_frombytes_vartime(point):
     :param key:
     :return:
     """
-    ge_frombytes_vartime_check(point)
+    if ge_frombytes_vartime_check(point) != 0:
+        raise ValueError("Point check failed")
     return point
 
 
-- 
2.43.0


From 9f11a9f0afc5e11434dd33750b129e5c0fe382ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:01 +0000
Subject: [PATCH 30/33] fix: read EC_BACKEND_FORCE=0 as not forced

---
 monero_glue/xmr/core/ec_picker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/core/ec_picker.py b/monero_glue/xmr/core/ec_picker.py
index e083825..41a737f 100644
--- a/monero_glue/xmr/core/ec_picker.py
+++ b/monero_glue/xmr/core/ec_picker.py
@@ -33,7 +33,7 @@ def get_ec_backend_force():
     global EC_BACKEND_FORCE
     en = os.getenv("EC_BACKEND_FORCE", None)
     if en is not None:
-        return bool(en)
+        return bool(int(en))
 
     return EC_BACKEND_FORCE
 
-- 
2.43.0


From 36a566b722ee7b54284efc191a8ced5364696d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:09 +0000
Subject: [PATCH 31/33] fix: advance the range proof batch when client 0 sent
 the proof with the output

With several range proof batches (more than 16 outputs) the second proof
was computed over the wrong outputs and the device refused it.
---
 monero_glue/agent/agent_lite.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/monero_glue/agent/agent_lite.py b/monero_glue/agent/agent_lite.py
index 67a601e..f6748f8 100644
--- a/monero_glue/agent/agent_lite.py
+++ b/monero_glue/agent/agent_lite.py
@@ -680,6 +680,14 @@ class Agent(object):
             if not proc:
                 return  # no state advance
 
+        elif self._is_offloading():
+            # Client0: the range proof was sent along with the output closing the batch
+            if (
+                self.ct.rsig_batches[self.ct.cur_batch_idx]
+                > self.ct.cur_output_in_batch_idx
+            ):
+                return  # no state advance
+
         else:
             rsig = None
             if rsig_buff and not self._is_req_bulletproof():
-- 
2.43.0


From 5c435da212eca50f6ffb1311cdca0d39f174339c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:09 +0000
Subject: [PATCH 32/33] fix: refuse mistyped recovery phrases

The checksum word was never tested (the size of the word list was looked at
instead of the number of words), surplus words were dropped and words which
do not encode a 32-bit number were accepted.
---
 monero_glue/xmr/core/mnemonic.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/monero_glue/xmr/core/mnemonic.py b/monero_glue/xmr/core/mnemonic.py
index a3db4b4..779d363 100644
--- a/monero_glue/xmr/core/mnemonic.py
+++ b/monero_glue/xmr/core/mnemonic.py
@@ -1681,19 +1681,24 @@ def mn_encode(message, checksum=False):
 def mn_decode(wlist):
     out = ""
     n = len(words)
-    has_checksum = (n % 3) == 1
+    has_checksum = (len(wlist) % 3) == 1
 
     if has_checksum:
         if not checksum_test(wlist):
             raise ValueError("Electrum checksum incorrect")
         wlist = wlist[:-1]
 
+    if len(wlist) % 3 != 0:
+        raise ValueError("Incomplete mnemonics")
+
     for i in range(len(wlist) // 3):  # note 24 / 3 = 8... 12 / 3 = 4..
         word1, word2, word3 = wlist[3 * i : 3 * i + 3]
         w1 = words.index(word1)
         w2 = words.index(word2)
         w3 = words.index(word3)
         x = w1 + n * ((n + w2 - w1) % n) + n * n * ((n + w3 - w2) % n)  # as an int
+        if x >= 1 << 32:
+            raise ValueError("Words do not encode a seed")
         b = "%08x" % x  # this is big endian!
         out += mn_swap_endian_4byte(b)
 
@@ -1711,8 +1716,8 @@ def checksum_create(wlist, unique_prefix_len=UNIQUE_PREFIX_LEN):
 
 
 def checksum_test(wlist, unique_prefix_len=UNIQUE_PREFIX_LEN):
-    words = wlist
-    last_word = words.pop()
+    words = wlist[:-1]
+    last_word = wlist[-1]
     checksum = words[checksum_create(words, unique_prefix_len)]
     trimmed_checksum = (
         checksum[:unique_prefix_len] if len(checksum) > unique_prefix_len else checksum
-- 
2.43.0


From 9f39288b421d23f84da437f2cb33749c01d199b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:28 +0000
Subject: [PATCH 33/33] fix: remember derived keys by the values of keyword
 arguments

memoize keyed its results by the names of the keyword arguments only, so
that get_child(0, is_prime=False) after get_child(0, is_prime=True) returned
the hardened child.
---
 monero_glue/misc/bip/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/misc/bip/utils.py b/monero_glue/misc/bip/utils.py
index b561a7c..5b0317c 100644
--- a/monero_glue/misc/bip/utils.py
+++ b/monero_glue/misc/bip/utils.py
@@ -62,7 +62,7 @@ def memoize(f):
     def _c(*args, **kwargs):
         if not hasattr(f, "cache"):
             f.cache = dict()
-        key = (args, tuple(kwargs))
+        key = (args, tuple(sorted(kwargs.items())))
         if key not in f.cache:
             f.cache[key] = f(*args, **kwargs)
         return f.cache[key]
-- 
2.43.0

