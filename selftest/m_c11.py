from mutants import bug, ref
K = "monero_glue/protocol/key_image_sync.py"
I = "monero_glue/xmr/key_image.py"
A = "monero_glue/agent/agent_lite.py"
R = "monero_glue/xmr/ring_ct.py"
M = "monero_glue/xmr/monero.py"
T = "monero_glue/hwtoken/token.py"
C = "monero_glue/xmr/common.py"

bug("C11", "consent-late", (K, '        confirmation = await self.iface.confirm_ki_sync(msg, ctx=ctx)\n        if not confirmation:\n', '        self.num = msg.num\n        confirmation = await self.iface.confirm_ki_sync(msg, ctx=ctx)\n        if not confirmation:\n'))
bug("C11", "consent-ignored", (K, "        if not confirmation:\n", "        if confirmation is None:\n"))
bug("C11", "key-static", (K, "        self.enc_key = crypto.random_bytes(32)\n", "        self.enc_key = crypto.keccak_2hash(msg.hash)\n"))
bug("C11", "key-kept", (K, "        self.enc_key = crypto.random_bytes(32)\n", "        self.enc_key = self.enc_key or crypto.random_bytes(32)\n"))
bug("C11", "count-per-batch", (K, "        for td in tds.tdis:\n            self.c_idx += 1\n", "        self.c_idx += 1\n        for td in tds.tdis:\n"))
bug("C11", "bound-off", (K, "            if self.c_idx >= self.num:\n", "            if self.c_idx > self.num:\n"))
bug("C11", "hash-skip", (K, "            hash = key_image.compute_hash(td)\n            self.hasher.update(hash)\n", "            hash = key_image.compute_hash(td)\n            if td.tx_pub_key:\n                self.hasher.update(hash)\n"))
bug("C11", "hash-late", (K, "            self.hasher.update(hash)\n", ""), (K, "        return MoneroKeyImageSyncStepAck(kis=resp)\n", "        self.hasher.update(hash)\n        return MoneroKeyImageSyncStepAck(kis=resp)\n"))
bug("C11", "hash-no-index", (I, "    kck.update(xmrserialize.dump_uvarint_b(rr.internal_output_index))\n", ""))
bug("C11", "hash-add-cond", (I, "    if rr.additional_tx_pub_keys:\n        for x", "    if len(rr.additional_tx_pub_keys) > 1:\n        for x"))
bug("C11", "own-skip", (M, "    if not crypto.point_eq(pub_ver, out_key):\n", "    if real_output_index and not crypto.point_eq(pub_ver, out_key):\n"))
bug("C11", "blob-plain", (K, "            eki = MoneroExportedKeyImage(iv=nonce, blob=ciph)\n", "            eki = MoneroExportedKeyImage(iv=nonce, blob=bytes(buff))\n"))
bug("C11", "final-count", (K, "        if self.c_idx + 1 != self.num:\n", "        if self.c_idx + 1 > self.num:\n"))
bug("C11", "final-hash", (K, "        if final_hash != self.hash:\n", "        if self.hash and final_hash[:16] != self.hash[:16]:\n"))
bug("C11", "final-hash-none", (K, "        if final_hash != self.hash:\n", "        if self.num and final_hash != self.hash:\n"))
bug("C11", "sync-returns-key", (K, "        return MoneroKeyImageSyncStepAck(kis=resp)\n", "        if self.c_idx + 1 == self.num:\n            resp.append(MoneroExportedKeyImage(iv=b'', blob=self.enc_key))\n        return MoneroKeyImageSyncStepAck(kis=resp)\n"))
bug("C11", "session-kept", (T, "                res = await self.ki_sync.final(self, msg)\n                self.ki_sync = None\n", "                res = await self.ki_sync.final(self, msg)\n"))
bug("C11", "error-kept", (T, "            await self.ki_exc_handler(e)\n            self.ki_sync = None\n", "            traceback.print_exc()\n"))
bug("C11", "host-layout", (A, "            final_res.append((ki_bin, (plain[32:64], plain[64:])))\n", "            final_res.append((ki_bin, (plain[64:], plain[32:64])))\n"))
bug("C11", "sig-message", (R, "    phash = crypto.encodepoint(ki)\n", "    phash = crypto.encodepoint(pkey)\n"))
bug("C11", "buff-swap", (K, "            crypto.encodeint_into(buff_mv[32:64], sig[0][0])\n            crypto.encodeint_into(buff_mv[64:], sig[0][1])\n", "            crypto.encodeint_into(buff_mv[32:64], sig[0][1])\n            crypto.encodeint_into(buff_mv[64:], sig[0][0])\n"))
bug("C11", "commit-num", (I, "        kck.update(hash)\n        num += 1\n", "        kck.update(hash)\n        num += 1 if rr.tx_pub_key else 0\n"))

ref("c11-enumerate", (K, "        for td in tds.tdis:\n            self.c_idx += 1\n            if self.c_idx >= self.num:\n", "        base = self.c_idx\n        for i, td in enumerate(tds.tdis):\n            self.c_idx = base + 1 + i\n            if not self.c_idx < self.num:\n"))
ref("c11-pack", (K, "            nonce, ciph, tag = chacha_poly.encrypt(self.enc_key, buff)\n            eki = MoneroExportedKeyImage(iv=nonce, blob=ciph)\n            resp.append(eki)\n",
                 "            resp.append(self._seal(buff))\n"), (K, "    async def final(self, ctx, msg=None):\n", "    def _seal(self, buff):\n        nonce, ciph, _ = chacha_poly.encrypt(self.enc_key, bytes(buff))\n        return MoneroExportedKeyImage(iv=nonce, blob=ciph)\n\n    async def final(self, ctx, msg=None):\n"))
ref("c11-buff", (K, "            crypto.encodepoint_into(buff_mv[0:32], ki)\n            crypto.encodeint_into(buff_mv[32:64], sig[0][0])\n            crypto.encodeint_into(buff_mv[64:], sig[0][1])\n", "            buff = crypto.encodepoint(ki) + crypto.encodeint(sig[0][0]) + crypto.encodeint(sig[0][1])\n"))
ref("c11-final", (K, "        final_hash = self.hasher.digest()\n        if final_hash != self.hash:\n", "        if not self.hash == self.hasher.digest():\n"))
