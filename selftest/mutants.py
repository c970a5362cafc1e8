M = []
B = "monero_glue/protocol/tsx_sign_builder.py"
S = "monero_glue/protocol/tsx_sign_state.py"
T = "monero_glue/protocol/tsx_sign.py"


def bug(prop, name, *edits, **kw):
    M.append(dict(kind="bug", prop=prop, name=name, edits=[tuple(e) for e in edits], **kw))


def ref(name, *edits, **kw):
    M.append(dict(kind="ref", prop="*", name=name, edits=[tuple(e) for e in edits], **kw))


# ---- C01
bug("C01", "state-perm-early", (S, "        if self.s != self.INPUT_DONE:\n", "        if self.s not in (self.INPUT, self.INPUT_DONE):\n"))
bug("C01", "state-setfinal", (S, "        if self.s != self.SIGNATURE_DONE:\n", "        if self.s != self.SIGNATURE_DONE and self.s != self.SIGNATURE:\n"))
bug("C01", "terminal", (S, "[self.FINAL, self.FAIL]", "[self.FINAL]"))
bug("C01", "fail-final", (S, "    def set_fail(self):\n        self.s = self.FAIL", "    def set_fail(self):\n        self.s = self.OUTPUT_DONE"))
bug("C01", "sign-done-early", (B, "        if self.inp_idx + 1 == self.num_inputs():\n            self.state.set_signature_done()", "        if self.inp_idx + 2 >= self.num_inputs():\n            self.state.set_signature_done()"))
bug("C01", "vini-nostate", (B, "        self.state.input_vins()\n", ""))
bug("C01", "outcount", (B, "        if self.out_idx + 1 != self.num_dests():\n            raise ValueError(\"Invalid out num\")\n", ""))
bug("C01", "numinputs-check", (B, 'utils.ensure(self.inp_idx + 1 == self.input_count, "Invalid number of inputs")', 'utils.ensure(self.inp_idx + 1 <= self.input_count, "Invalid number of inputs")'))
bug("C01", "dispatch-swap", (T, "return await self.tsx_inputs_permutation(msg)", "return await self.tsx_all_in_set(msg)"))
bug("C01", "input-bound", (B, "        if self.inp_idx >= self.num_inputs():\n            raise ValueError(\"Invalid ins\")\n", ""))
bug("C01", "outidx-bound", (B, 'self.out_idx < self.output_count, "Invalid output index"', 'self.out_idx <= self.output_count, "Invalid output index"'))
# ---- C02
bug("C02", "vini-hmac-skip", (B, '        if not common.ct_equal(hmac_vini, hmac):\n            raise ValueError("HMAC is not correct")\n', ""))
bug("C02", "vini-idx", (B, "            src_entr, vini_bin, self.source_permutation[self.inp_idx]\n", "            src_entr, vini_bin, self.inp_idx\n"), )
bug("C02", "vini-noentr", (B, "        kwriter = get_keccak_writer()\n        await protobuf.dump_message(kwriter, src_entr)\n", "        kwriter = get_keccak_writer()\n"))
bug("C02", "dst-idx", (B, "self.gen_hmac_tsxdest(dst_entr, self.out_idx)", "self.gen_hmac_tsxdest(dst_entr, 0)"))
bug("C02", "dst-late", (B, '                common.ct_equal(dst_entr_hmac, dst_entr_hmac_computed), "HMAC failed"', '                dst_entr_hmac is not None, "HMAC failed"'))
bug("C02", "pseudo-skip", (B, "            if not common.ct_equal(pseudo_out_hmac_comp, pseudo_out_hmac):", "            if self.inp_idx and not common.ct_equal(pseudo_out_hmac_comp, pseudo_out_hmac):"))
bug("C02", "alpha-idx", (B, "chacha_poly.decrypt_pack(self.enc_key_txin_alpha(inv_idx), bytes(alpha_enc))", "chacha_poly.decrypt_pack(self.enc_key_txin_alpha(self.inp_idx), bytes(alpha_enc))"))
bug("C02", "key-noindex", (B, 'return self._build_key(self.key_hmac, b"txin-comm", idx)', 'return self._build_key(self.key_hmac, b"txin-comm")'))
bug("C02", "ct_equal", ("monero_glue/xmr/common.py", "    return hmac.compare_digest(a, b)", "    return hmac.compare_digest(a[:8], b[:8])"))
# ---- C03
bug("C03", "idx-7f", (B, "shifted = index >> 7", "shifted = index >> 8"))
bug("C03", "disc-trunc", (B, "utils.memcpy(key_buff, offset, discriminator, 0, len(discriminator))", "utils.memcpy(key_buff, offset, discriminator, 0, min(4, len(discriminator)))"))
bug("C03", "disc-same", (B, 'self._build_key(self.key_hmac, b"txin-comm", idx)', 'self._build_key(self.key_hmac, b"txin", idx)'))
bug("C03", "secret-short", (B, "utils.memcpy(key_buff, 0, secret, 0, len(secret))", "utils.memcpy(key_buff, 0, secret, 0, 16)"))
bug("C03", "overlap", (B, "        offset = 32\n        utils.memcpy(key_buff, 0, secret", "        offset = 24\n        utils.memcpy(key_buff, 0, secret"))
bug("C03", "norand", (B, "writer.get_digest() + crypto.encodeint(crypto.random_scalar())", "writer.get_digest() + crypto.encodeint(self.r)"))
bug("C03", "same-master", (B, 'self.key_enc = crypto.keccak_2hash(b"enc" + self.key_master)', 'self.key_enc = crypto.keccak_2hash(b"hmac" + self.key_master)'))
bug("C03", "spend-noidx", (B, 'self._build_key(self.key_enc, b"txin-spend", idx)', 'self._build_key(self.key_enc, b"txin-spend", idx // 2)'))
ref("buildkey-concat", (B, """        key_buff = bytearray(32 + 12 + 4)  # key + disc + index
        offset = 32
        utils.memcpy(key_buff, 0, secret, 0, len(secret))

        if discriminator is not None:
            utils.memcpy(key_buff, offset, discriminator, 0, len(discriminator))
            offset += len(discriminator)

        if index is not None:
            # dump_uvarint_b_into, saving import
            shifted = True
            while shifted:
                shifted = index >> 7
                key_buff[offset] = (index & 0x7F) | (0x80 if shifted else 0x00)
                offset += 1
                index = shifted

        return crypto.keccak_2hash(key_buff)
""", """        buff = bytes(secret) + (discriminator or b"")
        if index is not None:
            while index >= 0x80:
                buff += bytes([(index & 0x7F) | 0x80])
                index >>= 7
            buff += bytes([index])
        buff += b"\\x00" * (32 + 12 + 4 - len(buff))
        return crypto.keccak_2hash(buff)
"""))
# ---- C05
A = "monero_glue/xmr/sub/addr.py"
bug("C05", "nochange-check", (B, "        self.check_change(tsx_data.outputs)\n", ""))
bug("C05", "own-late", (B, "        if not addr_eq(my_addr, change_addr):\n            raise misc.TrezorChangeAddressError(\"Change address differs from ours\")\n", ""))
bug("C05", "sweep-wide", (B, "if change_idx is None and self.output_change.amount == 0 and len(outputs) == 2:", "if change_idx is None and self.output_change.amount == 0 and len(outputs) >= 2:"))
bug("C05", "sweep-amount", (B, "if change_idx is None and self.output_change.amount == 0 and len(outputs) == 2:", "if change_idx is None and len(outputs) == 2:"))
bug("C05", "addr-eq-view", (A, "    return (\n        a.spend_public_key == b.spend_public_key\n        and a.view_public_key == b.view_public_key\n    )", "    return a.view_public_key == b.view_public_key"))
bug("C05", "addr-eq-or", (A, "        and a.view_public_key == b.view_public_key", "        or a.view_public_key == b.view_public_key"))
bug("C05", "own-account0", (B, "            self.creds.spend_key_public,\n            self.account_idx,\n            0,", "            self.creds.spend_key_public,\n            0,\n            self.account_idx,"))
bug("C05", "fee-gt", (B, "        if self.fee != (self.summary_inputs_money - self.summary_outs_money):", "        if self.fee > (self.summary_inputs_money - self.summary_outs_money):"))
bug("C05", "sum-late", (B, "            self.summary_outs_money += dst_entr.amount\n", "            if not dst_entr.is_subaddress:\n                self.summary_outs_money += dst_entr.amount\n"))
bug("C05", "last-amount", (B, "            self.input_last_amount = src_entr.amount\n", "            self.input_last_amount = self.summary_inputs_money\n"))
bug("C05", "bp-amount", (B, "            self.output_amounts.append(dst_entr.amount)\n", "            self.output_amounts.append(self.summary_outs_money)\n"))
bug("C05", "fee-getfee", (B, "        self.fee = tsx_data.fee\n", "        self.fee = tsx_data.fee or 0\n"))
bug("C05", "perm-len", (B, "        if len(permutation) != self.num_inputs():", "        if len(permutation) > self.num_inputs():"))
ref("check-change-any", (B, """        found = False
        for out in outputs:
            if addr_eq(out.addr, change_addr):
                found = True
                break

        if not found:
""", """        if not any(addr_eq(out.addr, change_addr) for out in outputs):
"""))
ref("check-change-own-first", (B, """        my_addr = self.get_primary_change_address()
        if not addr_eq(my_addr, change_addr):
            raise misc.TrezorChangeAddressError("Change address differs from ours")

        return True
""", """        return True
"""), (B, """        found = False
        for out in outputs:
            if addr_eq(out.addr, change_addr):
                found = True
                break
""", """        mine = self.get_primary_change_address()
        if (
            mine.spend_public_key != change_addr.spend_public_key
            or mine.view_public_key != change_addr.view_public_key
        ):
            raise misc.TrezorChangeAddressError("Change address differs from ours")
        found = False
        for i in range(len(outputs)):
            if addr_eq(change_addr, outputs[i].addr):
                found = True
"""))
ref("fee-helper", (B, """        if self.fee != (self.summary_inputs_money - self.summary_outs_money):
            raise ValueError(
                "Fee invalid %s vs %s, out: %s"
                % (
                    self.fee,
                    self.summary_inputs_money - self.summary_outs_money,
                    self.summary_outs_money,
                )
            )
""", """        self._balance()
"""), (B, """    async def tsx_mlsag_out_pk(self):
""", """    def _balance(self):
        spent = self.summary_outs_money + self.fee
        if spent == self.summary_inputs_money:
            return
        raise ValueError("Fee invalid")

    async def tsx_mlsag_out_pk(self):
"""))
# ---- C06
bug("C06", "c06-nokeycheck", (B, """                crypto.scalarmult_base(input_secret_key.dest),
            ),""", """                crypto.scalarmult_base(input_secret_key.dest),
            )
            or src_entr.real_output > 0,"""))
bug("C06", "c06-maskcheck", (B, "crypto.gen_c(input_secret_key.mask, src_entr.amount),", "crypto.gen_c(input_secret_key.mask, self.input_last_amount),"))
bug("C06", "c06-index", (B, "            index,\n        )\n\n        if __debug__", "            0,\n        )\n\n        if __debug__"))
bug("C06", "c06-inpidx-last", (B, "if self.is_det_mask() and inv_idx + 1 == self.input_count:", "if self.is_det_mask() and self.inp_idx + 1 == self.input_count:"))
bug("C06", "c06-no-sumcheck", (B, """            if self.inp_idx + 1 == self.input_count:
                utils.ensure(
                    crypto.sc_eq(self.sumpouts_alphas, self.sumout), "Sum eq error"
                )
""", ""))
bug("C06", "c06-sumcheck-idx", (B, """            if self.inp_idx + 1 == self.input_count:
                utils.ensure(""", """            if inv_idx + 1 == self.input_count:
                utils.ensure("""))
bug("C06", "c06-corr-sign", (B, "crypto.sc_sub(self.sumout, self.sumpouts_alphas)", "crypto.sc_sub(self.sumpouts_alphas, self.sumout)"))
bug("C06", "c06-nocorr-sum", (B, "            crypto.sc_add_into(self.sumpouts_alphas, self.sumpouts_alphas, alpha_diff)\n", "            self.sumpouts_alphas = self.sumout\n            crypto.sc_add_into(pseudo_out_alpha, pseudo_out_alpha, alpha_diff)\n"))
bug("C06", "c06-amount", (B, "self.input_last_amount = src_entr.amount", "self.input_last_amount = self.summary_inputs_money"))
bug("C06", "c06-noreset", (B, "        self.sumout = crypto.sc_init(0)\n        return rsig_data", "        return rsig_data"))
bug("C06", "c06-alpha-other", (B, "return alpha, crypto.gen_c(alpha, in_amount)", "return alpha, crypto.gen_c(self.sumpouts_alphas, in_amount)"))
bug("C06", "c06-outsum", (B, "crypto.sc_add_into(self.sumout, self.sumout, mask)", "crypto.sc_add_into(self.sumout, self.sumout, mask) if self.out_idx else None"))
bug("C06", "c06-pseudo-ret", (B, "pseudo_out=crypto.encodepoint(pseudo_out_c)", "pseudo_out=crypto.encodepoint(crypto.gen_c(pseudo_out_alpha, self.input_last_amount))"))
ref("c06-refactor", (B, """            crypto.sc_add_into(pseudo_out_alpha, pseudo_out_alpha, alpha_diff)
            crypto.sc_add_into(self.sumpouts_alphas, self.sumpouts_alphas, alpha_diff)
""", """            pseudo_out_alpha = self._shift(alpha_diff, pseudo_out_alpha)
            self.sumpouts_alphas = self._shift(self.sumpouts_alphas, alpha_diff)
"""), (B, """    async def sign_input(
        self,
""", """    def _shift(self, a, b):
        return crypto.sc_add(a, b)

    async def sign_input(
        self,
"""), (B, """        utils.ensure(
            crypto.point_eq(
                crypto.decodepoint(src_entr.outputs[src_entr.real_output].key.dest),
                crypto.scalarmult_base(input_secret_key.dest),
            ),
            "Real source entry's destination does not equal spend key's",
        )
""", """        real = src_entr.outputs[index].key
        expected = crypto.scalarmult_base(spend_key)
        if not crypto.point_eq(expected, crypto.decodepoint(real.dest)):
            raise ValueError("Real source entry's destination does not equal spend key's")
"""))
# ---- C08
H = "monero_glue/xmr/sub/mlsag_hasher.py"
bug("C08", "c08-unlock", (B, "        await self.tx_prefix_hasher.uvarint(self.tx.unlock_time)\n", "        if self.tx.unlock_time:\n            await self.tx_prefix_hasher.uvarint(self.tx.unlock_time)\n"))
bug("C08", "c08-order", (B, """        await self.tx_prefix_hasher.uvarint(self.tx.unlock_time)
        await self.tx_prefix_hasher.container_size(self.num_inputs())  # ContainerType
""", """        await self.tx_prefix_hasher.container_size(self.num_inputs())  # ContainerType
        await self.tx_prefix_hasher.uvarint(self.tx.unlock_time)
"""))
bug("C08", "c08-outcount", (B, "await self.tx_prefix_hasher.uvarint(self.output_count)", "await self.tx_prefix_hasher.uvarint(len(self.output_amounts))"))
bug("C08", "c08-vini-first", (B, "        await self.tx_prefix_hasher.buffer(vini_bin)\n", "        if self.inp_idx:\n            await self.tx_prefix_hasher.buffer(vini_bin)\n"))
bug("C08", "c08-ecdh-late", (B, "await self.full_message_hasher.set_ecdh(ecdh_info_bin)", "await self.full_message_hasher.set_ecdh(ecdh_info_bin[:32])"))
bug("C08", "c08-rsig-R", (H, "            for i in range(len(p.R)):\n                self.rsig_hasher.update(p.R[i])", "            for i in range(len(p.R) - 1):\n                self.rsig_hasher.update(p.R[i])"))
bug("C08", "c08-oneshot-R", (H, "            for i in range(len(p.R)):\n                kc.update(p.R[i])", "            for i in range(len(p.L)):\n                kc.update(p.L[i])"))
bug("C08", "c08-rsig-skip", (B, "        await self.full_message_hasher.rsig_val(bp_obj, True, raw=False)\n", "        if self.out_idx + 1 == self.output_count:\n            await self.full_message_hasher.rsig_val(bp_obj, True, raw=False)\n"))
bug("C08", "c08-outpk-none", (B, "            await self.full_message_hasher.set_out_pk(out)", "            await self.full_message_hasher.set_out_pk(self.output_pk[0])"))
bug("C08", "c08-type", (B, "            return RctType.Bulletproof2\n", "            return RctType.Bulletproof\n"))
bug("C08", "c08-fee", (H, "field=rfields[1], fvalue=fee)", "field=rfields[0], fvalue=fee)"))
bug("C08", "c08-digest-norsig", (H, "        c_hash = self.rsig_hasher.digest()\n        self.rsig_hasher = None\n\n        self.kc_master.update(c_hash)", "        c_hash = self.rsig_hasher.digest()\n        self.rsig_hasher = None\n"))
bug("C08", "c08-extra-early", (B, """        # Hashing transaction prefix
        await self.all_out1_set_tx_prefix()
        extra_b = self.tx.extra""", """        # Hashing transaction prefix
        await self.all_out1_set_tx_prefix()
        extra_b = self.tx.extra + b"\\x00" """))
bug("C08", "c08-writer", ("monero_glue/xmr/sub/keccak_hasher.py", "        if len(buf) == 0:\n            return\n        self.ctx", "        if len(buf) <= 1:\n            return\n        self.ctx"))
ref("c08-bp-loop", (H, """            self.rsig_hasher.update(p.A)
            self.rsig_hasher.update(p.S)
            self.rsig_hasher.update(p.T1)
            self.rsig_hasher.update(p.T2)
            self.rsig_hasher.update(p.taux)
            self.rsig_hasher.update(p.mu)
            for i in range(len(p.L)):
                self.rsig_hasher.update(p.L[i])
            for i in range(len(p.R)):
                self.rsig_hasher.update(p.R[i])
            self.rsig_hasher.update(p.a)
            self.rsig_hasher.update(p.b)
            self.rsig_hasher.update(p.t)
""", """            self._hash_bp(p)
"""), (H, """    async def get_digest(self):
""", """    def _hash_bp(self, p):
        h = self.rsig_hasher
        for x in (p.A, p.S, p.T1, p.T2, p.taux, p.mu):
            h.update(x)
        for point in p.L:
            h.update(point)
        for point in p.R:
            h.update(point)
        for x in (p.a, p.b, p.t):
            h.update(x)

    async def get_digest(self):
"""), (B, """        for out in self.output_pk:
            await self.full_message_hasher.set_out_pk(out)
""", """        for i in range(len(self.output_pk)):
            await self.full_message_hasher.set_out_pk(self.output_pk[i])
"""))
R = "monero_glue/xmr/ring_ct.py"
bug("C07", "c07-noverdict", (B, '        utils.ensure(res, "BP verification fail")\n', '        if not res:\n            self._log_trace("BP verification fail")\n'))
bug("C07", "c07-noverify", (B, "        res = await ring_ct.verify_bp(bp_obj, self.output_amounts, self.output_masks)", "        res = await ring_ct.verify_bp(bp_obj)"))
bug("C07", "c07-clear-early", (B, """        if (self.out_idx + 1 == self.output_count) and (
            not self.rsig_offload or self.is_processing_offloaded
        ):""", """        if (self.out_idx + 1 == self.output_count) and (
            not self.rsig_offload or self.is_processing_offloaded or self.is_det_mask()
        ):"""))
bug("C07", "c07-clear-inwait", (B, '            """Bulletproof offloaded to the host, deterministic masks. Nothing here, waiting for offloaded BP."""\n            pass', '            self.output_masks = []\n            self.output_amounts = []'))
bug("C07", "c07-nomissing", (B, "            and (not self.is_det_mask() or self.is_processing_offloaded)\n        ):\n            raise ValueError(\"Rsig expected, not provided\")",
    "            and self.is_processing_offloaded\n            and not self.is_det_mask()\n        ):\n            raise ValueError(\"Rsig expected, not provided\")"),
    (B, '            """Bulletproof calculated on host, verify in Trezor"""\n            await self._s6_rsig_process_bp(rsig_data)', '            if provided_rsig:\n                await self._s6_rsig_process_bp(rsig_data)\n            self.output_masks = []\n            self.output_amounts = []'))
bug("C07", "c07-extraneous", (B, "        if not self.rsig_offload and provided_rsig:\n            raise", "        if not self.use_bulletproof and provided_rsig:\n            raise"))
bug("C07", "c07-early", (B, "        if self.rsig_offload and provided_rsig and not last_in_batch:\n            raise", "        if self.rsig_offload and provided_rsig and self.out_idx < 0:\n            raise"))
bug("C07", "c07-order", (B, "                not last_in_batch or self.is_processing_offloaded != is_offloaded_bp,", "                not last_in_batch or not (self.is_processing_offloaded and is_offloaded_bp),"))
bug("C07", "c07-extra-msg", (B, "        if is_offloaded_bp and (not self.rsig_offload or not self.is_det_mask()):", "        if is_offloaded_bp and not self.rsig_offload and not self.is_det_mask():"))
bug("C07", "c07-allout", (B, "        if self.output_masks:\n            raise ValueError(\"Range proof missing\")", "        if self.output_masks and not self.rsig_offload:\n            raise ValueError(\"Range proof missing\")"))
bug("C07", "c07-V-partial", (R, "        for i in range(len(amounts)):\n            C = crypto.gen_c(masks[i], amounts[i])", "        for i in range(len(amounts) - 1):\n            C = crypto.gen_c(masks[i], amounts[i])"))
bug("C07", "c07-V-first", (R, "            C = crypto.gen_c(masks[i], amounts[i])", "            C = crypto.gen_c(masks[i], amounts[0])"))
bug("C07", "c07-verdict", (R, "    res = bpi.verify(bp_proof)\n    gc.collect()", "    res = True\n    bpi.verify(bp_proof)\n    gc.collect()"))
bug("C07", "c07-V-keep", (R, "    if amounts:\n        bp_proof.V = []", "    if amounts and not getattr(bp_proof, 'V', None):\n        bp_proof.V = []"))
bug("C07", "c07-own", (R, "bpi.prove_batch([crypto.sc_init(a) for a in amounts], masks)", "bpi.prove_batch([crypto.sc_init(a) for a in amounts if a], masks)"))
bug("C07", "c07-mask", (B, "        self.output_masks.append(mask)\n        return tx_out_key", "        self.output_masks.append(crypto.sc_init(1) if dst_entr.amount == 0 else mask)\n        return tx_out_key"))
ref("c07-helper", (B, """        res = await ring_ct.verify_bp(bp_obj, self.output_amounts, self.output_masks)
        utils.ensure(res, "BP verification fail")
""", """        await self._require_valid_proof(bp_obj)
"""), (B, """    def _s6_dump_rsig_bp(self, rsig):
""", """    async def _require_valid_proof(self, proof):
        from monero_glue.xmr import ring_ct

        amounts, masks = self.output_amounts, self.output_masks
        if not await ring_ct.verify_bp(proof, amounts, masks):
            raise ValueError("BP verification fail")

    def _s6_dump_rsig_bp(self, rsig):
"""), (R, """        bp_proof.V = []
        for i in range(len(amounts)):
            C = crypto.gen_c(masks[i], amounts[i])
            crypto.scalarmult_into(C, C, crypto.sc_inv_eight())
            bp_proof.V.append(crypto.encodepoint(C))
""", """        inv8 = crypto.sc_inv_eight()
        bp_proof.V = [
            crypto.encodepoint(crypto.scalarmult(crypto.gen_c(m, a), inv8))
            for a, m in zip(amounts, masks)
        ]
"""))
ref("c07-verify-first", (B, """        await self.full_message_hasher.rsig_val(bp_obj, True, raw=False)

        res = await ring_ct.verify_bp(bp_obj, self.output_amounts, self.output_masks)
        utils.ensure(res, "BP verification fail")
""", """        ok = await ring_ct.verify_bp(bp_obj, self.output_amounts, self.output_masks)
        if not ok:
            raise ValueError("BP verification fail")

        await self.full_message_hasher.rsig_val(bp_obj, True, raw=False)
"""), (B, """        provided_rsig = None
        if rsig_data and rsig_data.rsig and len(rsig_data.rsig) > 0:
            provided_rsig = rsig_data.rsig
""", """        provided_rsig = rsig_data.rsig if rsig_data and rsig_data.rsig else None
"""), (R, """    res = bpi.verify(bp_proof)
    gc.collect()
""", """    if not bpi.verify(bp_proof):
        return False
    res = True
    gc.collect()
"""))
bug("C02", "c02-index-alias", (B, "            while shifted:\n                shifted = index >> 7", "            while shifted and offset < 43:\n                shifted = index >> 7"))
bug("C02", "c02-index-mask", (B, "            shifted = True\n            while shifted:\n                shifted = index >> 7\n                key_buff[offset] = (index & 0x7F) | (0x80 if shifted else 0x00)\n                offset += 1\n                index = shifted\n",
    "            key_buff[offset] = index & 0x7F\n"))
bug("C02", "c02-label-short", (B, "            utils.memcpy(key_buff, offset, discriminator, 0, len(discriminator))", "            utils.memcpy(key_buff, offset, discriminator[:5], 0, 5)"))
ref("c02-derive", (B, "            shifted = True\n            while shifted:\n                shifted = index >> 7\n                key_buff[offset] = (index & 0x7F) | (0x80 if shifted else 0x00)\n                offset += 1\n                index = shifted\n",
    """            while True:
                byte = index & 0x7F
                index >>= 7
                if index:
                    byte |= 0x80
                key_buff[offset] = byte
                offset += 1
                if not index:
                    break
"""))
ref("c02-derive2", (B, "            shifted = True\n            while shifted:\n                shifted = index >> 7\n                key_buff[offset] = (index & 0x7F) | (0x80 if shifted else 0x00)\n                offset += 1\n                index = shifted\n",
    """            while index > 0x7F:
                key_buff[offset] = (index & 0x7F) | 0x80
                offset += 1
                index >>= 7
            key_buff[offset] = index
"""))
# ---- refactorings (must stay quiet everywhere)
ref("helper-hmac", (B, """        hmac_vini_comp = await self.gen_hmac_vini(src_entr, vini_bin, inv_idx)
        if not common.ct_equal(hmac_vini_comp, hmac_vini):
            raise ValueError("HMAC is not correct")
""", """        await self._check_vini(src_entr, vini_bin, hmac_vini, inv_idx)
"""), (B, """    async def sign_input(
        self,
""", """    async def _check_vini(self, entry, blob, tag, position):
        comp = await self.gen_hmac_vini(entry, blob, position)
        good = common.ct_equal(comp, tag)
        if good:
            return
        raise ValueError("HMAC is not correct")

    async def sign_input(
        self,
"""))
ref("state-table", (S, """        if self.s != self.INP_CNT and self.s != self.INPUT:
            raise ValueError("Illegal state")
        self.s = self.INPUT
""", """        self._go((self.INP_CNT, self.INPUT), self.INPUT)

    def _go(self, allowed, to):
        if self.s not in allowed:
            raise ValueError("Illegal state")
        self.s = to
"""))
ref("comprehension-hmacs", (B, """        hmacs = []
        for idx in range(self.num_dests()):
            c_hmac = await self.gen_hmac_tsxdest(tsx_data.outputs[idx], idx)
            hmacs.append(c_hmac)
            gc.collect()
""", """        hmacs = [
            await self.gen_hmac_tsxdest(dst, i) for i, dst in enumerate(tsx_data.outputs)
        ]
        gc.collect()
"""))
ref("reorder-input", (B, """        self.state.input()
        self.inp_idx += 1
""", """        self.inp_idx += 1
        self.state.input()
"""))
ref("range-cond", (B, """        if self.inp_idx >= self.num_inputs():
            raise ValueError("Invalid ins")
""", """        remaining = self.num_inputs() - self.inp_idx
        if remaining <= 0:
            raise ValueError("Invalid ins")
"""))
ref("nop", (B, "        self.state.set_signature()\n", "        self.state.set_signature()\n        _ = 0\n"))


def _more():
    import glob
    import importlib
    import os
    for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "m_*.py"))):
        importlib.import_module(os.path.basename(f)[:-3])


_more()
