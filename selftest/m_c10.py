from mutants import bug, ref
B = "monero_glue/protocol/tsx_sign_builder.py"
M = "monero_glue/hwtoken/misc.py"
K = "monero_glue/protocol/key_image_sync.py"
T = "monero_glue/hwtoken/token.py"

bug("C10", "txkeys-open", (B, "        tx_enc_keys = chacha_poly.encrypt_pack(tx_key, key_buff)\n", "        tx_enc_keys = key_buff\n"))
bug("C10", "txkeys-hashed-key", (B, "        tx_enc_keys = chacha_poly.encrypt_pack(tx_key, key_buff)\n", "        tx_enc_keys = chacha_poly.encrypt_pack(crypto.keccak_2hash(salt + rand_mult), key_buff)\n"))
bug("C10", "txkeys-pubkey", (M, "    passwd = crypto.keccak_2hash(crypto.encodeint(rand_inp) + tx_prefix_hash)\n", "    passwd = crypto.keccak_2hash(crypto.encodepoint(crypto.scalarmult_base(rand_inp)) + tx_prefix_hash)\n"))
bug("C10", "txkeys-nospend", (M, "    rand_inp = crypto.sc_add(spend_key_private, rand_mult_num)\n", "    rand_inp = rand_mult_num\n"))
bug("C10", "txkeys-tuple", (B, "        tx_key, salt, rand_mult = misc.compute_tx_key(\n", "        tx_key, salt, rand_mult = tx_key, tx_key, rand_mult = misc.compute_tx_key(\n"))
bug("C10", "alpha-open", (B, "            self.enc_key_txin_alpha(self.inp_idx), crypto.encodeint(alpha)\n        )\n", "            self.enc_key_txin_alpha(self.inp_idx), crypto.encodeint(alpha)\n        ) if self.num_inputs() > 1 else crypto.encodeint(alpha)\n"))
bug("C10", "spend-key-sealed-public", (B, "            self.enc_key_spend(self.inp_idx), crypto.encodeint(xi)\n", "            crypto.keccak_2hash(self.tx_prefix_hash or b'spend'), crypto.encodeint(xi)\n"))
bug("C10", "cout-key-spend", (B, "        cout_key = self.enc_key_cout() if self.multi_sig else None\n", "        cout_key = self.enc_key_spend(None) if self.multi_sig else None\n"))
bug("C10", "cout-key-root", (B, "        cout_key = self.enc_key_cout() if self.multi_sig else None\n", "        cout_key = self.key_enc if self.multi_sig else None\n"))
bug("C10", "rand-mult-r", (B, "            cout_key=cout_key, salt=salt, rand_mult=rand_mult, tx_enc_keys=tx_enc_keys\n", "            cout_key=cout_key, salt=salt, rand_mult=rand_mult if not self.multi_sig else crypto.encodeint(self.r), tx_enc_keys=tx_enc_keys\n"))
bug("C10", "error-text", (B, '            raise ValueError("Too many inputs")\n        if src_entr', '            raise ValueError("Too many inputs: %s" % self.key_hmac)\n        if src_entr'))
bug("C10", "ki-buff", (K, "            crypto.encodeint_into(buff_mv[64:], sig[0][1])\n", "            crypto.encodeint_into(buff_mv[64:], self.creds.spend_key_private)\n"))
bug("C10", "ki-open", (K, "            eki = MoneroExportedKeyImage(iv=nonce, blob=ciph)\n", "            eki = MoneroExportedKeyImage(iv=self.enc_key, blob=ciph)\n"))
bug("C10", "ecdh-mask-open", (B, "            ecdh_info.mask = crypto.sc_add(ecdh_info.mask, amount_key_hash_single)\n", ""))
bug("C10", "ecdh-amount-rawkey", (B, "            crypto.xor8(ecdh_info.amount, self._s6_ecdh_hash(amount_key))\n", "            crypto.xor8(ecdh_info.amount, amount_key)\n"))
bug("C10", "init-hmac-key", (B, "        rsig_data = MoneroTransactionRsigData(offload_type=self.rsig_offload)\n        return", "        rsig_data = MoneroTransactionRsigData(offload_type=self.rsig_offload, rsig=self.key_hmac if self.rsig_offload else None)\n        return"))
bug("C10", "sign-alpha", (B, "        del (input_secret_key, pseudo_out_alpha, ring_pubkeys)\n", ""), (B, "            pseudo_out=crypto.encodepoint(pseudo_out_c),\n        )\n\n    async def final", "            pseudo_out=crypto.encodeint(pseudo_out_alpha) if self.mixin > 20 else crypto.encodepoint(pseudo_out_c),\n        )\n\n    async def final"))
bug("C10", "watch-spend", (T, "            watch_key=crypto.encodeint(self.creds.view_key_private),\n", "            watch_key=crypto.encodeint(self.creds.spend_key_private),\n"))
bug("C10", "vini-secret", (B, "        ki_real = src_entr.multisig_kLRki.ki if self.multi_sig else ki\n", "        ki_real = src_entr.multisig_kLRki.ki if self.multi_sig else xi\n"))

ref("c10-final-inline", (B, "        key_buff = crypto.encodeint(self.r) + b\"\".join(\n            [crypto.encodeint(x) for x in self.additional_tx_private_keys]\n        )\n        tx_enc_keys = chacha_poly.encrypt_pack(tx_key, key_buff)\n",
     "        key_buff = bytearray(crypto.encodeint(self.r))\n        for x in self.additional_tx_private_keys:\n            key_buff += crypto.encodeint(x)\n        tx_enc_keys = chacha_poly.encrypt_pack(tx_key, bytes(key_buff))\n"))
ref("c10-seal-helper", (B, "        spend_enc = chacha_poly.encrypt_pack(\n            self.enc_key_spend(self.inp_idx), crypto.encodeint(xi)\n        )\n",
                        "        spend_enc = self._seal(self.enc_key_spend(self.inp_idx), xi)\n"),
    (B, "    async def set_input(self, src_entr):\n", "    def _seal(self, key, scalar):\n        from monero_glue.xmr.enc import chacha_poly\n\n        return chacha_poly.encrypt_pack(key, crypto.encodeint(scalar))\n\n    async def set_input(self, src_entr):\n"))
ref("c10-final-msg", (B, "        return MoneroTransactionFinalAck(\n            cout_key=cout_key, salt=salt, rand_mult=rand_mult, tx_enc_keys=tx_enc_keys\n        )\n",
     "        res = MoneroTransactionFinalAck()\n        res.cout_key = cout_key\n        res.salt, res.rand_mult = salt, rand_mult\n        res.tx_enc_keys = tx_enc_keys\n        return res\n"))
