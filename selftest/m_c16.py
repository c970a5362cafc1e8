from mutants import bug, ref
B = "monero_glue/protocol/tsx_sign_builder.py"
A = "monero_glue/xmr/sub/addr.py"
X = "monero_glue/xmr/sub/tsx_helper.py"
R = "monero_glue/xmr/ring_ct.py"
M = "monero_glue/xmr/monero.py"

bug("C16", "out-own-R", (B, "        if num_stdaddresses == 0 and num_subaddresses == 1:\n", "        if num_subaddresses == 1:\n"))
bug("C16", "no-additional", (B, "            num_stdaddresses > 0 or num_subaddresses > 1\n", "            num_stdaddresses > 1 or num_subaddresses > 1\n"))
bug("C16", "no-additional2", (B, "            num_stdaddresses > 0 or num_subaddresses > 1\n", "            num_stdaddresses > 0 or num_subaddresses > 2\n"))
bug("C16", "add-only-sub", (B, "            # R=r*G\n            additional_txkey = crypto.scalarmult_base(additional_txkey_priv)\n", "            return None\n"))
bug("C16", "sub-G", (B, "            additional_txkey = crypto.decodepoint(dst_entr.addr.spend_public_key)\n", "            additional_txkey = crypto.decodepoint(dst_entr.addr.view_public_key)\n"))
bug("C16", "deriv-always-r", (B, "                deriv_priv = additional_txkey_priv\n", "                deriv_priv = self.r\n"))
bug("C16", "change-as-other", (B, "        if change_addr and addr_eq(dst_entr.addr, change_addr):\n            # sending", "        if change_addr and not dst_entr.is_subaddress and addr_eq(dst_entr.addr, change_addr):\n            # sending"))
bug("C16", "derive-spend", (B, "                crypto.decodepoint(dst_entr.addr.view_public_key), deriv_priv\n", "                crypto.decodepoint(dst_entr.addr.spend_public_key), deriv_priv\n"))
bug("C16", "amount-index", (B, "        amount_key = crypto.derivation_to_scalar(derivation, self.out_idx)\n", "        amount_key = crypto.derivation_to_scalar(derivation, self.out_idx + 1)\n"))
bug("C16", "classify-no-dup", (A, "        addr_set.add(addr_hashed)\n", ""))
bug("C16", "classify-count-change", (A, "        if change_addr and addr_eq(change_addr, tx.addr):\n            continue\n        addr_hashed", "        addr_hashed"))
bug("C16", "pid-tail", (X, "    derivation[32] = 0x8D  #", "    derivation[32] = 0x8B  #"))
bug("C16", "pid-short", (X, "    pm_copy = bytearray(payment_id)\n    for i in range(8):\n        pm_copy[i] ^= hash[i]\n    return pm_copy\n\n\ndef encrypt_payment_id_bugbug", "    pm_copy = bytearray(payment_id)\n    for i in range(7):\n        pm_copy[i] ^= hash[i]\n    return pm_copy\n\n\ndef encrypt_payment_id_bugbug"))
bug("C16", "pid-nonce-len", (B, "        extra_buff[1] = lextra + 1\n", "        extra_buff[1] = lextra\n"))
bug("C16", "pid-prefix", (B, "            extra_prefix = 0\n", "            extra_prefix = 1\n"))
bug("C16", "pid-first", (B, "            if count > 0 and tsx_data.payment_id:\n                return crypto.NULL_KEY_ENC\n            addr = dest.addr\n", "            if count == 0:\n                addr = dest.addr\n"))
bug("C16", "pid-last", (B, "            if count > 0 and tsx_data.payment_id:\n", "            if count > 1 and tsx_data.payment_id:\n"))
bug("C16", "pid-change", (B, "            if change_addr and addr_eq(dest.addr, change_addr):\n                continue\n            if addr_eq(dest.addr, addr):\n", "            if addr_eq(dest.addr, addr):\n"))
bug("C16", "ecdh-hash", (B, '        data[0:6] = b"amount"\n', '        data[0:6] = b"Amount"\n'))
bug("C16", "ecdh-single", (B, "                ecdh_info.amount, ecdh_info.amount, amount_key_hash_double\n", "                ecdh_info.amount, ecdh_info.amount, amount_key_hash_single\n"))
bug("C16", "ecdh-swap", (B, "            utils.memcpy(ecdh_info_bin, 0, ecdh_info.mask, 0, 32)\n            utils.memcpy(ecdh_info_bin, 32, ecdh_info.amount, 0, 32)\n", "            utils.memcpy(ecdh_info_bin, 0, ecdh_info.amount, 0, 32)\n            utils.memcpy(ecdh_info_bin, 32, ecdh_info.mask, 0, 32)\n"))
bug("C16", "mask-random", (B, "            mask = monero.commitment_mask(crypto.encodeint(amount_key))\n", "            mask = crypto.random_scalar() if self.out_idx > 1 else monero.commitment_mask(crypto.encodeint(amount_key))\n"))
bug("C16", "cmask-label", (M, '    data[0:15] = b"commitment_mask"\n', '    data[0:15] = b"commitment-mask"\n'))
bug("C16", "additional-order", (X, "        data=pub_enc\n        if pub_enc\n", "        data=sorted(pub_enc)\n        if pub_enc\n"))
bug("C16", "additional-rev", (X, "        data=pub_enc\n        if pub_enc\n", "        data=list(reversed(pub_enc))\n        if pub_enc\n"))
bug("C16", "additional-lost", (B, "        self.additional_tx_public_keys.append(crypto.encodepoint(additional_txkey))\n", "        if dst_entr.is_subaddress:\n            self.additional_tx_public_keys.append(crypto.encodepoint(additional_txkey))\n"))
bug("C16", "extra-lost", (X, "    return tx_extra + to_add\n", "    return to_add + tx_extra[11:]\n"))
bug("C16", "key-first-only", (B, "            [crypto.encodeint(x) for x in self.additional_tx_private_keys]\n", "            [crypto.encodeint(x) for x in self.additional_tx_private_keys[:-1]]\n"))
bug("C16", "key-reuse", (B, "        additional_txkey_priv = crypto.random_scalar()\n", "        additional_txkey_priv = crypto.sc_add(self.r, crypto.sc_init(self.out_idx))\n"))
bug("C16", "out-pk-split", (B, "        out_pk_dest = crypto.encodepoint(tx_out_key)\n", "        out_pk_dest = crypto.encodepoint(crypto.point_add(tx_out_key, crypto.scalarmult_base(mask)))\n"))
bug("C16", "decode-add", (R, "        sc_fnc = crypto.sc_add if enc else crypto.sc_sub\n", "        sc_fnc = crypto.sc_add\n"))
bug("C16", "decode-mask-v2", (R, "        rv.mask = monero.commitment_mask(derivation)\n", "        rv.mask = masked.mask\n"))
bug("C16", "r-pub-late", (B, "        self.tx.extra = tsx_helper.add_tx_pub_key_to_extra(self.tx.extra, self.r_pub)\n", "        self.tx.extra = tsx_helper.add_tx_pub_key_to_extra(self.tx.extra, crypto.scalarmult_base(self.r))\n"))

ref("c16-classify", (A, "    num_stdaddresses = 0\n    num_subaddresses = 0\n    single_dest_subaddress = None\n    addr_set = set()\n    for tx in tx_dests:\n        if change_addr and addr_eq(change_addr, tx.addr):\n            continue\n        addr_hashed = addr_to_hash(tx.addr)\n        if addr_hashed in addr_set:\n            continue\n        addr_set.add(addr_hashed)\n        if tx.is_subaddress:\n            num_subaddresses += 1\n            single_dest_subaddress = tx.addr\n        else:\n            num_stdaddresses += 1\n    return num_stdaddresses, num_subaddresses, single_dest_subaddress\n",
     "    uniq = {}\n    for tx in tx_dests:\n        if not change_addr or not addr_eq(change_addr, tx.addr):\n            uniq.setdefault(addr_to_hash(tx.addr), tx)\n    subs = [x.addr for x in uniq.values() if x.is_subaddress]\n    return len(uniq) - len(subs), len(subs), subs[-1] if subs else None\n"))
ref("c16-pid", (X, "    pm_copy = bytearray(payment_id)\n    for i in range(8):\n        pm_copy[i] ^= hash[i]\n    return pm_copy\n\n\ndef encrypt_payment_id_bugbug", "    return bytearray(a ^ b for a, b in zip(payment_id, hash))\n\n\ndef encrypt_payment_id_bugbug"))
ref("c16-extra-buff", (B, "        extra_buff = bytearray(3 + lextra)\n        extra_buff[0] = 2\n        extra_buff[1] = lextra + 1\n        extra_buff[2] = extra_prefix\n        utils.memcpy(extra_buff, 3, extra_nonce, 0, lextra)\n        self.tx.extra = extra_buff\n", "        self.tx.extra = bytearray(bytes([2, lextra + 1, extra_prefix]) + bytes(extra_nonce))\n"))
ref("c16-ecdh", (B, "            ecdh_info_bin = bytearray(64)\n            utils.memcpy(ecdh_info_bin, 0, ecdh_info.mask, 0, 32)\n            utils.memcpy(ecdh_info_bin, 32, ecdh_info.amount, 0, 32)\n            return ecdh_info_bin\n", "            return bytearray(ecdh_info.mask) + bytearray(ecdh_info.amount)\n"))
ref("c16-ecdh8", (B, "            ecdh_info_bin = bytearray(8)\n            ecdh_info_bin[:] = ecdh_info.amount[0:8]\n            return ecdh_info_bin\n", "            return ecdh_info.amount[:8]\n"))
ref("c16-keys", (B, "        key_buff = crypto.encodeint(self.r) + b\"\".join(\n            [crypto.encodeint(x) for x in self.additional_tx_private_keys]\n        )\n", "        keys = [self.r] + self.additional_tx_private_keys\n        key_buff = b\"\".join(map(crypto.encodeint, keys))\n"))
ref("c16-need", (B, "        self.need_additional_txkeys = num_subaddresses > 0 and (\n            num_stdaddresses > 0 or num_subaddresses > 1\n        )\n", "        self.need_additional_txkeys = 0 < num_subaddresses != num_subaddresses + num_stdaddresses or num_subaddresses >= 2\n"))
