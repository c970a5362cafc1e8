from mutants import bug, ref

M = "monero_glue/xmr/monero.py"
S = "monero_glue/xmr/sub/seed.py"
A = "monero_glue/xmr/sub/addr.py"
CR = "monero_glue/xmr/sub/creds.py"
N = "monero_glue/xmr/sub/xmr_net.py"
R = "monero_glue/xmr/ring_ct.py"
X = "monero_glue/xmr/crypto.py"
bug("C27", "view-of-seed", (M, "    hash = crypto.cn_fast_hash(crypto.encodeint(spend_sec))\n", "    hash = crypto.cn_fast_hash(seed)\n"))
bug("C27", "sub-either", (M, "    if major == 0 and minor == 0:  # special case, Monero-defined\n", "    if major == 0 or minor == 0:  # special case, Monero-defined\n"))
bug("C27", "spend-either", (M, "    if major == 0 and minor == 0:\n        return spend_public\n", "    if minor == 0:\n        return spend_public\n"))
bug("C27", "view-plain", (M, "    C = crypto.scalarmult(D, view_sec)\n", "    C = crypto.scalarmult_base(view_sec)\n"))
bug("C27", "table-swapped", (M, "        subaddresses[pub] = (account, idx)\n", "        subaddresses[pub] = (idx, account)\n"))
bug("C27", "net-lost", (S, "            network_type=network_type,\n", ""))
bug("C27", "keys-swapped", (CR, "            crypto.encodepoint(pub_spend_key),\n            crypto.encodepoint(pub_view_key),\n", "            crypto.encodepoint(pub_view_key),\n            crypto.encodepoint(pub_spend_key),\n"))
bug("C27", "slip-hash", (S, "            self.monero_master = crypto.encodeint(crypto.decodeint(self.pre_hash))\n", "            self.monero_master = crypto.cn_fast_hash(self.pre_hash)\n"))
bug("C27", "curve-lost", (S, "use_ed25519=slip0010)", "use_ed25519=False)"))
bug("C27", "path-ignored", (S, "            self.path = path\n", "            self.path = DEFAULT_BIP44_PATH if path == \"m\" else DEFAULT_SLIP0010_PATH if slip0010 else path\n"))
bug("C27", "stage-prefix", (N, "    PUBLIC_SUBADDRESS_BASE58_PREFIX = 36", "    PUBLIC_SUBADDRESS_BASE58_PREFIX = 63"))
bug("C27", "base-with-pid", (A, "        self.base_addr = public_addr_encode(addr, self.is_sub_address, self.net_type)\n", "        self.base_addr = public_addr_encode(addr, self.is_sub_address, self.net_type, self.payment_id)\n"))
bug("C27", "sub-flag", (M, "    ai.is_sub_address = subidx is not None and (subidx[0] != 0 or subidx[1] != 0)\n", "    ai.is_sub_address = subidx is not None and subidx[1] != 0\n"))
bug("C27", "add-index", (M, "            out_key, additional_derivations[output_index], output_index\n", "            out_key, additional_derivations[0], output_index\n"))
bug("C27", "no-sub-secret", (M, "    if received_index == (0, 0):\n        scalar_step2 = scalar_step1\n", "    if received_index[0] == 0:\n        scalar_step2 = scalar_step1\n"))
bug("C27", "ki-of-base", (M, "    ki = generate_key_image(crypto.encodepoint(pub_ver), scalar_step2)\n", "    ki = generate_key_image(crypto.encodepoint(pub_ver), scalar_step1)\n"))
bug("C27", "no-commit-check", (M, "    if not crypto.point_eq(c_tmp, crypto.decodepoint(rv.outPk[i].mask)):\n        raise ValueError(\"Amount decoded incorrectly\")\n", ""))
bug("C27", "mask-name", (M, "    data[0:15] = b\"commitment_mask\"", "    data[0:15] = b\"commitment_mesk\""))
bug("C27", "double-hash", (R, "        amount_key_hash_double = crypto.hash_to_scalar(\n            crypto.encodeint(amount_key_hash_single)\n        )\n", "        amount_key_hash_double = amount_key_hash_single\n"))
bug("C27", "xor7", (X, "    for i in range(8):\n        buff[i] ^= key[i]", "    for i in range(7):\n        buff[i] ^= key[i]"))
bug("C27", "checksum-short", (X, "    h = cn_fast_hash(buf)\n", "    h = cn_fast_hash(buff)\n"))
ref("c27-sub", (M, "    m = get_subaddress_secret_key(view_sec, major=major, minor=minor)\n    M = crypto.scalarmult_base(m)\n    D = crypto.point_add(spend_pub, M)\n    C = crypto.scalarmult(D, view_sec)\n    return D, C\n", "    D = get_subaddress_spend_public_key(view_sec, spend_pub, major, minor)\n    return D, crypto.scalarmult(D, view_sec)\n"))
ref("c27-helper", (M, "    additional_recv_derivations = []\n    for add_pub_key in additional_tx_public_keys:\n        additional_recv_derivations.append(\n            crypto.generate_key_derivation(add_pub_key, creds.view_key_private)\n        )\n", "    additional_recv_derivations = [crypto.generate_key_derivation(x, creds.view_key_private) for x in additional_tx_public_keys]\n"))
ref("c27-net", (N, "    return bytes([prefix])\n", "    out = bytearray(1)\n    out[0] = prefix\n    return bytes(out)\n"))
