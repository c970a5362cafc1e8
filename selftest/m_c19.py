from mutants import bug, ref

B = "monero_glue/protocol/tsx_sign_builder.py"
M = "monero_glue/xmr/mlsag2.py"
X = "monero_glue/xmr/monero.py"
H = "monero_glue/xmr/sub/tsx_helper.py"
R = "monero_glue/xmr/sub/recode.py"
K = "monero_glue/xmr/crypto.py"
bug("C19", "corr-sign", (B, "alpha_diff = crypto.sc_sub(self.sumout, self.sumpouts_alphas)", "alpha_diff = crypto.sc_sub(self.sumpouts_alphas, self.sumout)"))
bug("C19", "corr-last", (B, "        if self.is_det_mask() and inv_idx + 1 == self.input_count:\n", "        if self.is_det_mask() and self.inp_idx + 1 == self.input_count:\n"))
bug("C19", "corr-never", (B, "        if self.is_det_mask() and inv_idx + 1 == self.input_count:\n", "        if self.is_det_mask() and inv_idx == self.input_count:\n"),
    (B, "                utils.ensure(\n                    crypto.sc_eq(self.sumpouts_alphas, self.sumout), \"Sum eq error\"\n                )\n\n            # both", "                pass\n\n            # both"))
bug("C19", "last-mask", (B, "            mask = self.det_comm_masks(self.out_idx)\n", "            mask = self.det_comm_masks(self.out_idx + 1)\n"))
bug("C19", "last-amount", (B, "            self.input_last_amount = src_entr.amount\n", "            self.input_last_amount = self.summary_inputs_money\n"))
bug("C19", "real-index", (B, "        index = src_entr.real_output\n", "        index = min(src_entr.real_output, 1)\n"))
bug("C19", "out-index", (B, "            additional_keys,\n            src_entr.real_output_in_tx_index,\n", "            additional_keys,\n            src_entr.real_output,\n"))
bug("C19", "vini-amount", (B, "        if src_entr.rct:\n            vini.amount = 0\n", "        if not src_entr.rct:\n            vini.amount = 0\n"))
bug("C19", "cc-last", (M, "    i = (index + 1) % cols\n    if i == 0:\n        rv.cc = c_old\n\n    while i != index:\n        rv.ss[i] = scalar_gen_vector(rows)\n        hasher = hasher_message(message)\n\n        for j in range(dsRows):", "    i = (index + 1) % cols\n    rv.cc = crypto.sc_0()\n\n    while i != index:\n        rv.ss[i] = scalar_gen_vector(rows)\n        hasher = hasher_message(message)\n\n        for j in range(dsRows):"))
bug("C19", "mulsub", (M, "            c, xx[j], alpha[j]\n        )  # alpha", "            c_old, xx[j], alpha[0]\n        )  # alpha"))
bug("C19", "mask-order", (M, "    sk[1] = crypto.sc_sub(in_sk.mask, a)\n\n    for i in range(cols):\n        M[i][0] = crypto.decodepoint(pubs[i].dest)\n        M[i][1] = crypto.point_sub(crypto.decodepoint(pubs[i].commitment), cout)",
    "    sk[1] = crypto.sc_sub(a, in_sk.mask)\n\n    for i in range(cols):\n        M[i][0] = crypto.decodepoint(pubs[i].dest)\n        M[i][1] = crypto.point_sub(cout, crypto.decodepoint(pubs[i].commitment))"))
bug("C19", "image-base", (X, "    point2 = crypto.scalarmult(point, secret_key)\n    return point2\n\n\ndef is_out", "    point2 = crypto.scalarmult(point, crypto.sc_add(secret_key, crypto.sc_init(1)))\n    return point2\n\n\ndef is_out"))
bug("C19", "offsets", (H, "        res[i] -= res[i - 1]\n", "        res[i] -= res[0]\n"))
bug("C19", "double-message", (M, "        hasher = hasher_message(message)\n\n        for j in range(dsRows):\n            L = crypto.add_keys2(rv.ss[i][j], c_old, pk[i][j])\n            Hi = crypto.hash_to_point(\n                crypto.encodepoint(pk[i][j])\n            )  # originally hashToPoint()\n            R = crypto.add_keys3(rv.ss[i][j], Hi, c_old, Ip[j])\n            hasher.update(crypto.encodepoint(pk[i][j]))\n            hasher.update(crypto.encodepoint(L))\n            hasher.update(crypto.encodepoint(R))\n\n        for j in range(dsRows, rows):\n            L = crypto.add_keys2(rv.ss[i][j], c_old, pk[i][j])\n            hasher.update(crypto.encodepoint(pk[i][j]))\n            hasher.update(crypto.encodepoint(L))\n\n        c = crypto.decodeint(hasher.digest())\n        c_old = c\n        i = (i + 1) % cols",
    "        hasher = hasher_message(message)\n\n        for j in range(dsRows):\n            L = crypto.add_keys2(rv.ss[i][j], c_old, pk[i][j])\n            Hi = crypto.hash_to_point(\n                crypto.encodepoint(pk[index][j])\n            )  # originally hashToPoint()\n            R = crypto.add_keys3(rv.ss[i][j], Hi, c_old, Ip[j])\n            hasher.update(crypto.encodepoint(pk[i][j]))\n            hasher.update(crypto.encodepoint(L))\n            hasher.update(crypto.encodepoint(R))\n\n        for j in range(dsRows, rows):\n            L = crypto.add_keys2(rv.ss[i][j], c_old, pk[i][j])\n            hasher.update(crypto.encodepoint(pk[i][j]))\n            hasher.update(crypto.encodepoint(L))\n\n        c = crypto.decodeint(hasher.digest())\n        c_old = c\n        i = (i + 1) % cols"))
bug("C19", "recode-cc", (R, "        mgs[idx].cc = recode_int(mgs[idx].cc)\n", "        mgs[idx].cc = recode_int(mgs[idx].ss[0][0])\n"))
bug("C19", "pout-old", (B, "            pseudo_out=crypto.encodepoint(pseudo_out_c),\n", "            pseudo_out=crypto.encodepoint(crypto.gen_c(crypto.sc_0(), self.input_last_amount)),\n"))
bug("C19", "subaddr-skip", (X, "        scalar_step2 = crypto.sc_add(scalar_step1, subaddr_sk)\n", "        scalar_step2 = crypto.sc_add(scalar_step1, subaddr_sk) if received_index[0] == 0 else crypto.sc_add(subaddr_sk, subaddr_sk)\n"))
bug("C19", "sumout-keep", (B, "        self.sumout = crypto.sc_init(0)\n        return rsig_data", "        return rsig_data"))
bug("C19", "perm-inv", (B, "        inv_idx = self.source_permutation[self.inp_idx]\n\n        # Check HMAC of all", "        inv_idx = self.source_permutation.index(self.inp_idx)\n\n        # Check HMAC of all"))

ref("corr-helper", (B, "            alpha_diff = crypto.sc_sub(self.sumout, self.sumpouts_alphas)\n            crypto.sc_add_into(pseudo_out_alpha, pseudo_out_alpha, alpha_diff)\n",
    "            pseudo_out_alpha = crypto.sc_sub(crypto.sc_add(pseudo_out_alpha, self.sumout), self.sumpouts_alphas)\n            alpha_diff = crypto.sc_sub(self.sumout, self.sumpouts_alphas)\n"))
ref("ring-comprehension", (M, "    for i in range(cols):\n        M[i][0] = crypto.decodepoint(pubs[i].dest)\n        M[i][1] = crypto.point_sub(crypto.decodepoint(pubs[i].commitment), cout)\n",
    "    M = [[crypto.decodepoint(p.dest), crypto.point_sub(crypto.decodepoint(p.commitment), cout)] for p in pubs]\n"))
ref("enumerate-ring", (M, "    sk[0] = in_sk.dest\n    sk[1] = crypto.sc_sub(in_sk.mask, a)\n", "    sk[:] = [in_sk.dest, crypto.sc_add(crypto.sc_sub(crypto.sc_0(), a), in_sk.mask)]\n"))
