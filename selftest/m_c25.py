from mutants import bug, ref

A = "monero_glue/agent/agent_lite.py"
C = "monero_glue/xmr/common.py"
M = "monero_glue/hwtoken/misc.py"
S = "monero_glue/protocol/tsx_sign.py"
bug("C25", "ascending", (A, "            key=lambda x: self.ct.tx.vin[x].k_image, reverse=True\n", "            key=lambda x: self.ct.tx.vin[x].k_image\n"))
bug("C25", "swap-alphas", (A, "            self.ct.alphas[x], self.ct.alphas[y] = self.ct.alphas[y], self.ct.alphas[x]\n", ""))
bug("C25", "swap-pseudo", (A, "            self.ct.pseudo_outs[x], self.ct.pseudo_outs[y] = (\n                self.ct.pseudo_outs[y],\n                self.ct.pseudo_outs[x],\n            )\n", ""))
bug("C25", "swap-sources", (A, "            tx.sources[x], tx.sources[y] = tx.sources[y], tx.sources[x]\n", ""))
bug("C25", "perm-dir", (C, "    perm = list(permutation)\n    for i in range(len(perm)):\n        current = i\n", "    perm = [list(permutation).index(i) for i in range(len(permutation))]\n    for i in range(len(perm)):\n        current = i\n"))
bug("C25", "mg-front", (A, "            rv.p.MGs.append(mg)\n", "            rv.p.MGs.insert(0, mg)\n"))
bug("C25", "pout-last", (A, "                    rv.p.pseudoOuts[idx] = t_res.pseudo_out\n", "                    rv.p.pseudoOuts[-1] = t_res.pseudo_out\n"))
bug("C25", "pout-origin", (A, "                    rv.p.pseudoOuts[idx] = t_res.pseudo_out\n", "                    rv.p.pseudoOuts[self.ct.source_permutation[idx]] = t_res.pseudo_out\n"))
bug("C25", "pout-never", (A, "            if self.client_version > 0 and t_res.pseudo_out:\n", "            if self.client_version > 1 and t_res.pseudo_out:\n"))
bug("C25", "salts", (A, "        self.ct.enc_salt1, self.ct.enc_salt2 = t_res.salt, t_res.rand_mult\n", "        self.ct.enc_salt2, self.ct.enc_salt1 = t_res.salt, t_res.rand_mult\n"))
bug("C25", "batch-index", (A, "                    self.ct.tx_data.splitted_dsts[1 + idx - batch_size + i].amount\n", "                    self.ct.tx_data.splitted_dsts[i].amount\n"))
bug("C25", "batch-masks", (A, "                    crypto.decodeint(self.ct.rsig_gamma[1 + idx - batch_size + i])\n", "                    crypto.decodeint(self.ct.rsig_gamma[i])\n"))
bug("C25", "commit-index", (A, "                    1 + self.ct.cur_output_idx - batch_size + i\n", "                    self.ct.cur_output_idx - batch_size + i\n"))
bug("C25", "ecdh-tail", (A, "            cur_ecdh.amount[0:8] = bytearray(t_res.ecdh_info)\n", "            cur_ecdh.amount[8:16] = bytearray(t_res.ecdh_info)\n"))
bug("C25", "outs-reverse", (A, "            rv.ecdhInfo.append(self.ct.tx_out_ecdh[idx])\n", "            rv.ecdhInfo.insert(0, self.ct.tx_out_ecdh[idx])\n"))
bug("C25", "extra", (A, "        self.ct.tx.extra = list(bytearray(t_res.extra))\n", "        self.ct.tx.extra = list(bytearray(t_res.extra))[:44]\n"))
bug("C25", "advance", (A, "        self.ct.cur_batch_idx += 1\n        self.ct.cur_output_in_batch_idx = 0\n", "        self.ct.cur_batch_idx += 1\n"))
bug("C25", "route-msg", (S, "                msg.pseudo_out_alpha,\n                msg.spend_key,\n", "                msg.spend_key,\n                msg.pseudo_out_alpha,\n"))
bug("C25", "src-mask", (M, "    d.real_output_in_tx_index = src_entry.real_output_in_tx_index\n", "    d.real_output_in_tx_index = src_entry.real_output\n"))
bug("C25", "type", (A, "        rv.type = t_res.rv.rv_type\n", "        rv.type = min(t_res.rv.rv_type, 3)\n"))

ref("sort-sorted", (A, "        self.ct.source_permutation = list(range(len(tx.sources)))\n        self.ct.source_permutation.sort(\n            key=lambda x: self.ct.tx.vin[x].k_image, reverse=True\n        )\n",
    "        self.ct.source_permutation = sorted(\n            range(len(tx.sources)), key=lambda x: self.ct.tx.vin[x].k_image, reverse=True\n        )\n"))
ref("zip-outs", (A, "        for idx in range(len(self.ct.tx_out_pk)):\n            rv.outPk.append(self.ct.tx_out_pk[idx])\n            rv.ecdhInfo.append(self.ct.tx_out_ecdh[idx])\n", "        rv.outPk.extend(self.ct.tx_out_pk)\n        rv.ecdhInfo.extend(self.ct.tx_out_ecdh)\n"))
ref("swap-lists", (A, "            self.ct.tx.vin[x], self.ct.tx.vin[y] = self.ct.tx.vin[y], self.ct.tx.vin[x]\n            self.ct.tx_in_hmacs[x], self.ct.tx_in_hmacs[y] = (\n                self.ct.tx_in_hmacs[y],\n                self.ct.tx_in_hmacs[x],\n            )\n",
    "            for lst in (self.ct.tx.vin, self.ct.tx_in_hmacs):\n                lst[x], lst[y] = lst[y], lst[x]\n"))
