from mutants import bug, ref

L = "monero_glue/xmr/mlsag2.py"
R = "monero_glue/xmr/ring_ct.py"
C = "monero_glue/xmr/crypto.py"
bug("C26", "sig-nokey", (C, "    buff = data + encodepoint(pub) + encodepoint(comm)\n", "    buff = data + encodepoint(comm) + encodepoint(pub)\n"))
bug("C26", "ring-h", (R, "            tmp3 = crypto.hash_to_point(crypto.encodepoint(tmp3))\n            tmp2 = crypto.ge_double_scalarmult_precomp_vartime(\n                sig[i][1], tmp3, sig[i][0], image_pre\n", "            tmp3 = crypto.hash_to_point(crypto.encodepoint(pubs[sec_idx]))\n            tmp2 = crypto.ge_double_scalarmult_precomp_vartime(\n                sig[i][1], tmp3, sig[i][0], image_pre\n"))
bug("C26", "ring-sum", (R, "    sig[sec_idx][0] = crypto.sc_sub(h, sum)\n", "    sig[sec_idx][0] = crypto.sc_sub(h, sum) if sec_idx else h\n"))
bug("C26", "chunk-mask", (R, "        if last_mask is not None and ii == 63:\n            crypto.sc_sub_into(tmp_ai, last_mask, a)\n", "        if last_mask is not None and ii == 62:\n            crypto.sc_sub_into(tmp_ai, last_mask, a)\n"))
bug("C26", "chunk-zero", (R, "        crypto.point_add_into(C_tmp, C_tmp, Zero if ((amount >> ii) & 1) == 0 else C_h)\n", "        crypto.point_add_into(C_tmp, C_tmp, Zero if ((amount >> ii) & 1) == 0 or ii == 63 else C_h)\n"))
bug("C26", "clsag-c1", (L, "        i = (i + 1) % len(P)\n        if i == 0:\n            crypto.sc_copy(sc1, c)\n", "        i = (i + 1) % len(P)\n        if i == 1:\n            crypto.sc_copy(sc1, c)\n"))
bug("C26", "clsag-last", (L, "    i = (index + 1) % len(P)\n    if i == 0:\n        crypto.sc_copy(sc1, c)\n", "    i = (index + 1) % len(P)\n"))
bug("C26", "clsag-inv8", (L, "    crypto.sc_mul_into(tmp_sc, z, crypto.sc_inv_eight())  # 1/8*z\n", "    crypto.sc_copy(tmp_sc, z)\n"))
bug("C26", "rct-fee", (L, "        M[i][rows] = crypto.point_sub(M[i][rows], txn_fee_key)\n", "        pass\n"), all=True)
bug("C26", "borro-order", (L, "            LL = crypto.add_keys2(s0[jj], ee, P1[jj])\n            cc =", "            LL = crypto.add_keys2(s0[jj], ee, P2[jj])\n            cc ="))
bug("C26", "ver-commit", (R, "        if C is not None and not crypto.point_eq(C_tmp, C):\n            return 0\n", "        if C is not None and not crypto.point_eq(C_tmp, C_tmp):\n            return 0\n"))
bug("C26", "ver-last-bit", (R, "            CiH[i] = crypto.point_sub(rsig.Ci[i], c_H)\n", "            CiH[i] = crypto.point_sub(rsig.Ci[i], c_H) if i < 63 else rsig.Ci[i]\n"))
bug("C26", "ver-borro-part", (L, "    for ii in range(n):\n        kck.update(crypto.encodepoint(Lv1[ii]))\n", "    for ii in range(n - 1):\n        kck.update(crypto.encodepoint(Lv1[ii]))\n"))
ref("c26-ver-borro-one-loop", (L, "    n = len(P1)\n    Lv1 = key_vector(n)\n    for ii in range(n):\n        LL = crypto.add_keys2(s0[ii], ee, P1[ii])\n        chash = crypto.hash_to_scalar(crypto.encodepoint(LL))\n        Lv1[ii] = crypto.add_keys2(s1[ii], chash, P2[ii])\n\n    kck = crypto.get_keccak()\n    for ii in range(n):\n        kck.update(crypto.encodepoint(Lv1[ii]))\n",
    "    kck = crypto.get_keccak()\n    for a, b, x, y in zip(P1, P2, s0, s1):\n        cc = crypto.hash_to_scalar(crypto.encodepoint(crypto.add_keys2(x, ee, a)))\n        kck.update(crypto.encodepoint(crypto.add_keys2(y, cc, b)))\n"))
ref("c26-clsag-closure", (L, "    i = (index + 1) % len(P)\n    if i == 0:\n        crypto.sc_copy(sc1, c)\n", "    i = index + 1\n    if i >= len(P):\n        i -= len(P)\n    if not i:\n        crypto.sc_copy(sc1, c)\n"))
ref("c26-ring-comp", (R, "    for i in range(len(pubs)):\n        sig.append([crypto.sc_0(), crypto.sc_0()])  # c, r\n", "    while len(sig) < len(pubs):\n        sig.append([crypto.sc_0()] + [crypto.sc_0()])\n"))
