from mutants import bug, ref

M = "monero_glue/xmr/mlsag2.py"
R = "monero_glue/xmr/ring_ct.py"
C = "monero_glue/xmr/crypto.py"
bug("C13", "ver-open", (M, "    c = crypto.sc_sub(c_old, rv.cc)\n    return not crypto.sc_isnonzero(c)\n", "    c = crypto.sc_sub(c_old, c)\n    return not crypto.sc_isnonzero(c)\n"))
bug("C13", "ver-short", (M, "    while i < cols:\n        c = 0\n", "    while i < min(cols, 16):\n        c = 0\n"))
bug("C13", "ver-last-row", (M, "        for j in range(dsRows, rows):\n            L = crypto.add_keys2(rv.ss[i][j], c_old, pk[i][j])\n            hasher.update(crypto.encodepoint(pk[i][j]))\n            hasher.update(crypto.encodepoint(L))\n\n        c = crypto.decodeint(hasher.digest())\n        c_old = c\n        i += 1\n\n    c =",
    "        for j in range(dsRows, rows - 1):\n            L = crypto.add_keys2(rv.ss[i][j], c_old, pk[i][j])\n            hasher.update(crypto.encodepoint(pk[i][j]))\n            hasher.update(crypto.encodepoint(L))\n\n        c = crypto.decodeint(hasher.digest())\n        c_old = c\n        i += 1\n\n    c ="))
bug("C13", "ver-size-ss", (M, "    if len(rv.ss) != cols:\n        raise ValueError(\"Bad rv.ss size\")\n", ""))
bug("C13", "ver-size-II", (M, "    if len(rv.II) != dsRows:\n", "    if len(rv.II) < dsRows:\n"))
bug("C13", "ver-message", (M, "    ctx = common.HashWrapper(crypto.get_keccak())\n    ctx.update(message)\n", "    ctx = common.HashWrapper(crypto.get_keccak())\n    ctx.update(message[:32] if message else message)\n"))
bug("C13", "clsag-no-offset", (M, "    c_to_hash.update(C_offset_bf)\n    c_to_hash.update(msg)\n", "    c_to_hash.update(msg)\n"))
bug("C13", "clsag-both-commit", (M, "    for x in pubs:\n        hsh_PC(x.commitment)\n", "    for x in pubs[1:]:\n        hsh_PC(x.commitment)\n"), (M, "    for x in C_nonzero:\n        hsh_PC(x)\n", "    for x in C_nonzero[1:]:\n        hsh_PC(x)\n"))
bug("C13", "clsag-both-D", (M, "    hsh_PC(crypto.encodepoint_into(tmp_bf, sD))\n", ""), (M, "    hsh_PC(sD)\n", ""))
bug("C13", "clsag-eq", (M, "    if not crypto.sc_eq(res, crypto.sc_0()):\n", "    if not crypto.sc_eq(res, crypto.sc_0()) and n > 1:\n"))
bug("C13", "clsag-mu-c", (M, "        crypto.sc_mul_into(c_p, mu_P, c)\n        crypto.sc_mul_into(c_c, mu_C, c)\n\n        C_P", "        crypto.sc_mul_into(c_p, mu_P, c)\n        crypto.sc_mul_into(c_c, mu_P, c)\n\n        C_P"))
bug("C13", "ring-check-r", (R, "        if crypto.sc_check(sig[i][0]) != 0 or crypto.sc_check(sig[i][1]) != 0:\n", "        if crypto.sc_check(sig[i][0]) != 0:\n"))
bug("C13", "ring-both-ki", (R, "            sig[i][1], tmp3, sig[i][0], image_pre\n        )\n        crypto.encodepoint_into(mvbuff[buff_off : buff_off + 32], tmp2)\n        buff_off += 32\n\n        sum", "            sig[i][1], tmp3, sig[i][0], image_pre\n        )\n        buff_off += 32\n\n        sum"))
bug("C13", "schnorr-pub", (C, "    buff = data + encodepoint(pub) + encodepoint(tmp2)\n", "    buff = data + encodepoint(tmp2)\n"), (C, "    buff = data + encodepoint(pub) + encodepoint(comm)\n", "    buff = data + encodepoint(comm)\n"))
bug("C13", "borromean", (M, "        chash = crypto.hash_to_scalar(crypto.encodepoint(LL))\n        Lv1[ii] = crypto.add_keys2(s1[ii], chash, P2[ii])\n", "        chash = crypto.hash_to_scalar(crypto.encodepoint(LL))\n        Lv1[ii] = crypto.add_keys2(s1[ii], chash, P2[0])\n"))
bug("C13", "rct-commit", (M, "        M[i][1] = crypto.point_sub(crypto.decodepoint(pubs[i].commitment), C)\n", "        M[i][1] = crypto.point_sub(crypto.decodepoint(pubs[0].commitment), C)\n"))
bug("C13", "alpha-reuse", (M, "    for i in range(dsRows, rows):\n        alpha[i] = crypto.random_scalar()\n", "    for i in range(dsRows, rows):\n        alpha[i] = alpha[0] if dsRows else crypto.random_scalar()\n"))
bug("C13", "decoy-reuse", (M, "        rv.ss[i] = scalar_gen_vector(rows)\n", "        rv.ss[i] = [crypto.random_scalar()] * rows\n"))
bug("C13", "clsag-decoy", (M, "        crypto.random_scalar_into(tmp_sc)\n        crypto.encodeint_into(mg_buff[i + 1], tmp_sc)\n", "        if i == (index + 1) % len(P):\n            crypto.random_scalar_into(tmp_sc)\n        crypto.encodeint_into(mg_buff[i + 1], tmp_sc)\n"))
bug("C13", "prove-order", (M, "            L = crypto.add_keys2(rv.ss[i][j], c_old, pk[i][j])\n            Hi = crypto.hash_to_point(\n                crypto.encodepoint(pk[i][j])\n            )  # originally hashToPoint()\n            R = crypto.add_keys3(rv.ss[i][j], Hi, c_old, Ip[j])\n            hasher.update(crypto.encodepoint(pk[i][j]))\n            hasher.update(crypto.encodepoint(L))\n            hasher.update(crypto.encodepoint(R))\n\n        for j in range(dsRows, rows):\n            L = crypto.add_keys2(rv.ss[i][j], c_old, pk[i][j])\n            hasher.update(crypto.encodepoint(pk[i][j]))\n            hasher.update(crypto.encodepoint(L))\n\n        c = crypto.decodeint(hasher.digest())\n        c_old = c\n        i = ",
    "            L = crypto.add_keys2(rv.ss[i][j], c_old, pk[i][j])\n            Hi = crypto.hash_to_point(\n                crypto.encodepoint(pk[i][j])\n            )  # originally hashToPoint()\n            R = crypto.add_keys3(rv.ss[i][j], Hi, c_old, Ip[0])\n            hasher.update(crypto.encodepoint(pk[i][j]))\n            hasher.update(crypto.encodepoint(L))\n            hasher.update(crypto.encodepoint(R))\n\n        for j in range(dsRows, rows):\n            L = crypto.add_keys2(rv.ss[i][j], c_old, pk[i][j])\n            hasher.update(crypto.encodepoint(pk[i][j]))\n            hasher.update(crypto.encodepoint(L))\n\n        c = crypto.decodeint(hasher.digest())\n        c_old = c\n        i = "))
ref("c13-ver-for", (M, "    i = 0\n    while i < cols:\n        c = 0\n        hasher = hasher_message(message)\n", "    for i in range(cols):\n        hasher = hasher_message(message)\n"), (M, "        c = crypto.decodeint(hasher.digest())\n        c_old = c\n        i += 1\n\n    c = crypto.sc_sub(c_old, rv.cc)\n    return not crypto.sc_isnonzero(c)\n", "        c_old = crypto.decodeint(hasher.digest())\n\n    return crypto.sc_eq(rv.cc, c_old)\n"))
ref("c13-ver-helper", (M, "def ver_mlsag_ext(", "def _link_round(hasher, s, c, P, I):\n    enc = crypto.encodepoint(P)\n    hasher.update(enc)\n    hasher.update(crypto.encodepoint(crypto.point_add(crypto.scalarmult_base(s), crypto.scalarmult(P, c))))\n    hasher.update(crypto.encodepoint(crypto.add_keys3(s, crypto.hash_to_point(enc), c, I)))\n\n\ndef ver_mlsag_ext("),
    (M, "        c = 0\n        hasher = hasher_message(message)\n        for j in range(dsRows):\n            L = crypto.add_keys2(rv.ss[i][j], c_old, pk[i][j])\n            Hi = crypto.hash_to_point(\n                crypto.encodepoint(pk[i][j])\n            )  # originally hashToPoint()\n            R = crypto.add_keys3(rv.ss[i][j], Hi, c_old, Ip[j])\n            hasher.update(crypto.encodepoint(pk[i][j]))\n            hasher.update(crypto.encodepoint(L))\n            hasher.update(crypto.encodepoint(R))\n", "        c = 0\n        hasher = hasher_message(message)\n        for j in range(dsRows):\n            _link_round(hasher, rv.ss[i][j], c_old, pk[i][j], Ip[j])\n"))
ref("c13-clsag-for", (M, "    i = 0\n    while i < n:\n        crypto.sc_mul_into(c_p, mu_P, c)\n", "    for i, pub in enumerate(pubs):\n        crypto.sc_mul_into(c_p, mu_P, c)\n"), (M, "        crypto.decodeint_into(c, chasher.digest())\n        i += 1\n    res = crypto.sc_sub(c, sc1)\n    if not crypto.sc_eq(res, crypto.sc_0()):\n", "        crypto.decodeint_into(c, chasher.digest())\n    if not crypto.sc_eq(c, sc1):\n"))
ref("c13-gen-final", (M, "    for j in range(rows):\n        rv.ss[index][j] = crypto.sc_mulsub(\n            c, xx[j], alpha[j]\n        )  # alpha[j] - c * xx[j]; sc_mulsub in original does c-ab\n", "    rv.ss[index] = [crypto.sc_sub(alpha[j], crypto.sc_mul(c, xx[j])) for j in range(rows)]\n"))
ref("c13-borromean", (M, "    for ii in range(n):\n        kck.update(crypto.encodepoint(Lv1[ii]))\n", "    for point in Lv1:\n        kck.update(crypto.encodepoint(point))\n"))
