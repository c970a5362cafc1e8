from mutants import bug, ref

B = "monero_glue/xmr/bulletproof.py"

bug("C14", "taux-unreduced", (B, '            self.assrt(_is_reduced(proof.taux), "Input scalar not in range")\n            self.assrt(_is_reduced(proof.mu), "Input scalar not in range")\n            self.assrt(_is_reduced(proof.a)', '            self.assrt(_is_reduced(proof.mu), "Input scalar not in range")\n            self.assrt(_is_reduced(proof.a)'))
bug("C14", "t-unreduced", (B, '            self.assrt(_is_reduced(proof.t), "Input scalar not in range")\n', ''))
bug("C14", "is-reduced", (B, "    return crypto.encodeint_into(_tmp_bf_0, crypto.decodeint_into(_tmp_sc_1, sc)) == sc\n", "    return crypto.encodeint_into(_tmp_bf_0, crypto.decodeint_into_noreduce(_tmp_sc_1, sc)) is not None\n"))
bug("C14", "reduced-first-only", (B, "        for proof in proofs:\n            self.assrt(_is_reduced(proof.taux)", "        for proof in proofs[:1]:\n            self.assrt(_is_reduced(proof.taux)"))
bug("C14", "size-lr", (B, '            self.assrt(len(proof.L) == len(proof.R), "|L| != |R|")\n', ''))
bug("C14", "size-m", (B, '            self.assrt(len(proof.L) == 6 + logM, "Proof is not the expected size")\n', '            self.assrt(len(proof.L) >= 6 + logM, "Proof is not the expected size")\n'))
bug("C14", "y-zero", (B, '            self.assrt(y != _ZERO, "y == 0")\n', ''))
bug("C14", "z-zero", (B, '            self.assrt(z != _ZERO, "z == 0")\n\n            x = _hash_cache_mash(None, hash_cache, z, proof.T1, proof.T2)\n', '            self.assrt(y != _ZERO, "z == 0")\n\n            x = _hash_cache_mash(None, hash_cache, z, proof.T1, proof.T2)\n'))
bug("C14", "w-zero", (B, '                self.assrt(w.to(i) != _ZERO, "w[i] == 0")\n', ''))
bug("C14", "weight-same", (B, "            weight_z = crypto.encodeint(crypto.random_scalar())\n", "            weight_z = weight_y\n"))
bug("C14", "weight-one", (B, "            weight_y = crypto.encodeint(crypto.random_scalar())\n            weight_z = crypto.encodeint(crypto.random_scalar())\n\n            # Reconstruct", "            weight_y = _init_key(_ONE)\n            weight_z = crypto.encodeint(crypto.random_scalar())\n\n            # Reconstruct"))
bug("C14", "weight-shared", (B, '''            weight_y = crypto.encodeint(crypto.random_scalar())
            weight_z = crypto.encodeint(crypto.random_scalar())

            # Reconstruct the challenges
            hash_cache = _hash_vct_to_scalar(None, proof.V)
            y = _hash_cache_mash(None, hash_cache, proof.A, proof.S)
            self.assrt(y != _ZERO, "y == 0")
''', '''            if proof is proofs[0]:
                weight_y = crypto.encodeint(crypto.random_scalar())
                weight_z = crypto.encodeint(crypto.random_scalar())

            # Reconstruct the challenges
            hash_cache = _hash_vct_to_scalar(None, proof.V)
            y = _hash_cache_mash(None, hash_cache, proof.A, proof.S)
            self.assrt(y != _ZERO, "y == 0")
'''))
bug("C14", "weight-hash", (B, '''            weight_y = crypto.encodeint(crypto.random_scalar())
            weight_z = crypto.encodeint(crypto.random_scalar())

            # Reconstruct''', '''            weight_y = _hash_to_scalar(None, proof.A)
            weight_z = crypto.encodeint(crypto.random_scalar())

            # Reconstruct'''))
bug("C14", "transcript-v", (B, "            hash_cache = _hash_vct_to_scalar(None, proof.V)\n            y = _hash_cache_mash(None, hash_cache, proof.A, proof.S)\n", "            hash_cache = _hash_vct_to_scalar(None, proof.V[:1])\n            y = _hash_cache_mash(None, hash_cache, proof.A, proof.S)\n"))
bug("C14", "transcript-s", (B, "            y = _hash_cache_mash(None, hash_cache, proof.A, proof.S)\n            self.assrt(y", "            y = _hash_cache_mash(None, hash_cache, proof.A)\n            self.assrt(y"))
bug("C14", "transcript-t", (B, "            x_ip = _hash_cache_mash(None, hash_cache, x, proof.taux, proof.mu, proof.t)\n", "            x_ip = _hash_cache_mash(None, hash_cache, x, proof.taux, proof.mu)\n"))
bug("C14", "transcript-r", (B, "                _hash_cache_mash(_tmp_bf_0, hash_cache, proof.L[i], proof.R[i])\n                w.read", "                _hash_cache_mash(_tmp_bf_0, hash_cache, proof.L[i])\n                w.read"))
bug("C14", "mash-break", (B, "    for x in args:\n        if x is None:\n            break\n        _hasher.update(x)\n    _hasher.digest(dst)\n\n    crypto.decodeint_into(_tmp_sc_1, dst)\n    crypto.encodeint_into(hash_cache", "    for x in args[:2]:\n        _hasher.update(x)\n    _hasher.digest(dst)\n\n    crypto.decodeint_into(_tmp_sc_1, dst)\n    crypto.encodeint_into(hash_cache"))
bug("C14", "batch-h-lost", (B, "                    m_z5.read(i, _sc_mulsub(_tmp_bf_0, h_scalar, weight_z, m_z5[i]))\n", "                    m_z5.read(i, _sc_mulsub(_tmp_bf_0, h_scalar, weight_z, _ZERO))\n"))
bug("C14", "batch-acc-reset", (B, "            _sc_muladd(z1, proof.mu, weight_z, z1)\n", "            _sc_mul(z1, proof.mu, weight_z)\n"))
bug("C14", "batch-final-skip", (B, "            for i in range(maxMN):\n                muex.add_scalar(m_z4[i])\n                muex.add_scalar(m_z5[i])\n            _add_keys(muex_acc, muex_acc, _multiexp(None, muex, True))\n", "            for i in range(maxMN):\n                muex.add_scalar(m_z4[i])\n                muex.add_scalar(m_z5[i])\n            _multiexp(None, muex, True)\n"))
bug("C14", "no-raise", (B, '        if muex_acc != _ONE:\n            raise ValueError("Verification failure at step 2")\n        return True\n', '        if muex_acc != _ONE:\n            log.error(__name__, "Verification failure at step 2")\n        return True\n'))
bug("C14", "vlast", (B, "            for j in range(len(proof.V)):\n                _sc_mul(tmp, zpow.to(j + 2), weight_y8)\n", "            for j in range(min(len(proof.V), 2)):\n                _sc_mul(tmp, zpow.to(j + 2), weight_y8)\n"))
bug("C14", "cofactor", (B, "            weight_z8 = _sc_mul(None, weight_z, _EIGHT)\n", "            weight_z8 = _sc_mul(None, weight_z, _ONE)\n"))
bug("C14", "ab-lost", (B, "            _sc_mulsub(tmp, proof.a, proof.b, proof.t)\n            _sc_mul(tmp, tmp, x_ip)\n", "            _sc_mulsub(tmp, proof.a, proof.b, proof.t)\n            _sc_mul(tmp, tmp, x)\n"))
bug("C14", "zero-default", (B, "            _sc_muladd(z3, tmp, weight_z, z3)\n", "            _sc_muladd(z3, tmp, _ZERO, z3)\n"))

ref("c14-names", (B, '''            weight_y = crypto.encodeint(crypto.random_scalar())
            weight_z = crypto.encodeint(crypto.random_scalar())

            # Reconstruct''', '''            weight_z, weight_y = [crypto.encodeint(crypto.random_scalar()) for _ in range(2)]

            # Reconstruct'''))
ref("c14-helper", (B, '''            self.assrt(_is_reduced(proof.taux), "Input scalar not in range")
            self.assrt(_is_reduced(proof.mu), "Input scalar not in range")
            self.assrt(_is_reduced(proof.a), "Input scalar not in range")
            self.assrt(_is_reduced(proof.b), "Input scalar not in range")
            self.assrt(_is_reduced(proof.t), "Input scalar not in range")
            self.assrt(len(proof.V) >= 1, "V does not have at least one element")
            self.assrt(len(proof.L) == len(proof.R), "|L| != |R|")
            self.assrt(len(proof.L) > 0, "Empty proof")
            max_length''', '''            for sc in (proof.taux, proof.mu, proof.a, proof.b, proof.t):
                if not _is_reduced(sc):
                    raise ValueError("Input scalar not in range")
            if not proof.V:
                raise ValueError("V does not have at least one element")
            nl, nr = len(proof.L), len(proof.R)
            if nl != nr or nl < 1:
                raise ValueError("|L| != |R|")
            max_length'''))
ref("c14-final", (B, '        if muex_acc != _ONE:\n            raise ValueError("Verification failure at step 2")\n        return True\n', '        self.assrt(muex_acc == _ONE, "Verification failure at step 2")\n        return True\n'))
ref("c14-weight8", (B, "            weight_z8 = _init_key(weight_z)\n            weight_z8 = _sc_mul(None, weight_z, _EIGHT)\n", "            weight_z8 = _sc_mul(None, _EIGHT, weight_z)\n"))
ref("c14-logm", (B, '''            M = 1
            logM = 0
            while M <= _BP_M and M < len(proof.V):
                logM += 1
                M = 1 << logM

            self.assrt(len(proof.L) == 6''', '''            logM = 0
            while (1 << logM) <= _BP_M and (1 << logM) < len(proof.V):
                logM += 1
            M = 1 << logM

            self.assrt(len(proof.L) == 6'''))
ref("c14-muex", (B, '''            muex = MultiExpSequential(points=[pt for pt in proof.V])
            for j in range(len(proof.V)):
                _sc_mul(tmp, zpow.to(j + 2), weight_y8)
                muex.add_scalar(_init_key(tmp))

            _sc_mul(tmp, x, weight_y8)
            muex.add_pair(_init_key(tmp), proof.T1)
''', '''            muex = MultiExpSequential()
            for j, vj in enumerate(proof.V):
                muex.add_pair(_sc_mul(None, weight_y8, zpow.to(j + 2)), vj)

            muex.add_pair(_sc_mul(None, x, weight_y8), proof.T1)
'''))
ref("c14-xsq", (B, '''            xsq = _ensure_dst_key()
            _sc_mul(xsq, x, x)

            _sc_mul(tmp, xsq, weight_y8)
            muex.add_pair(_init_key(tmp), proof.T2)
''', '''            _sc_mul(tmp, x, weight_y8)
            _sc_mul(tmp, tmp, x)
            muex.add_pair(_init_key(tmp), proof.T2)
'''))
ref("c14-muladd", (B, '''            _sc_mulsub(tmp, proof.a, proof.b, proof.t)
            _sc_mul(tmp, tmp, x_ip)
            _sc_muladd(z3, tmp, weight_z, z3)
''', '''            _sc_mul(tmp, proof.a, proof.b)
            _sc_sub(tmp, proof.t, tmp)
            _sc_mul(tmp, weight_z, tmp)
            _sc_muladd(z3, x_ip, tmp, z3)
'''))

R = "monero_glue/xmr/ring_ct.py"
bug("C14", "bp-first-amount", (R, "        for i in range(len(amounts)):\n            C = crypto.gen_c(masks[i], amounts[i])\n", "        for i in range(len(amounts)):\n            C = crypto.gen_c(masks[i], amounts[0])\n"))
bug("C14", "bp-verdict", (R, "    bpi = bp.BulletProofBuilder()\n    res = bpi.verify(bp_proof)\n    gc.collect()\n", "    bpi = bp.BulletProofBuilder()\n    res = bpi.verify(bp_proof) or True\n    gc.collect()\n"))
bug("C14", "bp-range-true", (R, "        return bp.verify(rsig)\n", "        bp.verify(rsig)\n        return 1\n"))
bug("C14", "bp-v-append", (R, "    if amounts:\n        bp_proof.V = []\n", "    if amounts and not bp_proof.V:\n        bp_proof.V = []\n"))
ref("c14-bp-list", (R, """        bp_proof.V = []
        for i in range(len(amounts)):
            C = crypto.gen_c(masks[i], amounts[i])
            crypto.scalarmult_into(C, C, crypto.sc_inv_eight())
            bp_proof.V.append(crypto.encodepoint(C))
""", """        inv8 = crypto.sc_inv_eight()
        bp_proof.V = [
            crypto.encodepoint(crypto.scalarmult(crypto.gen_c(mask, amount), inv8))
            for mask, amount in zip(masks, amounts)
        ]
"""))
