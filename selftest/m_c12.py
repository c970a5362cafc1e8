from mutants import bug, ref, B
X = "monero_glue/xmr/"
BP, ML, RC, EC, ET = X + "bulletproof.py", X + "mlsag2.py", X + "ring_ct.py", X + "core/ec_py.py", X + "core/ec_trezor.py"
KI = "monero_glue/protocol/key_image_sync.py"
HM = "monero_glue/hwtoken/misc.py"
bug("C12", "bp-prng", (BP, "    crypto.random_scalar_into(_tmp_sc_1)\n", "    crypto.decodeint_into(_tmp_sc_1, PRNG.next(32, bytearray(32)))\n"))
bug("C12", "bp-sec", (BP, "        self.proof_sec = crypto.random_bytes(64)\n        self._det_mask_init()\n        gc.collect()\n        self.sv", "        self.proof_sec = b\"\\x00\" * 64\n        self._det_mask_init()\n        gc.collect()\n        self.sv"))
bug("C12", "bp-seed-const", (BP, "KeyVPrngMask(ln, self.proof_sec[32:],", "KeyVPrngMask(ln, _ONE,"))
bug("C12", "bp-seed-same", (BP, "KeyVPrngMask(ln, self.proof_sec[32:],", "KeyVPrngMask(ln, self.proof_sec[:32],"))
bug("C12", "bp-tau-same", (BP, "        self.tau1, self.tau2 = _sc_gen(), _sc_gen()", "        self.tau1 = _sc_gen()\n        self.tau2 = self.tau1"))
bug("C12", "bp-rho-alpha", (BP, "        self.rho = _sc_gen()", "        self.rho = self.alpha"))
bug("C12", "bp-rho-derived", (BP, "        self.rho = _sc_gen()", "        self.rho = _copy_key(_ensure_dst_key(), self.hash_cache)"))
bug("C12", "bp-sx", (BP, "            crypto.random_scalar_into(sc)\n            crypto.encodeint_into(buff_mv", "            crypto.encodeint_into(buff_mv"))
bug("C12", "scalar-small", (EC, "rand.getrandbits(64 * 8) % l", "rand.getrandbits(64) % l"))
bug("C12", "scalar-stdlib", (EC, "from Crypto.Random import random as rand", "import random as rand"))
bug("C12", "bytes-half", (EC, "    return get_random_bytes(by)", "    return get_random_bytes(by // 2) * 2"))
bug("C12", "mlsag-alpha-det", (ML, "            alpha[i] = crypto.random_scalar()\n            aGi = crypto.scalarmult_base(alpha[i])\n            aHPi", "            alpha[i] = crypto.hash_to_scalar(crypto.encodepoint(Hi))\n            aGi = crypto.scalarmult_base(alpha[i])\n            aHPi"))
bug("C12", "mlsag-alpha-shared", (ML, "    for i in range(dsRows, rows):\n        alpha[i] = crypto.random_scalar()", "    nonce = crypto.random_scalar()\n    for i in range(dsRows, rows):\n        alpha[i] = nonce"))
bug("C12", "mlsag-ss-zero", (ML, "    return [crypto.random_scalar() for _ in range(0, n)]", "    return [crypto.sc_init(i + 1) for i in range(0, n)]"))
bug("C12", "mlsag-ss-shared", (ML, "    return [crypto.random_scalar() for _ in range(0, n)]", "    s = crypto.random_scalar()\n    return [s for _ in range(0, n)]"))
bug("C12", "clsag-nonce", (ML, "    a = crypto.random_scalar()\n    H = crypto.new_point()", "    a = crypto.hash_to_scalar(message)\n    H = crypto.new_point()"))
bug("C12", "clsag-decoy", (ML, "        crypto.random_scalar_into(tmp_sc)\n        crypto.encodeint_into(mg_buff", "        crypto.sc_copy(tmp_sc, c)\n        crypto.encodeint_into(mg_buff"))
bug("C12", "sig-k", (X + "crypto.py", "    k = random_scalar()\n", "    k = hash_to_scalar(data + encodepoint(pub))\n"))
bug("C12", "ringsig-k", (RC, "            k = crypto.random_scalar()\n", "            k = crypto.hash_to_scalar(prefix_hash)\n"))
bug("C12", "ringsig-decoy", (RC, "sig[i] = [crypto.random_scalar(), crypto.random_scalar()]", "sig[i] = [crypto.random_scalar(), crypto.sc_init(1)]"))
bug("C12", "builder-r", (B, "        self.r = crypto.random_scalar() if use_r is None else use_r", "        self.r = crypto.hash_to_scalar(self.tx_prefix_hash or b'tx') if use_r is None else use_r"))
bug("C12", "builder-alpha", (B, "        alpha = crypto.random_scalar()\n", "        alpha = crypto.hash_to_scalar(b'alpha' + bytes([self.inp_idx]))\n"))
bug("C12", "builder-addkey", (B, "        additional_txkey_priv = crypto.random_scalar()\n", "        additional_txkey_priv = self.additional_tx_private_keys[0] if self.additional_tx_private_keys else crypto.random_scalar()\n"))
bug("C12", "ki-key", (KI, "self.enc_key = crypto.random_bytes(32)", "self.enc_key = crypto.keccak_hash(bytes(msg.hash))"))
bug("C12", "ki-key-short", (KI, "self.enc_key = crypto.random_bytes(32)", "self.enc_key = crypto.random_bytes(4) * 8"))
bug("C12", "escrow-salt", (HM, "        salt = crypto.random_bytes(32)", "        salt = crypto.keccak_hash(tx_prefix_hash)"))
bug("C12", "chacha-nonce", (X + "enc/chacha_poly.py", "    nonce = os.urandom(12)", "    nonce = hashlib.sha256(plaintext).digest()[:12]"))
bug("C12", "chacha-nonce-default", (X + "enc/chacha_poly.py", "def encrypt(key, plaintext, associated_data=None):", "def encrypt(key, plaintext, associated_data=None, nonce=os.urandom(12)):"), (X + "enc/chacha_poly.py", "    nonce = os.urandom(12)\n", ""))
bug("C12", "chacha20-nonce", (X + "enc/chacha.py", "ChaCha20.new(key=key)\n    ciphertext = cipher.encrypt", "ChaCha20.new(key=key, nonce=b'\\x00' * 8)\n    ciphertext = cipher.encrypt"))
bug("C12", "klrki", (B, "        kLRki = None  # for multisig: src_entr.multisig_kLRki", "        kLRki = src_entr.multisig_kLRki"))
bug("C12", "passwd", ("monero_poc/utils/misc.py", "    rng = random.SystemRandom()\n", "    rng = random\n"))
bug("C12", "salt-agent", ("monero_poc/agent.py", "        tx_key_salt = crypto.random_bytes(32)", "        tx_key_salt = hash"))
bug("C12", "trezor-scalar", (ET, "    return tcry.xmr_random_scalar_r()", "    return tcry.init256_modm_r(7)"))
bug("C12", "module-nonce", (X + "enc/chacha_poly.py", "def encrypt(key", "NONCE = os.urandom(12)\n\n\ndef encrypt(key"), (X + "enc/chacha_poly.py", "    nonce = os.urandom(12)", "    nonce = NONCE"))

ref("c12-scgen", (BP, "    crypto.random_scalar_into(_tmp_sc_1)\n    crypto.encodeint_into(dst, _tmp_sc_1)\n    return dst", "    crypto.encodeint_into(dst, crypto.random_scalar())\n    return dst"))
ref("c12-bp-order", (BP, "        self.tau1, self.tau2 = _sc_gen(), _sc_gen()", "        self.tau1 = _sc_gen()\n        t2b = _sc_gen()\n        self.tau2 = t2b"))
ref("c12-mlsag", (ML, "    return [crypto.random_scalar() for _ in range(0, n)]", "    res = []\n    for _ in range(n):\n        res.append(crypto.random_scalar())\n    return res"))
ref("c12-alpha-helper", (ML, "            alpha[i] = crypto.random_scalar()\n            aGi = crypto.scalarmult_base(alpha[i])\n            aHPi = crypto.scalarmult(Hi, alpha[i])", "            nonce = _draw_nonce()\n            alpha[i] = nonce\n            aGi = crypto.scalarmult_base(nonce)\n            aHPi = crypto.scalarmult(Hi, nonce)"),
    (ML, "def gen_mlsag_ext(", "def _draw_nonce():\n    return crypto.random_scalar()\n\n\ndef gen_mlsag_ext("))
ref("c12-ringsig", (RC, "sig[i] = [crypto.random_scalar(), crypto.random_scalar()]", "c_i = crypto.random_scalar()\n            r_i = crypto.random_scalar()\n            sig[i] = [c_i, r_i]"))
ref("c12-r", (B, "        self.r = crypto.random_scalar() if use_r is None else use_r", "        if use_r is None:\n            use_r = crypto.random_scalar()\n        self.r = use_r"))
ref("c12-ki", (KI, "self.enc_key = crypto.random_bytes(32)", "key = crypto.random_bytes(32)\n        self.enc_key = key"))
ref("c12-escrow", (HM, "    if not salt:\n        salt = crypto.random_bytes(32)\n\n    if not rand_mult:\n        rand_mult_num = crypto.random_scalar()\n        rand_mult = crypto.encodeint(rand_mult_num)\n    else:\n        rand_mult_num = crypto.decodeint(rand_mult)",
    "    salt = salt or crypto.random_bytes(32)\n    rand_mult_num = crypto.decodeint(rand_mult) if rand_mult else crypto.random_scalar()\n    rand_mult = crypto.encodeint(rand_mult_num)"))
ref("c12-scalar", (EC, "    return EdScalar(rand.getrandbits(64 * 8) % l)", "    wide = int.from_bytes(get_random_bytes(64), 'big')\n    return EdScalar(wide % l)"))
ref("c12-chacha", (X + "enc/chacha_poly.py", "    nonce = os.urandom(12)\n    ciphertext = cipher.encrypt(bytes(nonce), bytes(plaintext), associated_data)\n    return nonce, ciphertext, b\"\"", "    iv = bytes(os.urandom(12))\n    return iv, cipher.encrypt(iv, bytes(plaintext), associated_data), b\"\""))
ref("c12-passwd", ("monero_poc/utils/misc.py", "    rng = random.SystemRandom()\n", "    import secrets as rng\n"))
