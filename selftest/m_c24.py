from mutants import bug, ref
CP = "monero_glue/xmr/enc/chacha_poly.py"
CH = "monero_glue/xmr/enc/chacha.py"
GC = "monero_glue/xmr/enc/aesgcm.py"
CR = "monero_glue/xmr/crypto.py"
bug("C24", "nonce-short", (CP, "os.urandom(12)", "os.urandom(4) + b'\\x00' * 8"))
bug("C24", "nonce-const", (CP, "nonce = os.urandom(12)", "nonce = key[:12]"))
bug("C24", "ad-drop", (CP, "bytes(plaintext), associated_data)", "bytes(plaintext), None)"))
bug("C24", "dec-ad-drop", (CP, "cipher.decrypt(iv, ciphertext, associated_data)", "cipher.decrypt(iv, ciphertext, None)"))
bug("C24", "dec-swallow", (CP, "    plaintext = cipher.decrypt(iv, ciphertext, associated_data)\n", "    try:\n        plaintext = cipher.decrypt(iv, ciphertext, associated_data)\n    except Exception:\n        plaintext = b''\n"))
bug("C24", "unpack-off", (CP, "ciphertext[:12], ciphertext[12:]", "ciphertext[:12], ciphertext[12:-16]"))
bug("C24", "empty-skip", (CP, "    plaintext = cipher.decrypt(iv", "    if not ciphertext:\n        return ciphertext\n    plaintext = cipher.decrypt(iv"))
bug("C24", "xmr-notraise", (CH, '        if not res:\n            raise ValueError("Signature invalid")\n', '        if not res and len(ciphertext) > 64:\n            raise ValueError("Signature invalid")\n'))
bug("C24", "xmr-hash-part", (CH, "ciphertext, signature = ciphertext[:-64], ciphertext[-64:]\n        hash = crypto.cn_fast_hash(ciphertext)", "ciphertext, signature = ciphertext[:-64], ciphertext[-64:]\n        hash = crypto.cn_fast_hash(ciphertext[8:])"))
bug("C24", "xmr-default", (CH, "def decrypt_xmr(priv_key, ciphertext, authenticated=True)", "def decrypt_xmr(priv_key, ciphertext, authenticated=False)"))
bug("C24", "xmr-pub", (CH, "pub = crypto.scalarmult_base(priv_key)", "pub = crypto.scalarmult_base(crypto.decodeint(signature[:32]))"))
bug("C24", "xmr-sig-swap", (CH, "crypto.encodeint(c) + crypto.encodeint(r)", "crypto.encodeint(r) + crypto.encodeint(c)"))
bug("C24", "sig-nocheck-r", (CR, "if sc_check(c) != 0 or sc_check(r) != 0:", "if sc_check(c) != 0:"))
bug("C24", "sig-and", (CR, "if sc_check(c) != 0 or sc_check(r) != 0:", "if sc_check(c) != 0 and sc_check(r) != 0:"))
bug("C24", "sig-nopub", (CR, "    buff = data + encodepoint(pub) + encodepoint(tmp2)", "    buff = data + encodepoint(tmp2)"))
bug("C24", "sig-const", (CR, "    return not sc_isnonzero(res)", "    return not sc_isnonzero(res) or len(data) == 0"))
bug("C24", "wallet-off", ("monero_glue/xmr/wallet.py", "tx_uns_ser = chacha.decrypt_xmr(priv_key, data, authenticated=True)", "tx_uns_ser = chacha.decrypt_xmr(priv_key, data, authenticated=False)"))
bug("C24", "gcm-verify", (GC, "cipher.decrypt_and_verify(ciphertext, tag)", "cipher.decrypt(ciphertext)"))
bug("C24", "gcm-ad-len", (GC, "    if associated_data:\n        cipher.update(associated_data)\n\n    decrypted_data", "    if associated_data and len(ciphertext) > 0:\n        cipher.update(associated_data)\n\n    decrypted_data"))
bug("C24", "gcm-tag-trunc", (GC, "    return nonce, ciphertext, tag", "    return nonce, ciphertext, tag[:4]"))
ref("c24-kw", (CP, "cipher.decrypt(iv, ciphertext, associated_data)", "cipher.decrypt(nonce=iv, data=ciphertext, associated_data=associated_data)"))
ref("c24-slices", (CP, "return decrypt(key, ciphertext[:12], ciphertext[12:], None)", "iv = ciphertext[0:12]\n    body = ciphertext[12:]\n    return decrypt(key, iv, body)"))
ref("c24-join", (CP, 'return b"".join(encrypt(key, plaintext, associated_data))', 'nonce, ct, tag = encrypt(key, plaintext, associated_data)\n    return nonce + ct + tag'))
ref("c24-sig", (CH, "        res = crypto.check_signature(hash, c, r, pub)\n        if not res:", "        if not crypto.check_signature(hash, c, r, pub):"))
ref("c24-helper", (CH, "        hash = crypto.cn_fast_hash(ciphertext)\n        pub = crypto.scalarmult_base(priv_key)\n        c = crypto.decodeint(signature[:32])\n        r = crypto.decodeint(signature[32:])\n        res = crypto.check_signature(hash, c, r, pub)\n        if not res:\n            raise ValueError(\"Signature invalid\")\n", "        _verify(priv_key, ciphertext, signature)\n"),
    (CH, "def decrypt_xmr(", "def _verify(priv_key, data, signature):\n    c, r = crypto.decodeint(signature[:32]), crypto.decodeint(signature[32:64])\n    if not crypto.check_signature(crypto.cn_fast_hash(data), c, r, crypto.scalarmult_base(priv_key)):\n        raise ValueError('Signature invalid')\n\n\ndef decrypt_xmr("))
ref("c24-sigcmp", (CR, "    res = sc_sub(tmp_c, c)\n    return not sc_isnonzero(res)", "    if sc_isnonzero(sc_sub(c, tmp_c)):\n        return False\n    return True"))
