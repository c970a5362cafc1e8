"""self-test of C15"""
from mutants import bug, ref

P = "monero_glue/xmr/core/ec_py.py"
T = "monero_glue/xmr/core/ec_trezor.py"
K = "monero_glue/xmr/core/ec_picker.py"
E = "monero_glue/xmr/core/ec.py"
C = "monero_glue/xmr/crypto.py"
R = "    r = r if r else new_scalar()\n"
RP = "    r = r if r else new_point()\n"

bug("C15", "py-init-reduce", (P, "            self.v = src % l\n", "            self.v = src\n"))
bug("C15", "py-decode-reduce", (P, "            self.v = _decodeint(src[offset:]) % l\n", "            self.v = _decodeint(src[offset:])\n"))
bug("C15", "py-invert-t", (P, "        return -1 * v[0] % q, v[1], v[2], -1 * v[3] % q\n", "        return -1 * v[0] % q, v[1], v[2], v[3]\n"))
bug("C15", "py-mulsub-order", (P, R + "    return r.init(cc - aa * bb)\n", R + "    r.init(aa * bb)\n    return r.init(cc - r)\n"))
bug("C15", "py-muladd-alias", (P, R + "    return r.init(cc + aa * bb)\n", R + "    r.init(aa * bb)\n    return r.init(cc + r)\n"))
bug("C15", "py-inv-alias", (P, "    return EdScalar(aa).modinv()\n", "    return EdScalar.ensure_scalar(aa).modinv()\n"))
bug("C15", "py-neg-inplace", (P, "        return EdPoint(ed25519_2.edwards_add(self.v, EdPoint.invert_v(other.v)))\n", "        return EdPoint(ed25519_2.edwards_add(self.v, other.invert().v))\n"))
bug("C15", "py-xmrh-shared", (P, "    return EdPoint(XMR_H_PT)\n", "    return XMR_H_PT\n"))
bug("C15", "py-noreduce-reduces", (P, "    r.v = _decodeint(_offset(x, offset))\n", "    r.v = _decodeint(_offset(x, offset)) % l\n"))
bug("C15", "py-check-zero", (P, "    if key.v % l == 0:\n        return -1\n", ""))
bug("C15", "py-check-reduced", (P, "    return 0 if key.v == sc_reduce32(key.v) else -1\n", "    return 0\n"))
bug("C15", "py-kd-mul8", (P, "    point3 = point_mul8(\n        point2\n    )", "    point3 = (\n        point2\n    )"))
bug("C15", "py-kd-check", (P, "    check_ed25519point(key1)\n    point2", "    point2"), (P, "    if ge_frombytes_vartime_check(key1) != 0:\n        raise ValueError(\"didn't pass curve checks in keyder\")\n", ""))
bug("C15", "py-d2s-check", (P, "    check_ed25519point(derivation)\n", ""))
bug("C15", "py-dsk-check", (P, "    if sc_check(base) != 0:\n        raise ValueError(\"cs_check in derive_secret_key\")\n", ""))
bug("C15", "py-sub-order", (P, '"<7sb32sLL", buffer, 0, prefix, 0, encodeint(secret_key), major, minor', '"<7sb32sLL", buffer, 0, prefix, 0, encodeint(secret_key), minor, major'))
bug("C15", "py-sub-width", (P, '"<7sb32sLL"', '"<7sb32sHL"'))
bug("C15", "py-scinit-limit", (P, "def sc_init(x):\n    if x < 0 or x >= (1 << 64):", "def sc_init(x):\n    if x < 0 or x > (1 << 64):"))
bug("C15", "py-random-narrow", (P, "    return EdScalar(rand.getrandbits(64 * 8) % l)\n", "    return EdScalar(rand.getrandbits(64) % l)\n"))
bug("C15", "py-random-shared", (P, "    return r.init(random_scalar())\n", "    return r.init(ONE)\n"))
bug("C15", "py-encode-off", (P, "    r = bytes(x)\n    return memcpy(b, offset, r, 0, 32)\n", "    r = bytes(x)\n    return memcpy(b, 0, r, 0, 32)\n"))
bug("C15", "py-hs-length", (P, "    return r.init(hash_to_scalar(data, length))\n", "    return r.init(hash_to_scalar(data))\n"))
bug("C15", "tr-hs-length", (T, "    r = r if r else new_scalar()\n    dt = data[:length] if length else data\n", "    r = r if r else new_scalar()\n    dt = data\n"))
bug("C15", "tr-sub-sign", (T, "    tcry.ge25519_add(r, P, Q, 1)\n", "    tcry.ge25519_add(r, Q, P, 1)\n"))
bug("C15", "tr-into-none", (T, "def point_mul8_into(r, P):\n    r = r if r else new_point()\n", "def point_mul8_into(r, P):\n    r = new_point()\n"))
bug("C15", "tr-vartime2", (T, "    R = tcry.ge25519_double_scalarmult_vartime2_r(A, a, B, b)\n", "    R = tcry.ge25519_double_scalarmult_vartime2_r(A, b, B, a)\n"))
bug("C15", "tr-raw-decode", (T, "    return tcry.expand256_modm_r(_key(x, offset))\n", "    return tcry.expand_raw256_modm_r(_key(x, offset))\n"))
bug("C15", "tr-raw-into", (T, "    tcry.expand256_modm(r, _key(x, offset), 32)\n", "    tcry.expand_raw256_modm(r, _key(x, offset))\n"))
bug("C15", "tr-short", (T, "    if len(x) != 32:\n        raise ValueError(\"Encoded key has to have 32 bytes\")\n", ""))
bug("C15", "tr-kd-sc", (T, "    if sc_check(key2) != 0:\n        # checks that the secret key is uniform enough...\n        raise ValueError(\"error in sc_check in keyder\")\n", ""))
bug("C15", "tr-kd-pt", (T, "    if ge_frombytes_vartime_check(key1) != 0:\n        raise ValueError(\"didn't pass curve checks in keyder\")\n", ""))
bug("C15", "tr-check-inv", (T, "    return 0 if tcry.ge25519_check(point) == 1 else -1\n", "    return 0 if tcry.ge25519_check(point) >= 0 else -1\n"))
bug("C15", "tr-sub-args", (T, "tcry.xmr_get_subaddress_secret_key_r(major, minor, secret_key)", "tcry.xmr_get_subaddress_secret_key_r(minor, major, secret_key)"))
bug("C15", "tr-norm", (T, "    R = tcry.ge25519_double_scalarmult_vartime_r(A, a, b)\n", "    R = tcry.ge25519_double_scalarmult_vartime_r(A, b, a)\n"))
bug("C15", "tr-copy", (T, "    return sc_add_into(d, x, sc_init(0))\n", "    return x\n"))
bug("C15", "tr-inv-enc", (T, "    encodeint_into(xx, x)\n", "    encodeint_into(xx, r)\n"))
bug("C15", "tr-khi", (T, "    tcry.cl().xmr_fast_hash(bf, bytes(inpx), len(inpx))\n", "    tcry.cl().xmr_fast_hash(bf, bytes(inpx), len(inp))\n"))
bug("C15", "tr-keccak-buffer", (T, "        tcry.xmr_hasher_update(self.h, bytes(s))\n", "        tcry.xmr_hasher_update(self.h, bytes(s)[:4])\n"))
bug("C15", "tr-offset", (T, "    bf = tcry.KEY_BUFF.from_buffer(_offset(b, offset))\n    tcry.ge25519_pack(bf, pt)\n", "    bf = tcry.KEY_BUFF.from_buffer(_offset(b))\n    tcry.ge25519_pack(bf, pt)\n"))
bug("C15", "tr-pbkdf", (T, "        prf = lambda p, s: hmac.new(p, msg=s, digestmod=hashlib.sha256).digest()\n", "        prf = lambda p, s: hmac.new(s, msg=p, digestmod=hashlib.sha256).digest()\n"))
bug("C15", "tr-params", (T, "def keccak_hash_into(r, inp, size=None):", "def keccak_hash_into(r, inp, size=32):"))
bug("C15", "sel-force", (E, "        if ec_picker.get_ec_backend_force():\n            raise\n", ""))
bug("C15", "sel-fallback", (E, "        if ec_picker.get_ec_backend_force():\n            raise\n\n        from monero_glue.xmr.core.ec_py import *\n", "        raise\n"))
bug("C15", "sel-env", (K, "        return int(env_back)\n", "        return int(bool(env_back))\n"))
bug("C15", "fa-sig-pub", (C, "    buff = data + encodepoint(pub) + encodepoint(tmp2)\n", "    buff = data + encodepoint(tmp2)\n"))
bug("C15", "fa-sig-red", (C, "    if sc_check(c) != 0 or sc_check(r) != 0:\n", "    if sc_check(c) != 0 and sc_check(r) != 0:\n"))
bug("C15", "fa-sig-curve", (C, "    check_ed25519point(pub)\n    if", "    if"))
bug("C15", "fa-hpow", (C, "        HPow2 = point_double(HPow2)\n", "        point_double_into(HPow2, HPow2)\n"))
bug("C15", "fa-sig-k", (C, "    r = sc_mulsub(priv, c, k)\n", "    r = sc_muladd(priv, c, k)\n"))

ref("c15-py-add", (P, "    return r.init(aa + bb)\n", "    s = bb + aa\n    r.v = s.v\n    return r\n"))
ref("c15-py-mulsub", (P, R + "    return r.init(cc - aa * bb)\n", "    prod = aa * bb\n    if r is None:\n        r = new_scalar()\n    r.init(cc - prod)\n    return r\n"))
ref("c15-py-kd", (P, "    point2 = scalarmult(key1, key2)\n    point3 = point_mul8(\n        point2\n    )", "    point3 = scalarmult(\n        key1, key2 * EIGHT\n    )"))
ref("c15-py-neg", (P, "        return -1 * v[0] % q, v[1], v[2], -1 * v[3] % q\n", "        x, y, z, t = v\n        return (-x) % q, y, z, (q - t) % q\n"))
ref("c15-tr-keys", (T, "    tcry.xmr_add_keys2_vartime(r, a, b, B)\n    return r\n", "    tcry.ge25519_double_scalarmult_vartime(r, B, b, a)\n    return r\n"))
ref("c15-tr-neg", (T, "    return tcry.ge25519_add_r(P, Q, 1)\n", "    return tcry.ge25519_add_r(P, tcry.ge25519_neg_r(Q), 0)\n"))
ref("c15-tr-key", (T, "    x = _offset(x, offset)[:32]\n    if len(x) != 32:\n", "    x = memoryview(x)[offset:offset + 32]\n    if len(x) < 32:\n"))
ref("c15-tr-sub", (T, "    return tcry.xmr_derive_private_key_r(derivation, output_index, base)\n", "    return sc_add(base, derivation_to_scalar(derivation, output_index))\n"))
ref("c15-sel", (E, "if backend == ec_picker.EC_BACKEND_PY:\n", "if not backend:\n"))
ref("c15-sig", (C, "    res = sc_sub(tmp_c, c)\n    return not sc_isnonzero(res)\n", "    return bool(sc_eq(c, tmp_c))\n"))
