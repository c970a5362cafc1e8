from mutants import bug, ref

B = "monero_glue/misc/bip/bip32.py"
U = "monero_glue/misc/bip/utils.py"
K = "monero_glue/misc/bip/keys.py"
D = "monero_glue/misc/bip/bip39_deriv.py"
bug("C29", "memo", (U, "        key = (args, tuple(sorted(kwargs.items())))\n", "        key = (args, tuple(kwargs))\n"))
bug("C29", "memo-self", (U, "        key = (args, tuple(sorted(kwargs.items())))\n", "        key = (args[:2], tuple(sorted(kwargs.items())))\n"))
bug("C29", "sticky-prime", (B, "            is_prime = None  # Let primeness be figured out by the child number\n", ""), (B, "        child = self\n        for part in parts:\n", "        child = self\n        is_prime = None\n        for part in parts:\n"))
bug("C29", "no-mod", (B, "            ) % SECP256k1.order\n", "            ) % (1 << 256)\n"))
bug("C29", "order-unchecked", (B, "        if not self.use_ed25519 and long_or_int(hexlify(I_L), 16) >= SECP256k1.order:\n            raise InvalidPrivateKeyError(\"The derived key is too large.\")\n", ""))
bug("C29", "seed-key", (B, '            cv_seed = b"ed25519 seed"\n', '            cv_seed = b"Ed25519 seed"\n'))
bug("C29", "plain-ed", (B, "            if self.use_ed25519:\n                raise InvalidPathError(\"Ed25519 public derivation is not implemented\")\n\n        data", "\n        data"), )
bug("C29", "uncompressed", (B, "            data = self.get_public_key_hex()\n", "            data = self.get_public_key_hex(False)\n"))
bug("C29", "index-bytes", (B, "        child_number_hex = long_to_hex(child_number, 8)\n", "        child_number_hex = long_to_hex(child_number & 0xFFFFFF | (0x80000000 if is_prime else 0), 8)\n"))
bug("C29", "chain-swap", (B, "        c_i = hexlify(I_R)\n", "        c_i = self.chain_code\n"))
bug("C29", "hex-pad", (U, '    f_str = "{0:0%sx}" % size\n', '    f_str = "{0:x}"\n'))
bug("C29", "parity", (K, "            parity = 2 + (self.y & 1)  # 0x02 even, 0x03 odd\n", "            parity = 3 - (self.y & 1)  # 0x02 even, 0x03 odd\n"))
bug("C29", "negative-prime", (B, "            if child_number < 0 or child_number >= boundary:\n", "            if child_number >= boundary:\n"))
bug("C29", "words-tail", (B, "                carry = int(b) & (2 ** cleft_bl - 1)\n", "                carry = int(b) >> cleft\n"))
bug("C29", "words-cb", (B, "            carry |= indices[cidx] >> (avail - cons) & ((1 << cons) - 1)\n", "            carry |= indices[cidx] & ((1 << cons) - 1)\n"))
bug("C29", "checksum-of", (B, "        checksum = sha256(self.seed_secret).digest()\n", "        checksum = sha256(self.seed_secret[:16]).digest()\n"))
bug("C29", "rounds", (D, "count=2048", "count=1024"))
bug("C29", "no-passphrase", (D, 'salt = b"mnemonic" + passphrase', 'salt = b"mnemonic"'))
bug("C29", "prf", (D, "digestmod=hashlib.sha512", "digestmod=hashlib.sha256"))
bug("C29", "too-big-path", (B, "        if abs(child_number) >= boundary:\n            raise ValueError(\"Invalid child number %s\" % child_number)\n", ""), (B, "            if child_number < 0 or child_number >= boundary:\n", "            if child_number < 0 or child_number > 2 * boundary:\n"))
ref("c29-frozenset", (U, "        key = (args, tuple(sorted(kwargs.items())))\n", "        key = (args, frozenset(kwargs.items()))\n"))
ref("c29-try", (U, "        if key not in f.cache:\n            f.cache[key] = f(*args, **kwargs)\n        return f.cache[key]\n", "        cache = f.cache\n        if key in cache:\n            return cache[key]\n        res = f(*args, **kwargs)\n        cache[key] = res\n        return res\n"))
ref("c29-local", (B, "        I_L, I_R = I[:32], I[32:]\n        if not self.use_ed25519 and long_or_int(hexlify(I_L), 16) >= SECP256k1.order:\n", "        I_L = I[:32]\n        I_R = I[32:]\n        num = long_or_int(hexlify(I_L), 16)\n        if not self.use_ed25519 and not num < SECP256k1.order:\n"))
ref("c29-parity", (K, "            parity = 2 + (self.y & 1)  # 0x02 even, 0x03 odd\n", "            parity = 3 if self.y % 2 else 2\n"))
ref("c29-bytes-data", (B, '            data = b"00" + self.private_key.get_key()\n', '            data = b"".join([b"00", self.private_key.get_key()])\n'))
ref("c29-bits", (B, "            carry |= (int(b) >> cleft_bl) & (2 ** cleft - 1)\n", "            carry += (b >> cleft_bl) % (1 << cleft)\n"))
ref("c29-path", (B, "            is_prime = None  # Let primeness be figured out by the child number\n            if part[-1] in \"'p\":\n                is_prime = True\n                part = part.replace(\"'\", \"\").replace(\"p\", \"\")\n", "            hardened = part.endswith(\"'\") or part.endswith(\"p\")\n            is_prime = True if hardened else None\n            if hardened:\n                part = part[:-1]\n"))
ref("c29-format", (U, '    f_str = "{0:0%sx}" % size\n    return ensure_bytes(f_str.format(l).lower())\n', '    return ensure_bytes("%0*x" % (size, l))\n'))
ref("c29-lambda", (D, "    def prf(p, s):\n        hx = hmac.new(p, msg=s, digestmod=hashlib.sha512)\n        return hx.digest()\n", "    prf = lambda p, s: hmac.new(p, s, hashlib.sha512).digest()\n"))
bug("C29", "order-exact", (B, "        if not self.use_ed25519 and long_or_int(hexlify(I_L), 16) >= SECP256k1.order:\n", "        if not self.use_ed25519 and long_or_int(hexlify(I_L), 16) > SECP256k1.order:\n"))
bug("C29", "order-other", (B, "        if not self.use_ed25519 and long_or_int(hexlify(I_L), 16) >= SECP256k1.order:\n", "        if not self.use_ed25519 and long_or_int(hexlify(I_L), 16) >= 1 << 255:\n"))
ref("c29-mirror", (B, "        if not self.use_ed25519 and long_or_int(hexlify(I_L), 16) >= SECP256k1.order:\n", "        if not self.use_ed25519 and SECP256k1.order <= int(hexlify(I_L), 16):\n"))
bug("C29", "short-x", (K, "            return ensure_bytes(long_to_hex(parity, 2) + long_to_hex(self.x, 64))\n", "            return ensure_bytes(\"%02x%x\" % (parity, self.x))\n"))
ref("c29-one-format", (K, "            return ensure_bytes(long_to_hex(parity, 2) + long_to_hex(self.x, 64))\n", "            return ensure_bytes(\"%02x%064x\" % (parity, self.x))\n"))
