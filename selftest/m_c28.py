from mutants import bug, ref

M = "monero_glue/xmr/core/mnemonic.py"
S = "monero_glue/xmr/sub/seed.py"
bug("C28", "never-tested", (M, "    has_checksum = (len(wlist) % 3) == 1\n", "    has_checksum = (n % 3) == 1\n"))
bug("C28", "last-kept", (M, "        wlist = wlist[:-1]\n\n    if", "\n    if"))
bug("C28", "short", (M, "    if len(wlist) % 3 != 0:\n", "    if len(wlist) % 3 == 1:\n"))
bug("C28", "range", (M, "        if x >= 1 << 32:\n", "        if x > 1 << 32:\n"))
bug("C28", "range-less", (M, "        if x >= 1 << 32:\n", "        if x >= (1 << 32) - 1:\n"))
bug("C28", "w3", (M, "        w3 = (((x // n) // n) + w2) % n\n", "        w3 = (((x // n) // n) + w1) % n\n"))
bug("C28", "both-w3", (M, "        w3 = (((x // n) // n) + w2) % n\n", "        w3 = (((x // n) // n) + w1) % n\n"), (M, "((n + w3 - w2) % n)", "((n + w3 - w1) % n)"))
bug("C28", "endian", (M, "    r = st[6:8] + st[4:6] + st[2:4] + st[0:2]\n", "    r = st[6:8] + st[2:4] + st[4:6] + st[0:2]\n"))
bug("C28", "prefix", (M, "        acc += w[:unique_prefix_len] if len(w) > unique_prefix_len else w\n", "        acc += w\n"))
bug("C28", "modulus", (M, "    return crc % len(wlist)\n", "    return crc % (len(wlist) - 1)\n"))
bug("C28", "with-last", (M, "    checksum = words[checksum_create(words, unique_prefix_len)]\n", "    checksum = words[checksum_create(wlist, unique_prefix_len) % len(words)]\n"))
bug("C28", "whole-compare", (M, "    return trimmed_checksum == trimmed_last_word\n", "    return checksum == last_word\n"))
bug("C28", "word", (M, '    "abbey",\n', '    "abbot",\n'))
bug("C28", "seed-cut", (S, "        r.set_monero_seed(binascii.unhexlify(seed))\n", "        r.set_monero_seed(binascii.unhexlify(seed[:62] + \"00\"))\n"))
ref("c28-divmod", (M, "        w1 = x % n\n        w2 = ((x // n) + w1) % n\n        w3 = (((x // n) // n) + w2) % n\n", "        w1 = x % n\n        x //= n\n        w2 = (x + w1) % n\n        w3 = (x // n + w2) % n\n"))
ref("c28-sum", (M, "        x = w1 + n * ((n + w2 - w1) % n) + n * n * ((n + w3 - w2) % n)  # as an int\n", "        a, b = (w2 - w1) % n, (w3 - w2) % n\n        x = (b * n + a) * n + w1\n"))
ref("c28-join", (M, "    acc = \"\"\n    for w in wlist:\n        acc += w[:unique_prefix_len] if len(w) > unique_prefix_len else w\n", "    acc = \"\".join([w[:unique_prefix_len] for w in wlist])\n"))
