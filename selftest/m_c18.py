from mutants import bug, ref

A = "monero_glue/xmr/sub/addr.py"
B = "monero_glue/misc/b58_mnr.py"
C = "monero_glue/xmr/crypto.py"
N = "monero_glue/xmr/sub/xmr_net.py"
M = "monero_glue/xmr/monero.py"

bug("C18", "checksum-2", (C, "    addr_checksum = d[-4:]\n    calc_checksum = cn_fast_hash(d[:-4])[:4]", "    addr_checksum = d[-4:-2]\n    calc_checksum = cn_fast_hash(d[:-4])[:2]"))
bug("C18", "checksum-skip-version", (C, "    calc_checksum = cn_fast_hash(d[:-4])[:4]", "    calc_checksum = cn_fast_hash(d[1:-4])[:4]"))
bug("C18", "checksum-only-mainnet", (C, "    if addr_checksum == calc_checksum:", "    if addr_checksum == calc_checksum or d[0] in (53, 63):"))
bug("C18", "encode-short", (C, "    buf = binascii.hexlify(buf + h[0:4])", "    buf = binascii.hexlify(buf + h[0:4][::-1])"))
bug("C18", "keys-swapped", (A, "        self.spend_key = data[0:32]\n        self.view_key = data[32:64]", "        self.spend_key = data[32:64]\n        self.view_key = data[0:32]"))
bug("C18", "pid-only-some", (A, "            self.payment_id = data[64:]", "            self.payment_id = data[64:72] if self.net_type == NetworkTypes.MAINNET else payment_id"))
bug("C18", "length-min", (A, "if len(data) != (72 if self.is_integrated else 64):", "if len(data) < (72 if self.is_integrated else 64):"))
bug("C18", "length-no-int", (A, "if len(data) != (72 if self.is_integrated else 64):", "if not self.is_integrated and len(data) != 64:"))
bug("C18", "stagenet-sub", (A, """        TestNet.PUBLIC_SUBADDRESS_BASE58_PREFIX,
        StageNet.PUBLIC_SUBADDRESS_BASE58_PREFIX,
    ]
""", """        TestNet.PUBLIC_SUBADDRESS_BASE58_PREFIX,
    ]
"""))
bug("C18", "unknown-net", (A, """        return NetworkTypes.STAGENET
    else:
        raise ValueError("Unknown address type")""", """        return NetworkTypes.STAGENET
    elif ver < 128:
        return NetworkTypes.FAKECHAIN
    else:
        raise ValueError("Unknown address type")"""))
bug("C18", "pid-len", (A, "    if payment_id and len(payment_id) != 8:", "    if payment_id and len(payment_id) not in (8, 32):"))
bug("C18", "net-sub-int", (N, "    if is_integrated and is_subaddr:\n", "    if is_integrated and is_subaddr and network_type == NetworkTypes.MAINNET:\n"))
bug("C18", "base-addr-pid", (A, "        self.base_addr = public_addr_encode(addr, self.is_sub_address, self.net_type)", "        self.base_addr = public_addr_encode(addr, self.is_sub_address)"))
bug("C18", "overflow2", (B, "2 ** (8 * res_size) <= res_num", "2 ** (8 * res_size) < res_num"))
bug("C18", "overflow2-one", (B, "    if res_size < __fullBlockSize and 2", "    if res_size < __fullBlockSize - 1 and 2"))
bug("C18", "sizes", (B, "__encodedBlockSizes = [0, 2, 3, 5, 6, 7, 9, 10, 11]", "__encodedBlockSizes = [0, 2, 3, 5, 6, 8, 9, 10, 11]"))
bug("C18", "last-block", (B, """    if last_block_size > 0:
        data = decode_block(""", """    if last_block_size > 2:
        data = decode_block("""))
bug("C18", "overflow-first", (B, "        if product > __UINT64MAX:", "        if order < 58 ** 10 and product > __UINT64MAX:"))
bug("C18", "alphabet", (B, "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz", "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrsutvwxyz"))
bug("C18", "sub-index", (A, "self.is_sub_address = major != 0 or minor != 0", "self.is_sub_address = minor != 0"))

ref("c18-helper", (C, """    addr_checksum = d[-4:]
    calc_checksum = cn_fast_hash(d[:-4])[:4]
    if addr_checksum == calc_checksum:
        version = ord(d[:1])
        return d[1:-4], version

    else:
        raise ValueError("Invalid address checksum")""", """    body, chk = d[:-4], d[-4:]
    if _addr_checksum(body) != chk:
        raise ValueError("Invalid address checksum")
    return body[1:], body[0]


def _addr_checksum(body):
    return cn_fast_hash(body)[:4]"""))
ref("c18-kinds", (A, """    return ver in [
        MainNet.PUBLIC_INTEGRATED_ADDRESS_BASE58_PREFIX,
        TestNet.PUBLIC_INTEGRATED_ADDRESS_BASE58_PREFIX,
        StageNet.PUBLIC_INTEGRATED_ADDRESS_BASE58_PREFIX,
    ]""", """    for net in (MainNet, TestNet, StageNet):
        if net.PUBLIC_INTEGRATED_ADDRESS_BASE58_PREFIX == ver:
            return True
    return False"""))
ref("c18-length", (A, """        if len(data) != (72 if self.is_integrated else 64):
            raise ValueError("Invalid address length")
""", """        expected = 64
        if self.is_integrated:
            expected += 8
        if not len(data) == expected:
            raise ValueError("Invalid address length")
"""))
ref("c18-bytes", (B, """    res = [0] * size
    if size < 1 or size > 8:
        return "Invalid input length"

    twopow8 = 2 ** 8
    for i in range(size - 1, -1, -1):
        res[i] = num % twopow8
        num = num // twopow8

    return res""", """    if not 1 <= size <= 8:
        return "Invalid input length"
    return [(num >> (8 * (size - 1 - i))) & 0xff for i in range(size)]"""))
ref("c18-be", (B, """    res = 0
    switch = 9 - l_data
    for i in range(l_data):
        if switch == 1:
            res = res << 8 | data[i]
        elif switch == 2:
            res = res << 8 | data[i]
        elif switch == 3:
            res = res << 8 | data[i]
        elif switch == 4:
            res = res << 8 | data[i]
        elif switch == 5:
            res = res << 8 | data[i]
        elif switch == 6:
            res = res << 8 | data[i]
        elif switch == 7:
            res = res << 8 | data[i]
        elif switch == 8:
            res = res << 8 | data[i]
        else:
            return "Impossible condition"
    return res""", """    res = 0
    for byte in data:
        res = (res << 8) | byte
    return res"""))
ref("c18-digits", (B, """    num = _uint8be_to_64(data)
    i = __encodedBlockSizes[l_data] - 1

    while num > 0:
        remainder = num % __b58base
        num = num // __b58base
        buf[index + i] = __alphabet[remainder]
        i -= 1
""", """    num = _uint8be_to_64(data)
    pos = index + __encodedBlockSizes[l_data]

    while num != 0:
        num, remainder = divmod(num, __b58base)
        pos -= 1
        buf[pos] = __alphabet[remainder]
"""))
ref("c18-product", (B, """        product = order * digit + res_num
        if product > __UINT64MAX:
            return "Overflow"

        res_num = product
        order = order * __b58base
""", """        res_num += order * digit
        if res_num > __UINT64MAX:
            return "Overflow"
        order *= __b58base
"""))
ref("c18-setaddr", (A, """        self.spend_key = data[0:32]
        self.view_key = data[32:64]
        if self.is_integrated:
            self.payment_id = data[64:]
        else:
            self.payment_id = payment_id
""", """        self.spend_key, self.view_key = data[:32], data[32:64]
        self.payment_id = data[64:] if self.is_integrated else payment_id
"""))
ref("c18-encode", (A, """    buf = spend_pub + view_pub
    if payment_id:
        buf += bytes(payment_id)
    return crypto.xmr_base58_addr_encode_check(ord(version), bytes(buf))""", """    buf = bytearray(spend_pub)
    buf += view_pub
    if payment_id:
        buf += payment_id
    return crypto.xmr_base58_addr_encode_check(version[0], bytes(buf))"""))
ref("c18-chunks", (B, """    for i in range(full_block_count):
        data = decode_block(
            enc[
                (i * __fullEncodedBlockSize) : (
                    i * __fullEncodedBlockSize + __fullEncodedBlockSize
                )
            ],
            data,
            i * __fullBlockSize,
        )
""", """    for i in range(full_block_count):
        start = i * __fullEncodedBlockSize
        data = decode_block(enc[start : start + __fullEncodedBlockSize], data, i * __fullBlockSize)
"""), (B, """            enc[
                (full_block_count * __fullEncodedBlockSize) : (
                    full_block_count * __fullEncodedBlockSize + last_block_size
                )
            ],
""", """            enc[full_block_count * __fullEncodedBlockSize :],
"""))
