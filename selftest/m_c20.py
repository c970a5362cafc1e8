from mutants import bug, ref

W = "monero_glue/xmr/wallet.py"
A = "monero_poc/agent.py"
CH = "monero_glue/xmr/enc/chacha.py"

bug("C20", "version-skip", (W, """    if version != 4:
        raise ValueError("Unsigned transaction v4 is supported only")
""", """    if version < 4:
        raise ValueError("Unsigned transaction v4 is supported only")
"""))
bug("C20", "version-after", (W, """    if version not in [3, 4]:
        raise ValueError("Exported outputs v3, v4 are supported only")
""", """    if version not in [2, 3, 4]:
        raise ValueError("Exported outputs v3, v4 are supported only")
"""))
bug("C20", "magic-short", (W, """    if magic != UNSIGNED_TX_PREFIX[:-1]:""", """    if not UNSIGNED_TX_PREFIX.startswith(magic):"""))
bug("C20", "magic-and", (W, """    if magic != OUTPUTS_PREFIX[:-1]:
        raise ValueError("Invalid file header")
""", """    if magic != OUTPUTS_PREFIX[:-1] and version != 4:
        raise ValueError("Invalid file header")
"""))
bug("C20", "magic-warn", (W, """    if magic != UNSIGNED_TX_PREFIX[:-1]:
        raise ValueError("Invalid file header")
""", """    if magic != UNSIGNED_TX_PREFIX[:-1]:
        logger.error("Invalid file header")
"""))
bug("C20", "unauth", (W, """    tx_uns_ser = chacha.decrypt_xmr(priv_key, data, authenticated=True)""", """    tx_uns_ser = chacha.decrypt_xmr(priv_key, data, authenticated=False)"""))
bug("C20", "unauth-default", (CH, "def decrypt_xmr(priv_key, ciphertext, authenticated=True):", "def decrypt_xmr(priv_key, ciphertext, authenticated=False):"))
bug("C20", "unauth-v3", (W, """    data_dec = chacha.decrypt_xmr(priv_key, data, authenticated=True)""", """    data_dec = chacha.decrypt_xmr(priv_key, data, authenticated=version == 4)"""))
bug("C20", "raw-parse", (W, """    reader = xmrserialize.MemoryReaderWriter(bytearray(data_dec))""", """    reader = xmrserialize.MemoryReaderWriter(bytearray(data))"""))
bug("C20", "writer-unauth", (W, """    data_enc = chacha.encrypt_xmr(priv_view, buff_dec, authenticated=True)""", """    data_enc = chacha.encrypt_xmr(priv_view, buff_dec, authenticated=False)"""))
bug("C20", "writer-magic", (W, """    return SIGNED_TX_PREFIX + ciphertext""", """    return UNSIGNED_TX_PREFIX + ciphertext"""))
bug("C20", "writer-version", (W, 'SIGNED_TX_PREFIX = b"Monero signed tx set\\004"', 'SIGNED_TX_PREFIX = b"Monero signed tx set\\003"'))
bug("C20", "writer-spend", (W, """    data_enc = chacha.encrypt_xmr(priv_view, buff_dec, authenticated=True)""", """    data_enc = chacha.encrypt_xmr(priv_spend, buff_dec, authenticated=True)"""))
bug("C20", "keys-swap", (W, """    buff_dec += crypto.encodepoint(crypto.scalarmult_base(priv_spend))
    buff_dec += crypto.encodepoint(crypto.scalarmult_base(priv_view))
""", """    buff_dec += crypto.encodepoint(crypto.scalarmult_base(priv_view))
    buff_dec += crypto.encodepoint(crypto.scalarmult_base(priv_spend))
"""))
bug("C20", "reader-offset", (W, """    spend_pub = data_dec[:32]
    view_pub = data_dec[32:64]""", """    spend_pub = data_dec[:32]
    view_pub = data_dec[:32]"""))
bug("C20", "owner-or", (A, """        match = exps.m_spend_public_key == crypto.encodepoint(
            self.pub_spend
        ) and exps""", """        match = exps.m_spend_public_key == crypto.encodepoint(
            self.pub_spend
        ) or exps"""))
bug("C20", "owner-continue", (A, """                "Exported outputs from different wallet: %s" % addr.decode("ascii")
            )
            return
""", """                "Exported outputs from different wallet: %s" % addr.decode("ascii")
            )
"""))
bug("C20", "submit-error", (A, """        if isinstance(res, int):
            logger.error("Error")
            return

        print("Transaction has been signed. ")""", """        if isinstance(res, int):
            logger.error("Error")

        print("Transaction has been signed. ")"""))
bug("C20", "submit-quit", (A, """        ask_res = self.ask_proceed_quit("Do you wish to submit (y/n) ? ")
        if ask_res != self.PROCEED_YES:
            return

        params = {"tx_data_hex\"""", """        ask_res = self.ask_proceed_quit("Do you wish to submit (y/n) ? ")
        if ask_res == self.PROCEED_QUIT:
            return

        params = {"tx_data_hex\""""))
ref("c20-startswith", (W, """    if magic != UNSIGNED_TX_PREFIX[:-1]:
        raise ValueError("Invalid file header")
    if version != 4:
        raise ValueError("Unsigned transaction v4 is supported only")
""", """    if magic == UNSIGNED_TX_PREFIX[:-1]:
        if version < 4 or version > 4:
            raise ValueError("Unsigned transaction v4 is supported only")
    else:
        raise ValueError("Invalid file header")
"""))
ref("c20-helper", (W, """async def load_exported_outputs(priv_key, data):""", """def _split(prefix, data):
    n = len(prefix)
    if data[:n - 1] != prefix[:-1]:
        raise ValueError("Invalid file header")
    return int(data[n - 1]), data[n:]


async def load_exported_outputs(priv_key, data):"""), (W, """    magic_len = len(OUTPUTS_PREFIX)
    magic = data[: magic_len - 1]
    version = int(data[magic_len - 1])
    data = data[magic_len:]

    if magic != OUTPUTS_PREFIX[:-1]:
        raise ValueError("Invalid file header")
    if version not in [3, 4]:""", """    version, data = _split(OUTPUTS_PREFIX, data)
    if version != 3 and version != 4:"""))
ref("c20-default", (W, """    tx_uns_ser = chacha.decrypt_xmr(priv_key, data, authenticated=True)""", """    tx_uns_ser = chacha.decrypt_xmr(priv_key, data)"""))
ref("c20-join", (W, """    buff_dec = bytearray()
    buff_dec += crypto.encodepoint(crypto.scalarmult_base(priv_spend))
    buff_dec += crypto.encodepoint(crypto.scalarmult_base(priv_view))
    buff_dec += trans_bin
""", """    spend_pub = crypto.encodepoint(crypto.scalarmult_base(priv_spend))
    view_pub = crypto.encodepoint(crypto.scalarmult_base(priv_view))
    buff_dec = bytes(spend_pub) + bytes(view_pub) + bytes(trans_bin)
"""))
ref("c20-owner", (A, """        match = exps.m_spend_public_key == crypto.encodepoint(
            self.pub_spend
        ) and exps.m_view_public_key == crypto.encodepoint(self.pub_view)
""", """        own_spend, own_view = crypto.encodepoint(self.pub_spend), crypto.encodepoint(self.pub_view)
        match = (own_spend == exps.m_spend_public_key) and (own_view == exps.m_view_public_key)
"""))
