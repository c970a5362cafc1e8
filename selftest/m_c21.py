from mutants import bug, ref

F = "monero_glue/xmr/monero.py"
R = "monero_glue/xmr/ring_ct.py"
E = "monero_glue/xmr/core/ec_py.py"
T = "monero_glue/xmr/transaction_builder.py"

bug("C21", "ret-main-derivation", (F, """                subaddresses[subaddress_spendkey],
                additional_derivations[output_index],
""", """                subaddresses[subaddress_spendkey],
                derivation,
"""))
bug("C21", "add-zero", (F, """            out_key, additional_derivations[output_index], output_index
        )""", """            out_key, additional_derivations[0], output_index
        )"""))
bug("C21", "add-main", (F, """            out_key, additional_derivations[output_index], output_index
        )""", """            out_key, derivation, output_index
        )"""))
bug("C21", "get-default", (F, """    if subaddress_spendkey in subaddresses:
        return subaddresses[subaddress_spendkey], derivation

""", """    if subaddress_spendkey in subaddresses or not additional_derivations:
        return subaddresses.get(subaddress_spendkey, (0, 0)), derivation

"""))
bug("C21", "skip-additional", (F, "    if additional_derivations and len(additional_derivations) > 0:", "    if additional_derivations and len(additional_derivations) > 1:"))
bug("C21", "bounds-return", (F, """            raise ValueError("Wrong number of additional derivations")""", """            return None"""))
bug("C21", "no-compare", (F, """    if not crypto.point_eq(pub_ver, out_key):""", """    if received_index == (0, 0) and not crypto.point_eq(pub_ver, out_key):"""))
bug("C21", "no-compare-msig", (F, """    if not crypto.point_eq(pub_ver, out_key):""", """    if not ack.multisig_keys and not crypto.point_eq(pub_ver, out_key):"""))
bug("C21", "compare-self", (F, """    if not crypto.point_eq(pub_ver, out_key):""", """    if not crypto.point_eq(pub_ver, pub_ver):"""))
bug("C21", "watch", (F, """    if not crypto.sc_isnonzero(ack.spend_key_private):
        raise ValueError("Watch-only wallet not supported")
""", ""))
bug("C21", "swap-index", (F, """            ack.view_key_private, major=received_index[0], minor=received_index[1]""", """            ack.view_key_private, major=received_index[1], minor=received_index[0]"""))
bug("C21", "ki-step1", (F, """    ki = generate_key_image(crypto.encodepoint(pub_ver), scalar_step2)""", """    ki = generate_key_image(crypto.encodepoint(pub_ver), scalar_step1)"""))
bug("C21", "subindex-minor", (F, """    if received_index == (0, 0):
        scalar_step2 = scalar_step1""", """    if received_index[1] == 0:
        scalar_step2 = scalar_step1"""))
bug("C21", "msig-sub", (F, """        if received_index != (0, 0):
            subaddr_pk""", """        if received_index[0] != 0:
            subaddr_pk"""))
bug("C21", "none-pass", (F, """    if subaddr_recv_info is None:
        raise XmrNoSuchAddressException()

    xi, ki = generate_key_image_helper_precomp(
        creds, out_key, subaddr_recv_info[1], real_output_index, subaddr_recv_info[0]
    )
    return xi, ki, recv_derivation
""", """    if subaddr_recv_info is None:
        subaddr_recv_info = (0, 0), recv_derivation

    xi, ki = generate_key_image_helper_precomp(
        creds, out_key, subaddr_recv_info[1], real_output_index, subaddr_recv_info[0]
    )
    return xi, ki, recv_derivation
"""))
bug("C21", "wrong-derivation", (F, """        creds, out_key, subaddr_recv_info[1], real_output_index, subaddr_recv_info[0]""", """        creds, out_key, recv_derivation, real_output_index, subaddr_recv_info[0]"""))
bug("C21", "spend-derivation", (F, """            crypto.generate_key_derivation(add_pub_key, creds.view_key_private)""", """            crypto.generate_key_derivation(add_pub_key, creds.spend_key_private)"""))
bug("C21", "table-swap", (F, """            creds.view_key_private, creds.spend_key_public, major=account, minor=idx""", """            creds.view_key_private, creds.spend_key_public, major=idx, minor=account"""))
bug("C21", "table-zero", (F, """        if account == 0 and idx == 0:
            subaddresses""", """        if idx == 0:
            subaddresses"""))
bug("C21", "scan-main", (F, """            creds, out_dec, tx_scan_info.received[1], i, tx_scan_info.received[0]""", """            creds, out_dec, tx_scan_info.received[1], i, (0, 0)"""))
bug("C21", "scan-credit", (F, """    if tx_scan_info.received:
        tx_scan_info.money""", """    if tx_scan_info.received or tx_out.amount:
        tx_scan_info.money"""))
bug("C21", "ecdh-nocheck", (F, """    if not crypto.point_eq(c_tmp, crypto.decodepoint(rv.outPk[i].mask)):""", """    if not v2 and not crypto.point_eq(c_tmp, crypto.decodepoint(rv.outPk[i].mask)):"""))
bug("C21", "ecdh-mask0", (F, """crypto.decodepoint(rv.outPk[i].mask)):""", """crypto.decodepoint(rv.outPk[0].mask)):"""))
bug("C21", "export-main", (R, """        creds, subaddresses, pkey, tx_pub_key, additional_tx_pub_keys, out_idx
    )""", """        creds, subaddresses, pkey, tx_pub_key, [], out_idx
    )"""))
bug("C21", "dsk-sub", (E, """    return sc_add(base, scalar)""", """    return sc_sub(base, scalar)"""))
bug("C21", "subkey-swap", (E, """encodeint(secret_key), major, minor
""", """encodeint(secret_key), minor, major
"""))
bug("C21", "ex-none", (T, """        raise XmrNoSuchAddressException()

    xi, ki = generate_key_image_helper_precomp(
        creds, out_key, subaddr_recv_info[1], real""", """        subaddr_recv_info = ((0, 0), recv_derivation)

    xi, ki = generate_key_image_helper_precomp(
        creds, out_key, subaddr_recv_info[1], real"""))
bug("C21", "sub-secret", (F, """    if major == 0 and minor == 0:
        return secret_key

    return crypto""", """    if major == 0 or minor == 0:
        return secret_key

    return crypto"""))

ref("c21-get", (F, """    if subaddress_spendkey in subaddresses:
        return subaddresses[subaddress_spendkey], derivation

""", """    mine = subaddresses.get(subaddress_spendkey)
    if mine is not None:
        return mine, derivation

"""))
ref("c21-loop", (F, """    additional_recv_derivations = []
    for add_pub_key in additional_tx_public_keys:
        additional_recv_derivations.append(
            crypto.generate_key_derivation(add_pub_key, creds.view_key_private)
        )
""", """    additional_recv_derivations = [
        crypto.generate_key_derivation(k, creds.view_key_private) for k in additional_tx_public_keys
    ]
"""))
ref("c21-helper", (F, """    if subaddress_spendkey in subaddresses:
        return subaddresses[subaddress_spendkey], derivation

    if additional_derivations and len(additional_derivations) > 0:
        if output_index >= len(additional_derivations):
            raise ValueError("Wrong number of additional derivations")

        subaddress_spendkey = derive_subaddress_public_key(
            out_key, additional_derivations[output_index], output_index
        )
        subaddress_spendkey = crypto.encodepoint(subaddress_spendkey)
        if subaddress_spendkey in subaddresses:
            return (
                subaddresses[subaddress_spendkey],
                additional_derivations[output_index],
            )

    return None
""", """    if subaddress_spendkey in subaddresses:
        return subaddresses[subaddress_spendkey], derivation

    if not additional_derivations:
        return None

    if output_index >= len(additional_derivations):
        raise ValueError("Wrong number of additional derivations")

    own = additional_derivations[output_index]
    key = crypto.encodepoint(derive_subaddress_public_key(out_key, own, output_index))
    if key not in subaddresses:
        return None
    return subaddresses[key], own
"""))
ref("c21-eqorder", (F, """    if not crypto.point_eq(pub_ver, out_key):
        raise ValueError(
            "key image helper precomp: given output pubkey doesn't match the derived one"
        )

    ki = generate_key_image(crypto.encodepoint(pub_ver), scalar_step2)
    return scalar_step2, ki
""", """    if crypto.point_eq(out_key, pub_ver):
        hp = crypto.hash_to_point(crypto.encodepoint(out_key))
        return scalar_step2, crypto.scalarmult(hp, scalar_step2)
    raise ValueError("output key mismatch")
"""))
ref("c21-sum", (F, """        subaddr_sk = get_subaddress_secret_key(
            ack.view_key_private, major=received_index[0], minor=received_index[1]
        )
        scalar_step2 = crypto.sc_add(scalar_step1, subaddr_sk)
""", """        major, minor = received_index
        subaddr_sk = get_subaddress_secret_key(ack.view_key_private, None, major, minor)
        scalar_step2 = crypto.sc_add(subaddr_sk, scalar_step1)
"""))
ref("c21-table", (F, """        if account == 0 and idx == 0:
            subaddresses[crypto.encodepoint(creds.spend_key_public)] = (0, 0)
            continue

        pub = get""", """        pub = get"""))
