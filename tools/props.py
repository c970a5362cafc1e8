"""Single source of properties.jsonl and MANIFEST.json."""
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, technique="", note="", na=None):
    PROPS.append({
        "id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
        "technique": technique, "level_note": note, "na": na})


B = "monero_glue/protocol/tsx_sign_builder.py"

P("C01", "Device signing steps are accepted only in protocol order",
  "The signing device completes a protocol step only in the prescribed order - init, one message per declared input, permutation, one per input again, "
  "all-inputs, one per declared output, all-outputs, one signature per input, final - and refuses any other message, any message after the end, after a "
  "rejection or after a failure. Input and output counters advance by exactly one per completed step and never exceed the counts declared at the start.",
  ["histories", "inputs"], "every sequence of host messages, of any length, with any field values",
  "Tests drive the agent, which only ever sends messages in the right order; no test sends an out-of-order, repeated or surplus message.",
  [B, "monero_glue/protocol/tsx_sign_state.py", "monero_glue/protocol/tsx_sign.py"],
  [("protocol automaton", "tsx_sign_state.py TState"), ("builder steps", "tsx_sign_builder.py TTransactionBuilder"), ("message dispatch", "tsx_sign.py TsxSigner.sign")],
  "typestate extraction - abstract interpretation of every builder step from every protocol state, product with the specified automaton",
  "Exact for the state machine and the counter conditions; Python semantics modelled by the interpreter in lib/engine.py are trusted, as is that an exception ends the session (C09).")

P("C02", "Data the host stores for the device is authenticated before it is used",
  "Whatever the device hands to the host and later takes back - inputs, destinations, input commitments, blinding factors and spend keys - is used only after its "
  "tag or seal was verified against the value the device issued for exactly that item at exactly that position in the same session. Altered, swapped, replayed or reordered data is rejected.",
  ["inputs", "histories"], "every item, position and host behaviour within a signing session",
  "Tests run an honest host: no test tampers with, swaps or replays stored items between messages.",
  [B], [("tag and seal issue", "tsx_sign_builder.py set_input/init_transaction"), ("tag and seal checks", "tsx_sign_builder.py input_vini/set_output/sign_input")],
  "provenance dataflow - interprocedural value numbering; issued tag term = verified tag term under index substitution, verification fact dominates every use",
  "Decides that the check happens, over the same data, index and key as issued; the strength of HMAC and AEAD is assumed (AEAD: C24).")

P("C03", "Session keys are unique per purpose and item and bound to fresh randomness",
  "Every key under which the device authenticates or encrypts data for the host is different for different kinds of data and different item positions, and MAC and encryption secrets differ. "
  "Both session secrets are derived from fresh device randomness together with the transaction data and transaction key, and never change during a session.",
  ["inputs", "histories"], "every purpose, item index and session",
  "Key reuse is invisible to functional tests: everything still verifies when two purposes or two items share a key.",
  [B], [("key derivation", "tsx_sign_builder.py _build_key, *_key_*"), ("session secrets", "tsx_sign_builder.py compute_sec_keys")],
  "provenance dataflow for key/purpose/index triples, constant propagation of the derivation over purposes x indices, must-depend analysis of the session secrets",
  "Distinctness over indices is decided on 0..299 and around powers of two up to 2^20; hash collision resistance assumed.")

P("C04", "Nothing is signed, exported or confirmed for the host without user consent",
  "The device asks its user before it starts processing a transaction, before key images are computed and before the private view key is exported, and it asks with the very data it then processes. "
  "When the user refuses, the device returns a failure, releases no data and processes nothing further in that session.",
  ["inputs", "histories"], "every request and every user answer", "Test users always confirm, so a missing or ignored confirmation is not noticed.",
  [B, "monero_glue/hwtoken/token.py", "monero_glue/protocol/key_image_sync.py", "monero_poc/trezor.py"],
  [("transaction confirmation", "tsx_sign_builder.py init_transaction"), ("view key confirmation", "hwtoken/token.py"), ("key image sync confirmation", "protocol/key_image_sync.py")],
  "must-precede analysis - confirmation fact dominates every use of secrets or of the request in the interpreted paths; refusal paths return failure without effects",
  "The terminal itself is outside; that the emulated device displays every destination and the fee is decided.")

P("C05", "Change, amounts, fee and counts are checked before anything can be signed",
  "Before the device produces the hash that is signed it has verified that the change goes to the account's own address, that the fee equals inputs minus outputs, that outputs do not exceed inputs, "
  "and that exactly the declared number of inputs and outputs was processed, each declared input once. Any mismatch aborts the session.",
  ["inputs"], "every transaction request and every sequence of source and destination entries",
  "Tests sign well-formed transactions; the refusing branches are never taken.",
  [B, "monero_glue/xmr/sub/addr.py"], [("change check", "tsx_sign_builder.py check_change"), ("balance check", "tsx_sign_builder.py all_out1_set"), ("amount accumulation", "tsx_sign_builder.py set_input/set_output")],
  "must-pass-through analysis with linear-arithmetic facts on every path to the signed hash; accumulation terms checked for exactly-once counting",
  "")

P("C06", "An input is signed only with matching keys and balanced commitments",
  "A ring signature is produced only after the device verified that the spend key opens the real ring member's key, that the claimed mask and amount open the real member's commitment, and that "
  "input and output blinding factors balance. The input commitment returned and used in the signature commits to the authenticated amount of that same input.",
  ["inputs"], "every input, permutation, amount and mask",
  "With honest data the checks always hold, so their removal or a wrong operand is invisible to tests.",
  [B], [("private key correctness test", "tsx_sign_builder.py sign_input"), ("mask balancing", "tsx_sign_builder.py sign_input/_compute_masks/_gen_commitment")],
  "must-precede analysis on the value-numbered arguments of the signing call",
  "Arithmetic of the curve backend is assumed (C15).")

P("C07", "Every range proof supplied by the host is verified before it is accepted",
  "A range proof computed by the host enters the signed message only if the device verified it, with a verdict that stops the session on failure, against commitments to the device's own amounts and masks "
  "for every output of the batch. A missing or out-of-order proof is never accepted in place of the expected one, and the final batch cannot be skipped.",
  ["inputs", "histories"], "every grouping of outputs, offloading mode and host-supplied proof",
  "Tests only provide valid proofs in the right place.",
  [B, "monero_glue/xmr/ring_ct.py", "monero_glue/xmr/bulletproof.py"], [("proof handling", "tsx_sign_builder.py _s6_range_proof/_s6_rsig_process_bp"), ("verification", "ring_ct.py verify_bp")],
  "must-precede and value-flow analysis of the proof object through hashing, verification and state cleanup, over all offloading modes",
  "Soundness of the proof system is assumed; the verifier's structure is C14.")

P("C08", "What is signed covers the whole transaction in the consensus order",
  "The transaction prefix hash covers version, unlock time, all inputs, all outputs with their count, and the extra field, each exactly once in the network's order; the signed message covers that hash, type, fee, "
  "every encrypted amount, every output commitment and every range proof. Both the incremental and the one-shot computation agree on this composition.",
  ["inputs"], "every transaction shape", "A dropped or reordered item goes unnoticed when device and test verifier share the same code or for shapes not tested.",
  [B, "monero_glue/xmr/sub/mlsag_hasher.py", "monero_glue/xmr/monero.py"], [("prefix hashing", "tsx_sign_builder.py"), ("message hashing", "sub/mlsag_hasher.py PreMlsagHasher"), ("one-shot hashing", "monero.py get_pre_mlsag_hash")],
  "effect-sequence analysis - ordered hasher events per protocol step compared with the specified layout; hasher typestate", "")

P("C09", "Any error ends the signing session and leaves no usable state",
  "Whenever a signing step fails - bad data, wrong state, internal error or user refusal - the device discards the session object together with any saved session, reports a failure to the host, "
  "and accepts no further step until a new transaction is started.",
  ["histories", "fault_sequences"], "every failing step, exception type and point of failure", "Tests exercise successful sessions; exception paths are hardly run.",
  ["monero_glue/protocol/tsx_sign.py", "monero_glue/hwtoken/token.py"], [("step wrappers", "protocol/tsx_sign.py TsxSigner"), ("session state", "hwtoken/token.py TokenLite.tsx_sign")],
  "exception-path analysis - every raising path of every step wrapper passes the purge, interprocedurally up to the token interface", "")

P("C10", "Secrets leave the device only encrypted or as specified public values",
  "No message to the host contains the private spend key, a one-time spend key, a transaction private key, a session secret or an input blinding factor except sealed by authenticated encryption; "
  "private material other than the explicitly confirmed view key never appears in responses.",
  ["inputs", "histories"], "every response message in every mode", "Leaks do not change functional behaviour.",
  [B, "monero_glue/protocol/key_image_sync.py", "monero_glue/hwtoken/token.py"], [("responses", "tsx_sign_builder.py"), ("key image export", "protocol/key_image_sync.py")],
  "information-flow (taint) analysis from secret sources to response fields with declassification only through the listed one-way or encrypting primitives", "")

P("C11", "Key images are computed only for own outputs and are returned encrypted",
  "Key image synchronisation answers only after the user's consent, only in the order announced, and only if the outputs supplied hash to the committed value; every image and its ownership signature "
  "are encrypted under a fresh session key, which is released only after all announced outputs were processed and matched.",
  ["histories", "inputs"], "every sequence of sync messages and every list of outputs",
  "Tests synchronise an honest list once.", ["monero_glue/protocol/key_image_sync.py"], [("sync protocol", "protocol/key_image_sync.py KeyImageSync")],
  "typestate and must-precede analysis of the sync steps", "")

P("C12", "Secrets and nonces come from the system's secure randomness, fresh for each use",
  "Transaction keys, blinding factors, signature nonces, proof blinders, session keys, salts, generated passwords and encryption nonces are drawn from the operating system's cryptographic generator at each use; "
  "none is constant, derived from predictable state, reused across signatures or drawn from a statistical generator.",
  ["inputs", "schedules", "histories"], "every secret generated anywhere in the system",
  "Predictable secrets verify exactly like random ones.", ["monero_glue/xmr/crypto.py", "monero_glue/xmr/core/ec_py.py", "monero_glue/xmr/mlsag2.py", "monero_glue/xmr/bulletproof.py", "monero_glue/xmr/enc/chacha_poly.py"],
  [("random scalars", "core/ec_py.py random_scalar"), ("signature nonces", "mlsag2.py"), ("proof blinders", "bulletproof.py")],
  "source analysis - backward dataflow from every secret-consuming site to its generator; call-graph rule on generators", "")

P("C13", "Ring signatures bind message, ring, key images and all responses",
  "The signature challenge chain hashes the message, every ring member's key and commitment difference, the key image and each round's commitments in the same order in prover and verifier, verification "
  "recomputes every round from the supplied values, closes the ring and rejects wrong sizes, and plain one-key signatures also reject values not fully reduced. "
  "Every response of a signature is masked by its own fresh random value.",
  ["inputs"], "every ring size, position, message and supplied signature", "Round-trip tests pass when prover and verifier omit the same item.",
  ["monero_glue/xmr/mlsag2.py"], [("MLSAG/CLSAG prover and verifier", "mlsag2.py")],
  "symbolic-polynomial equivalence of each verifier's accept condition (by dataflow over its source) with a reference verifier; prover output composed with the reference equations must cancel identically; must-check rules; nonce dependence analysis", "Group arithmetic assumed (C15); composition of prover and equations is unrolled for bounded ring sizes, the verifier comparison holds for all.")

P("C14", "The range proof verifier checks everything it is given",
  "The range proof verifier accepts a proof, or a batch of proofs, only if the published bulletproof equations hold, where every element and commitment enters with its published coefficient, every "
  "challenge is the hash of all that precedes it in the published order, and the equations are combined with fresh independent random weights. It refuses unreduced scalars, zero challenges and vectors "
  "whose lengths do not fit the number of commitments. A proof checked against known amounts and masks is verified over the commitments to exactly these, and the caller gets the verifier's verdict.",
  ["inputs"], "every supplied proof: symbolic elements, 1 to 32 commitments, batches of up to four", "A verifier that ignores an element still accepts all valid proofs.",
  ["monero_glue/xmr/bulletproof.py", "monero_glue/xmr/ring_ct.py"], [("verifier", "bulletproof.py verify_batch"), ("known amounts", "ring_ct.py verify_bp")],
  "abstract interpretation of the verifier over a polynomial and point algebra; coefficients compared with the published equations", "Completeness and soundness of the published protocol itself are assumed.")

P("C15", "Both elliptic-curve backends compute the published functions",
  "In the pure-Python and in the native curve backend every operation gives the published function of its operands, reduced; the in-place variant stores and returns the same, whatever register is its "
  "target, and no operation changes another operand. Decoding reads exactly 32 bytes, reduces scalars and refuses short input, hashes cover exactly the bytes asked for, and key derivations refuse "
  "scalars that are zero or unreduced and points off the curve. Both backends define what the code uses with the same parameters, the configured one is used, and a Schnorr signature is accepted only for "
  "its data, key and reduced scalars.",
  ["configurations", "inputs"], "every exported operation over symbolic operands, for either backend, every coincidence of target and operand", "Tests use few values and never a target that is an operand.",
  ["monero_glue/xmr/core/ec_py.py", "monero_glue/xmr/core/ec_trezor.py", "monero_glue/xmr/core/ec.py", "monero_glue/xmr/core/ec_picker.py", "monero_glue/xmr/crypto.py"],
  [("backends", "core/ec_py.py, core/ec_trezor.py"), ("selection", "core/ec.py, core/ec_picker.py"), ("facade", "xmr/crypto.py")],
  "abstract interpretation of both backends over a polynomial, point and byte-string algebra", "The curve and field formulas below ec_py and the native library are given their published meaning.")

P("C16", "Every output can be found, decoded and spent exactly by its recipient",
  "The one-time key of every output is derived from the confirmed address, its position and the transaction key published for it, so that its recipient - standard address, subaddress or the account itself - derives the same key, "
  "amount and commitment mask from the published transaction and its own keys alone. The extra field carries the transaction key, the additional keys of all outputs in order when they are needed, and the payment id, a short one encrypted for its single "
  "recipient and refused for several. The transaction private keys sealed for later are, in order, those of the published keys.",
  ["inputs"], "every arrangement of destinations, payment id, output format version and account",
  "Tests sign a few fixed destination lists and never read the transaction with the recipients' keys.",
  [B, "monero_glue/xmr/sub/tsx_helper.py", "monero_glue/xmr/sub/addr.py", "monero_glue/xmr/ring_ct.py", "monero_glue/xmr/monero.py"],
  [("output keys", "tsx_sign_builder.py set_output"), ("address classification", "sub/addr.py classify_subaddresses"), ("payment id", "sub/tsx_helper.py encrypt_payment_id"), ("amount decoding", "ring_ct.py ecdh_encdec")],
  "abstract interpretation of the builder steps over symbolic scalars, points and byte strings; the published bytes are compared with the recipient's derivation as polynomial identities",
  "Arrangements of up to 3 outputs (thorough: 4, both backends) over two standard addresses, two subaddresses and the change; keys, secrets and draws are symbolic. Range proofs, hashers, protocol state and sealing are replaced by their contracts (C14, C08, C01, C24).")

P("C17", "Wire messages are unambiguous and survive encoding, decoding and conversion",
  "Every message type has exactly one wire number and one class, fields have the published numbers and types, and each is matched by an attribute of the message; every signing and key image request "
  "is answered by a handler of its own. Encoding writes each set field as key, length and payload, and decoding stores exactly that payload: truncated or mistyped input is refused, never padded or "
  "guessed. Conversion to another message package and translation of transaction entries keep every field, nested messages included.",
  ["programs", "inputs"], "every message class and field; every number of up to ten bytes; every path of the codec", "Tests exercise the messages of one flow with small values.",
  ["monero_glue/protobuf.py", "monero_glue/messages", "monero_glue/protocol/tsx_sign.py", "monero_glue/protocol_base/messages.py", "monero_glue/hwtoken/misc.py"],
  [("message classes", "monero_glue/messages"), ("codec", "protobuf.py"), ("conversion", "protocol_base/messages.py")],
  "abstract interpretation of codec and message tables: exhaustiveness, must-check and value agreement", "")

P("C18", "Addresses are decoded only with valid checksum, length and known network",
  "Decoding an address succeeds only when the checksum over all preceding bytes matches, its network prefix is known, and its length fits its kind; the decoded network, kind, keys and payment id "
  "are taken from the positions where encoding writes them. Base58 blocks of impossible size or overflowing value are refused.",
  ["inputs"], "every string offered as address", "Tests decode a few valid addresses.",
  ["monero_glue/xmr/monero.py", "monero_glue/misc/b58_mnr.py", "monero_glue/xmr/sub/addr.py", "monero_glue/xmr/core/base58.py"], [("address codec", "sub/addr.py"), ("base58", "misc/b58_mnr.py")],
  "must-check dataflow on the decoder; encoder/decoder layout agreement", "Round-trip equality itself is not decided.")

P("C19", "A completed signing session yields a transaction the network accepts",
  "An honest session is carried to its end for any number and order of inputs, address kind, position of the real ring member and protocol version. In the transaction put together from the answers, every ring signature verifies over the published ring, "
  "key image, pseudo output and message hash, key images are those of the spent keys, and inputs refer to exactly the rings given. The pseudo outputs sum to the outputs plus the fee.",
  ["inputs"], "every arrangement of inputs, ring positions, outputs, protocol versions and accounts",
  "Tests sign two fixed transactions; a mistake for one position of the real member, one order of inputs or one kind of address stays invisible.",
  [B, "monero_glue/xmr/mlsag2.py", "monero_glue/xmr/monero.py", "monero_glue/xmr/crypto.py", "monero_glue/xmr/sub/recode.py", "monero_glue/xmr/sub/tsx_helper.py"],
  [("input steps", "tsx_sign_builder.py set_input, sign_input"), ("ring signatures", "mlsag2.py prove_rct_mg_simple, gen_mlsag_ext"), ("key images", "monero.py generate_key_image_helper")],
  "abstract interpretation of the whole session over symbolic scalars, points and byte strings; an independent verifier decides the ring equations and the balance as polynomial identities",
  "Up to 3 inputs (thorough: 4, both backends), rings of 2 and 3, up to 4 outputs; amounts are fixed numbers, keys, masks and draws symbolic. Hashers, protocol state, range proofs and sealing are replaced by their contracts (C08, C01, C14, C24).")

P("C20", "Wallet exchange files are authenticated and version-checked before use",
  "Files with unsigned transactions and exported outputs are accepted only with the right magic and a supported version, and are decrypted and parsed only after authentication; they and signed sets are "
  "written with the header the reader expects, encrypted and authenticated. The host agent exports key images only for an export of this very wallet, and submits a transfer only when it was signed and confirmed.",
  ["inputs"], "every file content", "Tests read valid files.",
  ["monero_glue/xmr/wallet.py", "monero_glue/xmr/enc/chacha.py"], [("file codecs", "wallet.py"), ("authenticated decryption", "wallet.py decrypt_xmr")],
  "must-check and must-precede dataflow per file type on the interpreted paths; reader/writer agreement", "")

P("C21", "An output is attributed to the wallet only after recomputation",
  "Recognising an output as belonging to the wallet, spending it or computing its key image always recomputes the one-time public key from the derived secret and compares it with the output's key, trying the main and "
  "additional transaction keys and only known subaddresses; a mismatch is an error, never a silent success.",
  ["inputs"], "every output, subaddress and transaction key", "Tests scan outputs that belong to the wallet.",
  ["monero_glue/xmr/monero.py"], [("subaddress recovery", "monero.py is_out_to_account"), ("key image helper", "monero.py generate_key_image_helper")],
  "must-check dataflow", "")

P("C22", "A signing session can be suspended and resumed at any step without change",
  "The saved form of a signing session contains every attribute that any later step reads, and restoring it rebuilds each one with the same value, including the protocol state and all running hashes.",
  ["crash_points", "histories"], "every step boundary at which the device state is saved and restored", "Only a few boundaries and modes are tested.",
  [B, "monero_glue/protocol/tsx_sign_state_holder.py", "monero_glue/protocol/tsx_sign.py", "monero_glue/xmr/sub/mlsag_hasher.py"],
  [("save/restore", "tsx_sign_builder.py state_save/state_load"), ("hasher state", "mlsag_hasher.py")],
  "def-use completeness of save/restore pairs over the interpreted steps", "")

P("C23", "The host agent never reports success on unverified device answers",
  "The host checks every device response for a reported failure before it reads a field of it, sends the next message or returns. Before it requests signatures it compares the prefix hash, the signed message, the fee and the "
  "full message hash named by the device with its own, computed over the very transaction it returns, and it keeps a range proof or live key image made by the device only after verifying it; missing or surplus key images, masks or keys end the operation. "
  "The command line wallet submits only what a successful signing returned and refuses a device whose address is not the wallet's.",
  ["histories", "inputs", "fault_sequences"], "every device response", "Tests use a well-behaved device.",
  ["monero_glue/agent/agent_lite.py", "monero_glue/agent/agent_misc.py", "monero_poc/agent.py"], [("agent steps", "agent/agent_lite.py"), ("command line wallet", "monero_poc/agent.py")],
  "must-check dataflow over the agent's exchange steps, helpers in line, all paths",
  "Ring signatures returned by the device are not verified by the host (the network does); the bulk key image sync leaves signature verification to the wallet that imports them. Message kinds are not checked beyond failures.")

P("C24", "Authenticated decryption never yields data before the tag was verified",
  "Every authenticated decryption verifies the complete tag over ciphertext and associated data before any plaintext is returned, fails on mismatch or short input, and uses the nonce stored with the data; "
  "every encryption uses a fresh random nonce and returns the full tag with the data.",
  ["inputs"], "every ciphertext, key and associated data", "Tests decrypt untampered data.",
  ["monero_glue/xmr/enc/chacha_poly.py", "monero_glue/xmr/enc/chacha.py", "monero_glue/xmr/wallet.py", "monero_poc/utils/misc.py"], [("AEAD", "enc/chacha_poly.py"), ("file encryption", "wallet.py")],
  "must-precede dataflow inside the primitives; pack/unpack layout agreement", "The cipher libraries are trusted.")

P("C25", "The host assembles exactly the transaction the device signed",
  "For any number of inputs and order of their key images, any number of outputs and range proof grouping, and every protocol version, the host carries a session with an honest device to its end. In the transaction it returns, inputs are sorted by key image, "
  "the ring signature and pseudo output at each position belong to the input there, outputs, keys, encrypted amounts and extra field are the device's, and every output is covered by one range proof. The sealed transaction keys are kept as returned.",
  ["inputs", "histories"], "every arrangement of inputs and outputs, order of key images, protocol version", "Tests sign two fixed transactions whose inputs come in one order.",
  ["monero_glue/agent/agent_lite.py", "monero_glue/hwtoken/misc.py", "monero_glue/protocol/tsx_sign.py", B],
  [("assembly", "agent_lite.py Agent.sign_transaction_data"), ("range proof batches", "agent_lite.py _rct_offload, generate_rsig_batch_sizes"), ("translation", "hwtoken/misc.py translate_monero_src_entry_pb")],
  "abstract interpretation of host and device against each other over symbolic scalars, points and byte strings; the assembled transaction is compared part by part and verified as polynomial identities",
  "Up to 4 inputs, rings of 2 and 3, 2 to 19 outputs (thorough: 33, both backends), protocol versions 9 and 10 with both client versions. Hashers, protocol state, sealing and the proofs themselves are replaced by their contracts (C08, C23, C01, C24, C14).")

P("C26", "Every signature this code makes verifies, and altered ones do not",
  "For every position of the true key, ring size, number of inputs and outputs and amount, the single-key, key-image, full and concise ring signatures and the bit-wise range proofs produced satisfy their published verification equations and the verifiers here accept them. "
  "A range proof's commitment is that to the proven amount under the returned mask, which is the requested one if given. After any change of message, key, commitment, challenge or response the single-key, key-image and range proof verifiers refuse.",
  ["inputs"], "every position, size, amount and key", "Tests sign at a few positions with fixed keys, and no test alters a signature.",
  ["monero_glue/xmr/mlsag2.py", "monero_glue/xmr/ring_ct.py", "monero_glue/xmr/crypto.py"],
  [("single key", "crypto.py generate_signature, check_signature"), ("key images", "ring_ct.py generate_ring_signature, check_ring_singature"), ("full and concise rings", "mlsag2.py prove_rct_mg, generate_clsag_simple"), ("range proofs", "ring_ct.py prove_range_*, mlsag2.py ver_borromean")],
  "abstract interpretation of the signers over symbolic scalars, points and byte strings; signatures are substituted into the published equations and compared as polynomials, and given to the repository's verifiers, unchanged and altered",
  "Rings up to 3 (thorough 6), up to 2 inputs (3) and 3 outputs, chosen amounts; keys and nonces are symbolic, so each case holds for all of them. Group arithmetic and hashing are replaced by their contracts (C15, N01).")

P("C27", "Wallet keys, addresses and received outputs are those Monero defines",
  "For every seed, network, subaddress index and payment id, the keys, subaddresses and addresses derived are the ones Monero defines, and an address decodes to the parts it was made of. "
  "For every output sent to the account or a subaddress, with a shared or an own transaction key, the wallet code derives the private key that opens it and its key image; foreign outputs give none. Encoded amounts decode to the amount and mask sent, and one that does not open its commitment is refused.",
  ["inputs"], "every seed, key, network, index, payment id and output position", "Tests use fixed vectors of a few wallets.",
  ["monero_glue/xmr/monero.py", "monero_glue/xmr/sub/seed.py", "monero_glue/xmr/sub/addr.py", "monero_glue/xmr/sub/creds.py", "monero_glue/xmr/ring_ct.py"],
  [("keys of a seed", "monero.py generate_monero_keys; sub/seed.py"), ("subaddresses", "monero.py generate_sub_address_keys, compute_subaddresses"), ("addresses", "monero.py build_address_info; sub/addr.py"), ("spending keys", "monero.py generate_key_image_helper"), ("amounts", "monero.py scan_output; ring_ct.py ecdh_encdec")],
  "abstract interpretation over symbolic seeds, keys and byte strings; results are compared, as polynomials, formal points and byte strings, with the published definitions written in the rule",
  "Chosen indices (up to 2^32-1) and output positions; base58, BIP-32 and BIP-39 steps, hashing and the backends are replaced by their contracts (C15, C18, N01, N02).")

P("C28", "A recovery phrase restores its seed, and a mistyped one is refused",
  "For every seed, the phrase made from it is the published one and restores exactly that seed and its keys, with or without the checksum word. A phrase whose checksum word does not match the other words, "
  "with an unknown word, a wrong number of words, or words that encode no number of 32 bits is refused instead of opening another wallet.",
  ["inputs"], "every seed, phrase and mistake", "No test decodes a phrase.",
  ["monero_glue/xmr/core/mnemonic.py", "monero_glue/xmr/sub/seed.py"],
  [("word coding", "core/mnemonic.py mn_encode, mn_decode"), ("checksum", "core/mnemonic.py checksum_create, checksum_test"), ("restoring", "sub/seed.py SeedDerivation.from_monero_mnemonics")],
  "abstract interpretation of encoder and decoder over symbolic seed bytes; numbers are linear forms with a normal form for division by the size of the word list, so that decoding after encoding is an identity of forms; mistakes are changed symbolic words; word list compared with the published one",
  "Phrases of 12 and 24 words (thorough: also 3 and 6), five of the 24 values of the checksum (thorough: all); CRC-32 is a free function of its input.")

P("C29", "Keys derived from a master seed are those BIP-32 and SLIP-10 define",
  "For every seed and path, private key and chain code are those of the published derivation (BIP-32 on secp256k1, SLIP-10 on ed25519), hardened and plain steps never stand in for each other, whatever was derived before, and paths that name no "
  "key and numbers outside the order of the curve are refused. Entropy words carry the bits of the entropy and its checksum in order, and a BIP-39 phrase is stretched to its seed with the published parameters.",
  ["inputs", "histories"], "every seed, path, earlier derivation and passphrase", "Tests derive along two fixed paths from a few seeds.",
  ["monero_glue/misc/bip/bip32.py", "monero_glue/misc/bip/keys.py", "monero_glue/misc/bip/utils.py", "monero_glue/misc/bip/bip39_deriv.py"],
  [("derivation", "bip/bip32.py Wallet.get_child, get_child_for_path"), ("remembered results", "bip/utils.py memoize"), ("words", "bip/bip32.py bytes_to_indices, indices_to_bytes"), ("stretching", "bip/bip39_deriv.py mnemonics_to_seed")],
  "abstract interpretation over symbolic seeds: HMAC results are free functions of their inputs, private exponents linear forms modulo the order of the curve, words vectors of symbolic bits; every outcome of the comparison with the order is followed; results compared with the published derivation; the remembering decorator is driven with calls that differ in one argument",
  "Listed paths of up to five steps with boundary indices (thorough: more); the private derivation only: deriving children of a public node is not covered (it always ends with an error here); HMAC, hashes and curve arithmetic are free functions (N01).")

P("N01", "Curve arithmetic and hash primitives are numerically correct in both backends",
  "Scalar and point operations, Keccak and the stream cipher return the published value for every operand, in the Python and in the native backend.",
  ["inputs"], "all 256-bit operands", "Tests use a fixed set of vectors.",
  ["monero_glue/xmr/core"], [("backends", "core/ec_py.py, core/ec_trezor.py")], "",
  na="the result is a value computed from all 256-bit operands through long carry chains; only a proof assistant or solver reaches it, and the native library is a third-party binary. C15 decides what the wrappers compute from the primitives.")

P("N02", "Encoding then decoding any value returns it unchanged in every codec",
  "For every message, address, blob and wallet file, decoding the encoding gives an equal value and encoding the decoding gives the same bytes.",
  ["inputs"], "all values of all types", "Tests round-trip samples.",
  ["monero_glue/protobuf.py", "monero_glue/xmr/b58.py"], [("codecs", "protobuf.py, b58.py")], "",
  na="equality needs induction over unbounded byte strings and big-number arithmetic (base58 conversion); the structural half (same fields, slices, kinds and checks on both sides) is claimed as C17, C18 and C20.")

P("N03", "Every range proof made for valid amounts verifies",
  "For all amounts below 2^64 and all masks, the proof produced by the prover is accepted by the verifier.",
  ["inputs"], "all amounts, masks and batch sizes", "Tests prove sampled amounts.",
  ["monero_glue/xmr/bulletproof.py"], [("prover", "bulletproof.py prove")], "",
  na="completeness is a polynomial identity across the recursive inner-product folding over 64*M generators with memory-saving in-place vectors; deciding it means executing the prover symbolically end to end. Soundness of acceptance is C14, the prover's secrecy C12.")

P("N04", "The emulated device serves concurrent requests without mixing sessions",
  "Requests arriving at the same time over HTTP are processed one at a time and never see each other's session.",
  ["schedules"], "all interleavings of requests", "Tests send one request at a time.",
  ["monero_poc/trezor.py"], [("HTTP server", "monero_poc/trezor.py")], "",
  na="depends on the threading mode of the web framework and on the event loop of third-party packages, which the sources of this repository do not determine; the session rules within one request order are C01 and C09.")
