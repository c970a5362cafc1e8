from mutants import bug, ref

A = "monero_glue/agent/agent_lite.py"
P = "monero_poc/agent.py"

bug("C23", "no-check-init", (A, '''        t_res = await self.trezor.tsx_sign(init_msg)  # type: MoneroTransactionInitAck
        self.handle_error(t_res)
''', '''        t_res = await self.trezor.tsx_sign(init_msg)  # type: MoneroTransactionInitAck
'''))
bug("C23", "no-check-perm", (A, '''        msg = MoneroTransactionInputsPermutationRequest(perm=self.ct.source_permutation)
        t_res = await self.trezor.tsx_sign(msg)
        self.handle_error(t_res)
''', '''        msg = MoneroTransactionInputsPermutationRequest(perm=self.ct.source_permutation)
        t_res = await self.trezor.tsx_sign(msg)
'''))
bug("C23", "no-check-vini-loop", (A, '''                orig_idx=self.ct.source_permutation[idx],
            )
            t_res = await self.trezor.tsx_sign(msg)
            self.handle_error(t_res)

        # All inputs set''', '''                orig_idx=self.ct.source_permutation[idx],
            )
            t_res = await self.trezor.tsx_sign(msg)
        self.handle_error(t_res)

        # All inputs set'''))
bug("C23", "no-check-final", (A, '''            MoneroTransactionFinalRequest()
        )  # type: MoneroTransactionFinalAck
        self.handle_error(t_res)
''', '''            MoneroTransactionFinalRequest()
        )  # type: MoneroTransactionFinalAck
'''))
bug("C23", "no-check-offload", (A, '''        t_res = await self.trezor.tsx_sign(msg)  # type: MoneroTransactionSetOutputAck
        self.handle_error(t_res)
        return True
''', '''        await self.trezor.tsx_sign(msg)  # type: MoneroTransactionSetOutputAck
        return True
'''))
bug("C23", "check-late", (A, '''            t_res = await self.trezor.tsx_sign(
                msg
            )  # type: MoneroTransactionSetInputAck
            self.handle_error(t_res)

            vini_p = await tmisc.parse_msg(t_res.vini, xmrtypes.TxInV())
''', '''            t_res = await self.trezor.tsx_sign(
                msg
            )  # type: MoneroTransactionSetInputAck

            vini_p = await tmisc.parse_msg(t_res.vini, xmrtypes.TxInV())
            self.handle_error(t_res)
'''))
bug("C23", "failure-not-error", (A, "        return isinstance(response, TError) or isinstance(response, Failure)\n", "        return isinstance(response, TError)\n"))
bug("C23", "terror-not-error", (A, "        return isinstance(response, TError) or isinstance(response, Failure)\n", "        return isinstance(response, TError) and isinstance(response, Failure)\n"))
bug("C23", "error-logged", (A, "        raise agent_misc.TrezorReturnedError(resp=response)\n", "        logger.error(agent_misc.TrezorReturnedError(resp=response))\n"))
bug("C23", "ki-final-unchecked", (A, '''        t_res = await self.trezor.key_image_sync(MoneroKeyImageSyncFinalRequest())
        self.handle_error(t_res)
''', '''        t_res = await self.trezor.key_image_sync(MoneroKeyImageSyncFinalRequest())
'''))
bug("C23", "refresh-start", (A, '''            address_n=self.address_n, network_type=self.network_type
        )
        t_res = await self.trezor.live_refresh(msg)
        self.handle_error(t_res)

    async def live_refresh_final''', '''            address_n=self.address_n, network_type=self.network_type
        )
        await self.trezor.live_refresh(msg)

    async def live_refresh_final'''))
bug("C23", "prefix-own", (A, "        if not common.ct_equal(t_res.tx_prefix_hash, self.ct.tx_prefix_hash):\n", "        if not common.ct_equal(t_res.tx_prefix_hash, t_res.rv.message):\n"))
bug("C23", "prefix-warn", (A, '            raise ValueError("Transaction prefix has does not match")\n', '            logger.error("Transaction prefix has does not match")\n'))
bug("C23", "full-unchecked", (A, '''        mlsag_hash_computed = await monero.get_pre_mlsag_hash(rv)
        if not common.ct_equal(mlsag_hash, mlsag_hash_computed):
            raise ValueError("Pre MLSAG hash has does not match")
''', ""))
bug("C23", "full-if-present", (A, "        if not common.ct_equal(mlsag_hash, mlsag_hash_computed):\n", "        if mlsag_hash and not common.ct_equal(mlsag_hash, mlsag_hash_computed):\n"))
bug("C23", "fee-unchecked", (A, '''        if rv.txnFee != self.ct.tsx_data.fee:
            raise ValueError("Transaction fee does not match")
''', ""))
bug("C23", "message-unchecked", (A, '''        if not common.ct_equal(rv.message, self.ct.tx_prefix_hash):
            raise ValueError("Signed message does not match the transaction prefix")
''', ""))
bug("C23", "extra-after", (A, '''        self.ct.tx.signatures = []
''', '''        self.ct.tx.signatures = []
        self.ct.tx.extra = list(bytearray(t_res.signature))
'''))
bug("C23", "fee-after", (A, '''        self.ct.tx.rct_signatures = rv
''', '''        rv.txnFee = 0
        self.ct.tx.rct_signatures = rv
'''))
bug("C23", "proof-logged", (A, '            raise ValueError("Range proof is not valid")\n', '            logger.warning("Range proof is not valid")\n'))
bug("C23", "proof-ignored", (A, '''        if not ring_ct.ver_range(
            C=crypto.decodepoint(self.ct.tx_out_pk[-1].mask),''', '''        if self._is_offloading() and not ring_ct.ver_range(
            C=crypto.decodepoint(self.ct.tx_out_pk[-1].mask),'''))
bug("C23", "proof-own-v", (A, '''            rsig.V = []
            batch_size''', '''            rsig.V = rsig.V or []
            batch_size'''), (A, "                rsig.V.append(crypto.encodepoint(commitment))\n", "                commitment = crypto.encodepoint(commitment)\n"))
bug("C23", "proof-batch-shift", (A, "                    1 + self.ct.cur_output_idx - batch_size + i\n                ].mask", "                    self.ct.cur_output_idx - batch_size + i\n                ].mask"))
bug("C23", "proof-first", (A, "C=crypto.decodepoint(self.ct.tx_out_pk[-1].mask),", "C=crypto.decodepoint(self.ct.tx_out_pk[-1].dest),"))
bug("C23", "ki-count", (A, '''            if len(t_res.kis) != len(rr):
                raise ValueError("Unexpected number of key images")
''', ""))
bug("C23", "ki-count-more", (A, "            if len(t_res.kis) != len(rr):\n", "            if len(t_res.kis) > len(rr):\n"))
bug("C23", "ki-length", (A, "            if len(plain) != 3 * 32:\n", "            if len(plain) < 32:\n"))
bug("C23", "mask-count", (A, '''        if len(mask) != self._num_outputs() * 32:
            raise ValueError("Invalid number of masks: %s" % len(mask))
''', ""))
bug("C23", "tx-keys-length", (A, '''        if len(decr) % 32 != 0:
            raise ValueError("Invalid length")
''', ""))
bug("C23", "image-unverified", (A, '''        if not ring_ct.check_ring_singature(
            ki_bin, ki, [crypto.decodepoint(out_key)], sig
        ):
            raise ValueError("Invalid ring sig on KI")
''', ""))
bug("C23", "image-other-key", (A, "            ki_bin, ki, [crypto.decodepoint(out_key)], sig\n", "            ki_bin, ki, [crypto.decodepoint(recv_deriv)], sig\n"))
bug("C23", "submit-anyway", (P, '''        res = await self.sign_wrap(fdata=unsigned_txset, aux_data=aux_data)
        if isinstance(res, int):
            logger.error("Error")
            return
''', '''        res = await self.sign_wrap(fdata=unsigned_txset, aux_data=aux_data)
        if isinstance(res, int):
            logger.error("Error")
'''))
bug("C23", "address-ignored", (P, '''            self.perror("Connected TREZOR address does not match wallet address")
            raise TrezorAddressMismatchError()
''', '''            self.perror("Connected TREZOR address does not match wallet address")
'''))
bug("C23", "pending-unsigned", (P, "            pending = wallet.construct_pending_tsx(res, tx)\n", "            pending = wallet.construct_pending_tsx(cdata.tx, msg.txes[0])\n"))
bug("C23", "wrap-none", (P, '''            print("Trezor returned an error: %s" % e)
            return 1
''', '''            print("Trezor returned an error: %s" % e)
'''))

ref("c23-exchange", (A, '''    async def sign_unsigned_tx(self, unsig):
''', '''    async def _exchange(self, msg):
        t_res = await self.trezor.tsx_sign(msg)
        self.handle_error(t_res)
        return t_res

    async def _raw(self, msg):
        return await self.trezor.tsx_sign(msg)

    async def sign_unsigned_tx(self, unsig):
'''), (A, '''        t_res = await self.trezor.tsx_sign(init_msg)  # type: MoneroTransactionInitAck
        self.handle_error(t_res)
''', '''        t_res = await self._exchange(init_msg)  # type: MoneroTransactionInitAck
'''), (A, '''        msg = MoneroTransactionInputsPermutationRequest(perm=self.ct.source_permutation)
        t_res = await self.trezor.tsx_sign(msg)
''', '''        msg = MoneroTransactionInputsPermutationRequest(perm=self.ct.source_permutation)
        t_res = await self._raw(msg)
'''))
ref("c23-tuple-error", (A, "        return isinstance(response, TError) or isinstance(response, Failure)\n", "        return isinstance(response, (TError, Failure))\n"))
ref("c23-own-values", (A, '''        if not common.ct_equal(rv.message, self.ct.tx_prefix_hash):
            raise ValueError("Signed message does not match the transaction prefix")
        if rv.txnFee != self.ct.tsx_data.fee:
            raise ValueError("Transaction fee does not match")
''', '''        rv.message = self.ct.tx_prefix_hash
        rv.txnFee = self.ct.tsx_data.fee
'''))
ref("c23-total-count", (A, '''            if len(t_res.kis) != len(rr):
                raise ValueError("Unexpected number of key images")
            sub_res += t_res.kis
''', '''            sub_res += t_res.kis
            expected = len(rr)
            if expected != len(t_res.kis):
                raise ValueError("Unexpected number of key images")
'''))
ref("c23-commitments", (A, '''            for i in range(batch_size):
                commitment = self.ct.tx_out_pk[
                    1 + self.ct.cur_output_idx - batch_size + i
                ].mask
''', '''            first = self.ct.cur_output_idx - batch_size + 1
            for i in range(batch_size):
                commitment = self.ct.tx_out_pk[first + i].mask
'''))
ref("c23-verify-method", (A, '''        # Rsig verification
        if not ring_ct.ver_range(
            C=crypto.decodepoint(self.ct.tx_out_pk[-1].mask),
            rsig=rsig,
            use_bulletproof=self._is_req_bulletproof(),
        ):
            raise ValueError("Range proof is not valid")
''', '''        # Rsig verification
        self._verify_proof(rsig)

    def _verify_proof(self, rsig):
        last = crypto.decodepoint(self.ct.tx_out_pk[-1].mask)
        valid = ring_ct.ver_range(last, rsig, self._is_req_bulletproof())
        if not valid:
            raise ValueError("Range proof is not valid")
'''))
ref("c23-check-first", (A, '''        mlsag_hash = t_res.full_message_hash
        mlsag_hash_computed = await monero.get_pre_mlsag_hash(rv)
        if not common.ct_equal(mlsag_hash, mlsag_hash_computed):
            raise ValueError("Pre MLSAG hash has does not match")
''', '''        await self._compare_message(rv, t_res)
'''), (A, '''    async def _on_all_input_set(self, ack):
''', '''    async def _compare_message(self, rv, ack):
        expected = await monero.get_pre_mlsag_hash(rv)
        if common.ct_equal(expected, ack.full_message_hash):
            return
        raise ValueError("Pre MLSAG hash has does not match")

    async def _on_all_input_set(self, ack):
'''))
ref("c23-submit", (P, '''        if isinstance(res, int):
            logger.error("Error")
            return

        print("Transaction has been signed. ")''', '''        failed = isinstance(res, int)
        if failed:
            logger.error("Error")
            return

        print("Transaction has been signed. ")'''))
