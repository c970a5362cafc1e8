from mutants import bug, ref

B = "monero_glue/protocol/tsx_sign_builder.py"
K = "monero_glue/protocol/key_image_sync.py"
T = "monero_glue/hwtoken/token.py"
P = "monero_poc/trezor.py"
U = "monero_poc/utils/misc.py"

CONF = """        # Ask for confirmation
        confirmation = await self.trezor.iface.confirm_transaction(tsx_data, self.creds)
        if not confirmation:
            from monero_glue.messages import FailureType
            from monero_glue.messages.Failure import Failure

            return Failure(code=FailureType.ActionCancelled, message="rejected")
"""
bug("C04", "tx-ignored", (B, "        if not confirmation:\n            from monero_glue.messages import FailureType\n", "        if confirmation is None:\n            from monero_glue.messages import FailureType\n"))
bug("C04", "tx-only-outputs", (B, "        if not confirmation:\n            from monero_glue.messages import FailureType\n", "        if not confirmation and len(tsx_data.outputs) > 1:\n            from monero_glue.messages import FailureType\n"))
bug("C04", "tx-early", (B, "        # Ask for confirmation\n", "        self.fee = tsx_data.fee\n        # Ask for confirmation\n"))
bug("C04", "tx-early-keys", (B, "        # Ask for confirmation\n", "        if tsx_data.account is not None and tsx_data.minor_indices:\n            self.precompute_subaddr(tsx_data.account, tsx_data.minor_indices)\n        # Ask for confirmation\n"))
bug("C04", "tx-inpcnt-first", (B, "        # Ask for confirmation\n", "        self.state.inp_cnt(False)\n        # Ask for confirmation\n"), (B, "        self.state.inp_cnt(False)\n        self.check_change", "        self.check_change"))
bug("C04", "tx-cached", (B, "        if not confirmation:\n            from monero_glue.messages import FailureType\n", "        if not confirmation and not getattr(self.trezor, 'tsx_confirmed', False):\n            from monero_glue.messages import FailureType\n"))
bug("C04", "ki-ignored", (K, """        if not confirmation:
            return Failure(code=FailureType.ActionCancelled, message="rejected")

        self.num = msg.num""", """        if not confirmation and msg.num > 1:
            return Failure(code=FailureType.ActionCancelled, message="rejected")

        self.num = msg.num"""))
bug("C04", "ki-num-first", (K, """        confirmation = await self.iface""", """        self.num = msg.num
        confirmation = await self.iface"""))
bug("C04", "ki-key-first", (K, """        self.enc_key = None
        self.sub""", """        self.enc_key = crypto.random_bytes(32)
        self.sub"""), (K, "            raise ValueError(\"Invalid hash\")", "            return MoneroKeyImageSyncFinalAck(enc_key=self.enc_key)"))
bug("C04", "vk-none", (T, """        if not confirmation:
            return Failure""", """        if confirmation is None:
            return Failure"""))
bug("C04", "vk-net", (T, """        confirmation = await self.iface.confirm_watch_only(msg, ctx=self)
        if not confirmation:
            return Failure""", """        if msg.network_type == 0 and not await self.iface.confirm_watch_only(msg, ctx=self):
            return Failure"""))
bug("C04", "prompt-stale", (U, """        self.in_confirmation = True
        self.confirmed_result = False
""", """        self.in_confirmation = True
"""))
bug("C04", "prompt-result", (P, "        self.trez_iface.ki_sync_waiter.confirmation(result == 0)", "        self.trez_iface.ki_sync_waiter.confirmation(result != 0)"))
bug("C04", "prompt-two", (P, "        self.watch_only_waiter.confirmation(result == 0)", "        self.watch_only_waiter.confirmation(result in (0, 1))"))
bug("C04", "prompt-old-event", (U, "        self.conf_evt = threading.Event()\n", "        self.conf_evt = self.conf_evt or threading.Event()\n"))
bug("C04", "watch-abort", (P, """        if not confirmed:
            logger.warning("Watch only rejected")
            return abort(403)
""", """        if not confirmed:
            logger.warning("Watch only rejected")
"""))
bug("C04", "shown-change", (P, """            if addr != addr_chg:
                self.poutput(
                    "  Output %2d: %12.8f to %s, sub: %s\"""", """            if out.is_subaddress and addr == addr_chg:
                continue
            if addr != addr_chg:
                self.poutput(
                    "  Output %2d: %12.8f to %s, sub: %s\""""))
bug("C04", "shown-amount", (P, """                    % (
                        idx,
                        self.conv_disp_amount(out.amount),
                        addr.decode("utf8"),""", """                    % (
                        idx,
                        self.conv_disp_amount(tsx_data.outputs[0].amount),
                        addr.decode("utf8"),"""))
bug("C04", "shown-fee", (P, """        self.poutput("  Fee: %.8f" % self.conv_disp_amount(tsx_data.fee))
""", ""))
bug("C04", "shown-old", (P, """        self.confirmed_result = False
        self.tsx_data = tsx_data
""", """        self.confirmed_result = False
        self.tsx_data = self.tsx_data or tsx_data
"""))

ref("c04-inline", (B, """        confirmation = await self.trezor.iface.confirm_transaction(tsx_data, self.creds)
        if not confirmation:
            from""", """        if not await self.trezor.iface.confirm_transaction(tsx_data, self.creds):
            from"""))
ref("c04-helper", (B, CONF, """        if not await self._agreed(tsx_data):
            from monero_glue.messages import FailureType
            from monero_glue.messages.Failure import Failure

            return Failure(code=FailureType.ActionCancelled, message="rejected")
"""), (B, "    async def init_transaction(self, tsx_data):", """    async def _agreed(self, request):
        answer = await self.trezor.iface.confirm_transaction(request, self.creds)
        return bool(answer)

    async def init_transaction(self, tsx_data):"""))
ref("c04-ki", (K, """        confirmation = await self.iface.confirm_ki_sync(msg, ctx=ctx)
        if not confirmation:
            return Failure(code=FailureType.ActionCancelled, message="rejected")

        self.num = msg.num
        self.hash = msg.hash
        self.enc_key = crypto.random_bytes(32)
""", """        if await self.iface.confirm_ki_sync(msg, ctx=ctx):
            return self._start(msg)
        return Failure(code=FailureType.ActionCancelled, message="rejected")

    def _start(self, msg):
        self.enc_key = crypto.random_bytes(32)
        self.num, self.hash = msg.num, msg.hash
"""))
ref("c04-vk", (T, """        confirmation = await self.iface.confirm_watch_only(msg, ctx=self)
        if not confirmation:
            return Failure(code=FailureType.ActionCancelled, message="rejected")

        return MoneroWatchKey(
            watch_key=crypto.encodeint(self.creds.view_key_private),
            address=self.creds.address,
        )
""", """        if await self.iface.confirm_watch_only(msg, ctx=self):
            key = crypto.encodeint(self.creds.view_key_private)
            return MoneroWatchKey(watch_key=key, address=self.creds.address)
        else:
            return Failure(code=FailureType.ActionCancelled, message="rejected")
"""))
ref("c04-select", (P, """        self.poutput("\\n")
        self.trez_iface.confirmation(result == 0)
""", """        self.poutput("\\n")
        if result == 0:
            self.trez_iface.confirmation(True)
        else:
            self.trez_iface.confirmation(False)
"""))
ref("c04-line", (P, """            if addr != addr_chg:
                self.poutput(
                    "  Output %2d: %12.8f to %s, sub: %s"
                    % (
                        idx,
                        self.conv_disp_amount(out.amount),
                        addr.decode("utf8"),
                        out.is_subaddress,
                    )
                )
            else:
                self.poutput(
                    "  Change:    %12.8f to %s, sub: %s"
                    % (
                        self.conv_disp_amount(out.amount),
                        addr.decode("utf8"),
                        out.is_subaddress,
                    )
                )
""", """            label = "Output %2d:" % idx if addr != addr_chg else "Change:   "
            amount = self.conv_disp_amount(out.amount)
            self.poutput("  %s %12.8f to %s, sub: %s" % (label, amount, addr.decode("utf8"), out.is_subaddress))
"""))
ref("c04-wait", (U, """        try:
            self.conf_evt.wait()
            return self.confirmed_result

        finally:
            self.in_confirmation = False

    async""", """        try:
            evt = self.conf_evt
            evt.wait()
            answer = self.confirmed_result
        finally:
            self.in_confirmation = False
        return answer

    async"""))
