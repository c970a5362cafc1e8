from mutants import bug, ref
S = "monero_glue/protocol/tsx_sign.py"
K = "monero_glue/hwtoken/token.py"
bug("C09", "no-clear", (K, "        self.tsx_state = None  # drop the stored session\n", ""))
bug("C09", "clear-late", (K, "        self.tsx_state = None  # drop the stored session\n        await self.iface.transaction_error(e)\n\n    async def monero", "        await self.iface.transaction_error(e)\n        self.tsx_state = None\n\n    async def monero"))
bug("C09", "clear-if-debug", (K, "        self.tsx_state = None  # drop the stored session\n", "        if self.debug:\n            self.tsx_state = None\n"))
bug("C09", "narrow-token", (K, "            return res\n\n        except Exception as e:\n            await self.tsx_exc_handler(e)", "            return res\n\n        except ValueError as e:\n            return Failure(message=exc2str(e))\n        except Exception as e:\n            await self.tsx_exc_handler(e)"))
bug("C09", "no-purge", (S, "        self.purge = True\n        self.tsx_obj = None  # clear", "        self.tsx_obj = None  # clear"))
bug("C09", "swallow-input", (S, "            return await self.tsx_obj.set_input(msg.src_entr)\n        except Exception as e:\n            await self.tsx_exc_handler(e)\n            raise", "            return await self.tsx_obj.set_input(msg.src_entr)\n        except Exception as e:\n            await self.tsx_exc_handler(e)\n            return None"))
bug("C09", "vini-keeps", (S, "            return await self.tsx_obj.input_vini(msg.src_entr, msg.vini, msg.vini_hmac)\n        except Exception as e:\n            await self.tsx_exc_handler(e)\n            raise", "            return await self.tsx_obj.input_vini(msg.src_entr, msg.vini, msg.vini_hmac)\n        except ValueError:\n            raise\n        except Exception as e:\n            await self.tsx_exc_handler(e)\n            raise"))
bug("C09", "mismatch-keeps", (S, "        except misc.TrezorTxPrefixHashNotMatchingError as e:\n            await self.tsx_exc_handler(e)\n", "        except misc.TrezorTxPrefixHashNotMatchingError as e:\n            self.err_ctr += 1\n"))
bug("C09", "terminal-kept", (S, "return self.purge or (self.tsx_obj and self.tsx_obj.is_terminal())", "return self.purge"))
bug("C09", "init-resumes", (S, "            if msg.MESSAGE_WIRE_TYPE != MessageType.MoneroTransactionInitRequest\n            else None", "            if msg.MESSAGE_WIRE_TYPE != MessageType.MoneroTransactionInitRequest or state\n            else None"))
bug("C09", "state-restored", (K, "        except Exception as e:\n            await self.tsx_exc_handler(e)\n            self.tsx_obj = None\n", "        except Exception as e:\n            saved = self.tsx_state\n            await self.tsx_exc_handler(e)\n            self.tsx_obj = None\n            if self.err_ctr < 3:\n                self.tsx_state = saved\n"))
bug("C09", "builder-swallow", ("monero_glue/protocol/tsx_sign_builder.py", "        self.state.input_permutation()\n", "        try:\n            self.state.input_permutation()\n        except ValueError:\n            pass\n"))
ref("c09-decorate", (S, "    async def tsx_init(self, tsx_data):", "    async def _guard(self, coro):\n        try:\n            return await coro\n        except Exception as e:\n            await self.tsx_exc_handler(e)\n            raise\n\n    async def tsx_init(self, tsx_data):"),
    (S, "        try:\n            return await self.tsx_obj.init_transaction(tsx_data)\n        except Exception as e:\n            await self.tsx_exc_handler(e)\n            raise", "        return await self._guard(self.tsx_obj.init_transaction(tsx_data))"))
ref("c09-clear-first", (K, "        if self.debug:\n            traceback.print_exc()\n\n        self.err_ctr += 1\n        self.tsx_obj = None  # clear transaction object\n        self.tsx_state = None  # drop the stored session\n", "        self.tsx_obj = self.tsx_state = None\n        if self.debug:\n            traceback.print_exc()\n\n        self.err_ctr += 1\n"))
ref("c09-saveflag", (K, "            if not await signer.should_purge():\n                self.tsx_state = await signer.state_save()\n", "            purge = await signer.should_purge()\n            self.tsx_state = None if purge else await signer.state_save()\n"))
ref("c09-purge-if", (S, "        return self.purge or (self.tsx_obj and self.tsx_obj.is_terminal())", "        if self.purge:\n            return True\n        if not self.tsx_obj:\n            return False\n        return self.tsx_obj.is_terminal()"))
ref("c09-dispatch", (S, "            return await self.tsx_sign_final(msg)\n        else:\n            raise ValueError(\"Unknown message\")", "            return await self.tsx_sign_final(msg)\n        raise ValueError(\"Unknown message\")"))
