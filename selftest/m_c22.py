from mutants import bug, ref
B = "monero_glue/protocol/tsx_sign_builder.py"
H = "monero_glue/xmr/sub/mlsag_hasher.py"
S = "monero_glue/protocol/tsx_sign_state.py"
K = "monero_glue/xmr/sub/keccak_hasher.py"

bug("C22", "state-drop-inmem", (S, "        return self.s, self.in_mem\n", "        return self.s, False\n"))
bug("C22", "state-swap", (S, "        self.s, self.in_mem = x\n", "        self.in_mem, self.s = x\n"))
bug("C22", "skip-falsy", (B, "            cval = getattr(self, attr)\n            if cval is None:\n                setattr(t, attr, cval)\n                continue\n",
                          "            cval = getattr(self, attr)\n            if not cval:\n                continue\n"))
bug("C22", "none-not-saved", (B, "            cval = getattr(self, attr)\n            if cval is None:\n                setattr(t, attr, cval)\n                continue\n",
                              "            cval = getattr(self, attr)\n            if cval is None:\n                continue\n"),
    )
bug("C22", "hasher-tuple-order", (H, "            self.kc_master.ctx,\n            self.rsig_hasher,\n", "            self.rsig_hasher,\n            self.kc_master.ctx,\n"))
bug("C22", "hasher-drop-rsig", (H, "        self.rsig_hasher = state[3] if state else crypto.get_keccak()\n", "        self.rsig_hasher = crypto.get_keccak()\n"))
bug("C22", "hasher-rtcsig-recreate", (H, "            self.rtcsig_hasher = KeccakXmrArchive(state[4]) if state[4] else None\n", "            self.rtcsig_hasher = KeccakXmrArchive()\n"))
bug("C22", "prefix-ctx-lost", (B, "                self.tx_prefix_hasher = KeccakXmrArchive(ctx=t.tx_prefix_hasher)\n", "                self.tx_prefix_hasher = KeccakXmrArchive()\n"))
bug("C22", "skip-attr", (B, '            elif attr in ["trezor"]:\n', '            elif attr in ["trezor", "output_last_mask"]:\n'))
bug("C22", "skip-prefix", (B, '            elif attr.startswith("STEP"):\n', '            elif attr.startswith(("STEP", "output_last")):\n'))
bug("C22", "on-signer", (B, "        self.summary_inputs_money += src_entr.amount\n", "        self.summary_inputs_money += src_entr.amount\n        self.trezor.last_src = src_entr\n"))
bug("C22", "writer-ctx", (K, "    def ctx(self):\n        return self.hasher.ctx\n", "    def ctx(self):\n        return crypto.get_keccak()\n"))
bug("C22", "load-skip-lists", (B, "            cval = getattr(t, attr)\n            if cval is None:\n                setattr(self, attr, cval)\n                continue\n",
                               "            cval = getattr(t, attr)\n            if cval is None:\n                setattr(self, attr, cval)\n                continue\n            if attr == 'output_masks':\n                continue\n"))

ref("c22-vars", (B, "        for attr in self.__dict__:\n            if attr.startswith(\"_\"):\n                continue\n\n            cval = getattr(self, attr)\n",
                 "        for attr, cval in vars(self).items():\n            if attr[0] == \"_\":\n                continue\n\n"))
ref("c22-load-items", (B, "        for attr in t.__dict__:\n            if attr.startswith(\"_\"):\n                continue\n\n            cval = getattr(t, attr)\n",
                       "        for attr, cval in t.__dict__.items():\n            if attr.startswith(\"_\"):\n                continue\n\n"))
ref("c22-helper", (B, "    def state_save(self):\n", "    @staticmethod\n    def _is_transient(attr):\n        return attr.startswith(\"_\") or attr == \"trezor\"\n\n    def state_save(self):\n"),
    (B, "        for attr in self.__dict__:\n            if attr.startswith(\"_\"):\n                continue\n", "        for attr in list(self.__dict__):\n            if self._is_transient(attr):\n                continue\n"))
ref("c22-hasher-load", (H, """        self.is_simple = state[0] if state else None
        self.state = state[1] if state else 0
        self.kc_master = HashWrapper(state[2] if state else crypto.get_keccak())
        self.rsig_hasher = state[3] if state else crypto.get_keccak()
        self.rtcsig_hasher = None
        if state:
            self.rtcsig_hasher = KeccakXmrArchive(state[4]) if state[4] else None
        else:
            self.rtcsig_hasher = KeccakXmrArchive()
""", """        if state:
            self.state_load(state)
            return
        self.is_simple = None
        self.state = 0
        self.kc_master = HashWrapper(crypto.get_keccak())
        self.rsig_hasher = crypto.get_keccak()
        self.rtcsig_hasher = KeccakXmrArchive()
"""))
ref("c22-cache", (B, "        self.summary_inputs_money += src_entr.amount\n", "        self._cur_amount = src_entr.amount\n        self.summary_inputs_money += self._cur_amount\n"))
bug("C22", "private-attr", (B, "        self.output_last_mask = None\n        self.rsig_type", "        self._output_last_mask = None\n        self.rsig_type"), (B, "                self.output_last_mask = cur_mask\n", "                self._output_last_mask = cur_mask\n"), (B, "            mask = self.output_last_mask\n            self.output_last_mask = None\n", "            mask = self._output_last_mask\n            self._output_last_mask = None\n"))
