from mutants import bug, ref

PB = "monero_glue/protobuf.py"
M = "monero_glue/messages/"
CV = "monero_glue/protocol_base/messages.py"
MI = "monero_glue/hwtoken/misc.py"
TS = "monero_glue/protocol/tsx_sign.py"
TK = "monero_glue/hwtoken/token.py"

bug("C17", "dup-field", (M + "MoneroTransactionSourceEntry.py", "            8: ('mask', p.BytesType, 0),\n", "            7: ('mask', p.BytesType, 0),\n"))
bug("C17", "missing-field", (M + "MoneroTransactionSourceEntry.py", "            8: ('mask', p.BytesType, 0),\n", ""))
bug("C17", "wrong-kind", (M + "MoneroTransactionSourceEntry.py", "            6: ('amount', p.UVarintType, 0),\n", "            6: ('amount', p.BytesType, 0),\n"))
bug("C17", "signed-kind", (M + "MoneroTransactionSourceEntry.py", "            6: ('amount', p.UVarintType, 0),\n", "            6: ('amount', p.SVarintType, 0),\n"))
bug("C17", "lost-repeated", (M + "MoneroTransactionSourceEntry.py", "            4: ('real_out_additional_tx_keys', p.BytesType, p.FLAG_REPEATED),\n", "            4: ('real_out_additional_tx_keys', p.BytesType, 0),\n"))
bug("C17", "list-default", (M + "MoneroTransactionSourceEntry.py", "        self.outputs = outputs if outputs is not None else []\n", "        self.outputs = outputs\n"))
bug("C17", "ctor-swap", (M + "MoneroTransactionSourceEntry.py", "        self.mask = mask\n        self.multisig_kLRki = multisig_kLRki\n", "        self.mask = multisig_kLRki\n        self.multisig_kLRki = mask\n"))
bug("C17", "field-swap", (M + "MoneroTransactionSourceEntry.py", "            2: ('real_output', p.UVarintType, 0),\n", "            2: ('real_output_in_tx_index', p.UVarintType, 0),\n"),
    (M + "MoneroTransactionSourceEntry.py", "            5: ('real_output_in_tx_index', p.UVarintType, 0),\n", "            5: ('real_output', p.UVarintType, 0),\n"))
bug("C17", "number-clash", (M + "MessageType.py", "MoneroTransactionFinalAck = 518  # type: Literal[518]\n", "MoneroTransactionFinalAck = 517  # type: Literal[517]\n"))
bug("C17", "class-number", (M + "MoneroTransactionFinalAck.py", "    MESSAGE_WIRE_TYPE = 518\n", "    MESSAGE_WIRE_TYPE = 516\n"))
bug("C17", "nested-class", (M + "MoneroTransactionSourceEntry.py", "from .MoneroOutputEntry import MoneroOutputEntry\n", "from .MoneroTransactionDestinationEntry import MoneroTransactionDestinationEntry as MoneroOutputEntry\n"))
bug("C17", "bool-int", (PB, "            fvalue = bool(ivalue)\n", "            fvalue = ivalue\n"))
bug("C17", "sint-raw", (PB, "            fvalue = uint_to_sint(ivalue)\n", "            fvalue = ivalue\n"))
bug("C17", "sint-dump-raw", (PB, "                dump_uvarint(writer, sint_to_uint(svalue))\n", "                dump_uvarint(writer, svalue)\n"))
bug("C17", "enum-unvalidated", (PB, "            fvalue = ftype.validate(ivalue)\n", "            fvalue = ivalue\n"))
bug("C17", "enum-validate", (PB, "        if value not in self.enum_values:\n            raise TypeError(\"Invalid enum value\")\n", ""))
bug("C17", "short-read", (PB, "    if size and reader.readinto(buf) != size:\n        raise EOFError(\"Truncated field\")\n", "    if size:\n        reader.readinto(buf)\n"))
bug("C17", "skip-not-read", (PB, "                ivalue = load_uvarint(reader)\n                _read_exact(reader, ivalue)\n", "                load_uvarint(reader)\n"))
bug("C17", "skip-any", (PB, "            else:\n                raise ValueError\n            continue\n", "            continue\n"))
bug("C17", "wire-unchecked", (PB, "        if wtype != ftype.WIRE_TYPE:\n            raise TypeError  # parsed wire type differs from the schema\n", ""))
bug("C17", "wire-mask", (PB, "        wtype = fkey & 7\n", "        wtype = fkey & 3\n"))
bug("C17", "tag-shift", (PB, "        ftag = fkey >> 3\n", "        ftag = fkey >> 2\n"))
bug("C17", "limit-off", (PB, "        if self.limit < len(buf):\n", "        if self.limit < 0:\n"))
bug("C17", "limit-kept", (PB, "            self.limit -= nread\n", "            pass\n"))
bug("C17", "nested-short", (PB, "            if nested.limit != 0:\n                raise EOFError(\"Truncated field\")\n", ""))
bug("C17", "nested-unlimited", (PB, "            fvalue = await load_message(nested, ftype)\n", "            fvalue = await load_message(reader, ftype)\n"))
bug("C17", "nested-size", (PB, "            nested = LimitedReader(reader, ivalue)\n", "            nested = LimitedReader(reader, ivalue + 1)\n"))
bug("C17", "repeated-replace", (PB, "            pvalue.append(fvalue)\n            fvalue = pvalue\n", "            fvalue = [fvalue]\n"))
bug("C17", "repeated-front", (PB, "            pvalue.append(fvalue)\n", "            pvalue.insert(0, fvalue)\n"))
bug("C17", "varint-shift8", (PB, "        shift += 7\n", "        shift += 8\n"))
bug("C17", "varint-mask", (PB, "        result += (byte & 0x7F) << shift\n", "        result += (byte & 0x3F) << shift\n"))
bug("C17", "varint-trunc", (PB, "            if shift:\n                raise ValueError(\"Truncated varint\")\n", ""))
bug("C17", "varint-cont", (PB, "        buffer[0] = (n & 0x7F) | (0x80 if shifted else 0x00)\n", "        buffer[0] = (n & 0x7F) | (0x80 if n & 0x80 else 0x00)\n"))
bug("C17", "varint-bound", (PB, "        shifted = n >> 7\n", "        shifted = n >> 8\n"))
bug("C17", "count-bytes", (PB, "        res += len(x)\n", "        res = len(x)\n"))
bug("C17", "text-length", (PB, '''                if not isinstance(svalue, bytes):
                    svalue = svalue.encode()

                dump_uvarint(writer, len(svalue))
                writer.write(svalue)
''', '''                dump_uvarint(writer, len(svalue))
                if not isinstance(svalue, bytes):
                    svalue = svalue.encode()

                writer.write(svalue)
'''))
bug("C17", "falsy-omitted", (PB, "        if fvalue is None:\n            continue\n\n        fkey", "        if not fvalue:\n            continue\n\n        fkey"))
bug("C17", "key-once", (PB, '''        for svalue in fvalue:
            dump_uvarint(writer, fkey)

''', '''        dump_uvarint(writer, fkey)
        for svalue in fvalue:
'''))
bug("C17", "counter", (PB, "        self.size += nwritten\n", "        self.size = nwritten\n"))
bug("C17", "nested-length", (PB, "                dump_uvarint(writer, counter.size)\n", "                dump_uvarint(writer, len(svalue.get_fields()))\n"))
bug("C17", "dispatch-wrong", (TS, "            return await self.tsx_all_out1_set(msg)\n", "            return await self.tsx_all_in_set(msg)\n"))
bug("C17", "dispatch-lost", (TS, "            return await self.tsx_input_vini(msg)\n", "            await self.tsx_input_vini(msg)\n"))
bug("C17", "dispatch-ki", (TK, "                return await self.ki_sync.sync(self, msg)\n", "                return await self.ki_sync.final(self, msg)\n"))
bug("C17", "convert-flat", (CV, "            return [self._transform(x, src_proto, dst_package) for x in msg]\n", "            return msg\n"))
bug("C17", "convert-pkg", (CV, "            tlib_msg = getattr(dst_package, msg_name)\n", "            tlib_msg = msg.__class__\n"))
bug("C17", "convert-src", (CV, '''                    cval = getattr(msg, field_name, None)
                    setattr(
''', '''                    cval = getattr(nmsg, field_name, None)
                    setattr(
'''))
bug("C17", "translate-swap", (MI, "    d.real_output = src_entry.real_output\n", "    d.real_output = src_entry.real_output_in_tx_index\n"))
bug("C17", "translate-klrki", (MI, "MoneroMultisigKLRki(K=s.K, L=s.L, R=s.R, ki=s.ki)", "MoneroMultisigKLRki(K=s.K, L=s.R, R=s.L, ki=s.ki)"))
bug("C17", "translate-outs", (MI, "key=MoneroRctKeyPublic(dest=x[1].dest, commitment=x[1].mask)", "key=MoneroRctKeyPublic(dest=x[1].mask, commitment=x[1].dest)"))

ref("c17-read", (PB, '''    buf = bytearray(size)
    if size and reader.readinto(buf) != size:
        raise EOFError("Truncated field")
    return buf
''', '''    buf = bytearray(size)
    if size == 0:
        return buf
    nread = reader.readinto(buf)
    if nread != size:
        raise EOFError("Truncated field")
    return buf
'''))
ref("c17-varint-read", (PB, '''    result = 0
    shift = 0
    byte = 0x80
    while byte & 0x80:
        try:
            nread = reader.readinto(buffer)
        except EOFError:
            nread = 0
        if nread == 0:
            if shift:
                raise ValueError("Truncated varint")
            raise EOFError
        byte = buffer[0]
        result += (byte & 0x7F) << shift
        shift += 7
    return result
''', '''    result = 0
    shift = 0
    while True:
        try:
            nread = reader.readinto(buffer)
        except EOFError:
            nread = 0
        if nread == 0:
            if shift > 0:
                raise ValueError("Truncated varint")
            raise EOFError
        byte = buffer[0]
        result |= (byte & 0x7F) << shift
        if not byte & 0x80:
            return result
        shift += 7
'''))
ref("c17-varint-write", (PB, '''    shifted = True
    while shifted:
        shifted = n >> 7
        buffer[0] = (n & 0x7F) | (0x80 if shifted else 0x00)
        writer.write(buffer)
        n = shifted
''', '''    while n >= 0x80:
        buffer[0] = (n & 0x7F) | 0x80
        writer.write(buffer)
        n >>= 7
    buffer[0] = n
    writer.write(buffer)
'''))
ref("c17-decode-helper", (PB, '''        if fflags & FLAG_REPEATED:
            pvalue = getattr(msg, fname)
            pvalue.append(fvalue)
            fvalue = pvalue
        setattr(msg, fname, fvalue)

    return msg
''', '''        _store_field(msg, fname, fflags, fvalue)

    return msg


def _store_field(msg, fname, fflags, fvalue):
    if fflags & FLAG_REPEATED:
        getattr(msg, fname).append(fvalue)
    else:
        setattr(msg, fname, fvalue)
'''))
ref("c17-key", (PB, '''        fkey = (ftag << 3) | ftype.WIRE_TYPE

        if not fflags & FLAG_REPEATED:
            repvalue[0] = fvalue
            fvalue = repvalue

        for svalue in fvalue:
''', '''        fkey = (ftag << 3) + ftype.WIRE_TYPE
        values = fvalue if fflags & FLAG_REPEATED else [fvalue]

        for svalue in values:
'''))
ref("c17-fields-items", (PB, '''    for ftag in fields:
        fname, ftype, fflags = fields[ftag]

        fvalue = getattr(msg, fname, None)
''', '''    for ftag, (fname, ftype, fflags) in fields.items():
        fvalue = getattr(msg, fname, None)
'''))
ref("c17-text", (PB, '''                if not isinstance(svalue, bytes):
                    svalue = svalue.encode()

                dump_uvarint(writer, len(svalue))
                writer.write(svalue)
''', '''                raw = svalue if isinstance(svalue, bytes) else svalue.encode()
                dump_uvarint(writer, len(raw))
                writer.write(raw)
'''))
ref("c17-limited", (PB, '''        if self.limit < len(buf):
            raise EOFError
        else:
            nread = self.reader.readinto(buf)
            self.limit -= nread
            return nread
''', '''        want = len(buf)
        if want > self.limit:
            raise EOFError
        nread = self.reader.readinto(buf)
        self.limit = self.limit - nread
        return nread
'''))
ref("c17-convert", (CV, '''                if hasattr(msg, field_name):
                    cval = getattr(msg, field_name, None)
                    setattr(
                        nmsg, field_name, self._transform(cval, src_proto, dst_package)
                    )
            return nmsg
''', '''                if not hasattr(msg, field_name):
                    continue
                value = self._transform(
                    getattr(msg, field_name, None), src_proto, dst_package
                )
                setattr(nmsg, field_name, value)
            return nmsg
'''))
ref("c17-translate", (MI, '''        s = src_entry.multisig_kLRki
        d.multisig_kLRki = MoneroMultisigKLRki(K=s.K, L=s.L, R=s.R, ki=s.ki)
''', '''        k = MoneroMultisigKLRki()
        k.K = src_entry.multisig_kLRki.K
        k.L = src_entry.multisig_kLRki.L
        k.R = src_entry.multisig_kLRki.R
        k.ki = src_entry.multisig_kLRki.ki
        d.multisig_kLRki = k
'''))
ref("c17-dispatch", (TK, '''                res = await self.ki_sync.final(self, msg)
                self.ki_sync = None
                return res

            else:
                raise ValueError("Unknown error")
''', '''                try:
                    return await self.ki_sync.final(self, msg)
                finally:
                    self.ki_sync = None

            raise ValueError("Unknown error")
'''))
