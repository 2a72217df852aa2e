ALL = ['P08', 'P09']
CASES = [
 ('anyone-seq', 'P08', [('sig_hash.go', '	if hashType&SigHashAnyOneCanPay == 0 &&\n		hashType&sigHashTypeMask != SigHashSingle &&', '	if hashType&sigHashTypeMask != SigHashSingle &&')]),
 ('single-index', 'P08', [('sig_hash.go', 'SigHashSingle && index < len(tx.TxOut) {', 'SigHashSingle && index < len(tx.TxOut)-1 {')]),
 ('value-be', 'P08', [('sig_hash.go', 'binary.Write(w, binary.LittleEndian, value)', 'binary.Write(w, binary.BigEndian, value)')]),
 ('no-forkid', 'P08', [('sig_hash.go', 'uint32(hashType|SigHashForkID))', 'uint32(hashType))')]),
 ('none-mask', 'P08', [('sig_hash.go', 'hashType&sigHashTypeMask != SigHashNone {', 'hashType != SigHashNone {')]),
 ('outputs-mask', 'P08', [('sig_hash.go', 'if hashType&SigHashSingle != SigHashSingle && hashType&SigHashNone != SigHashNone {', 'if hashType&SigHashSingle != SigHashSingle {')]),
 ('swap-order', 'P08', [('sig_hash.go', '	binary.Write(w, binary.LittleEndian, value)\n	binary.Write(w, binary.LittleEndian, tx.TxIn[index].Sequence)', '	binary.Write(w, binary.LittleEndian, tx.TxIn[index].Sequence)\n	binary.Write(w, binary.LittleEndian, value)')]),
 ('single-hash', 'P08', [('sig_hash.go', 'bitcoin.Hash32(sha256.Sum256(s.Sum(nil)))', 'bitcoin.Hash32(sha256.Sum256(nil))')]),
 ('sep-first', 'P08', [('sig_hash.go', 'for i := itemCount - 1; i >= 0; i-- {', 'for i := 0; i < itemCount; i++ {')]),
 ('sep-incl', 'P08', [('sig_hash.go', 'return items[i+1:].Script()', 'return items[i:].Script()')]),
 ('sep-skip-first', 'P08', [('sig_hash.go', 'for i := itemCount - 1; i >= 0; i-- {', 'for i := itemCount - 1; i > 0; i-- {')]),
 ('prevouts-skip', 'P08 P09', [('sig_hash.go', '''	for _, in := range tx.TxIn {
		in.PreviousOutPoint''', '''	for i, in := range tx.TxIn {
		if i > 255 {
			break
		}
		in.PreviousOutPoint''')]),
 ('cache-cross', 'P09', [('sig_hash.go', '	shc.hashOutputs = bitcoin.DoubleSha256(buf.Bytes())\n	return shc.hashOutputs', '	shc.hashSequence = bitcoin.DoubleSha256(buf.Bytes())\n	return shc.hashSequence')]),
 ('cache-len', 'P09', [('sig_hash.go', '	if shc.hashOutputs != nil {\n		return shc.hashOutputs', '	if shc.hashOutputs != nil && len(tx.TxOut) > 0 {\n		return shc.hashSequence')]),
 ('clear-miss', 'P09', [('sig_hash.go', '	shc.hashSequence = nil\n', '')]),
 ('clearout-wrong', 'P09', [('sig_hash.go', 'func (shc *SigHashCache) ClearOutputs() {\n	shc.hashOutputs = nil', 'func (shc *SigHashCache) ClearOutputs() {\n	shc.hashSequence = nil')]),
 # behaviour preserved
 ('n-loop', '', [('sig_hash.go', '	for _, in := range tx.TxIn {\n		in.PreviousOutPoint.Serialize(&buf)', '	for i := 0; i < len(tx.TxIn); i++ {\n		tx.TxIn[i].PreviousOutPoint.Serialize(&buf)')]),
 ('n-helper', '', [('sig_hash.go', '	// Next, add the input amount, and sequence number of the input being signed.\n	binary.Write(w, binary.LittleEndian, value)\n	binary.Write(w, binary.LittleEndian, tx.TxIn[index].Sequence)', '	writeAmount(w, tx.TxIn[index], value)'),
   ('sig_hash.go', '// afterOpCodeSeparator returns', 'func writeAmount(w io.Writer, in *wire.TxIn, value uint64) {\n	binary.Write(w, binary.LittleEndian, value)\n	binary.Write(w, binary.LittleEndian, in.Sequence)\n}\n\n// afterOpCodeSeparator returns')]),
 ('n-buffer', '', [('sig_hash.go', 'return fmt.Errorf("SignatureHash error: index %d but %d txins", index, len(tx.TxIn))\n	}\n', 'return fmt.Errorf("SignatureHash error: index %d but %d txins", index, len(tx.TxIn))\n	}\n	input := tx.TxIn[index]\n'),
   ('sig_hash.go', 'tx.TxIn[index].PreviousOutPoint.Serialize(w)', 'input.PreviousOutPoint.Serialize(w)'), ('sig_hash.go', 'binary.LittleEndian, tx.TxIn[index].Sequence', 'binary.LittleEndian, input.Sequence')]),
 ('n-digest', '', [('sig_hash.go', '''	s := sha256.New()

	if err := writeSignatureHashPreimageBytes(s, tx, index, lockScript, value, hashType,
		hashCache); err != nil {
		return nil, errors.Wrap(err, "write sig hash bytes")
	}

	hash := bitcoin.Hash32(sha256.Sum256(s.Sum(nil)))
''', '''	preimage, err := SignaturePreimage(tx, index, lockScript, value, hashType, hashCache)
	if err != nil {
		return nil, err
	}

	first := sha256.Sum256(preimage)
	hash := bitcoin.Hash32(sha256.Sum256(first[:]))
''')]),
 ('n-cacheif', '', [('sig_hash.go', '''	if shc.hashOutputs != nil {
		return shc.hashOutputs
	}

	var buf bytes.Buffer
	for _, out := range tx.TxOut {
		out.Serialize(&buf, 0, 0)
	}

	shc.hashOutputs = bitcoin.DoubleSha256(buf.Bytes())
	return shc.hashOutputs
''', '''	if shc.hashOutputs == nil {
		var buf bytes.Buffer
		for _, out := range tx.TxOut {
			out.Serialize(&buf, 0, 0)
		}

		hash := bitcoin.DoubleSha256(buf.Bytes())
		shc.hashOutputs = hash
		return hash
	}

	return shc.hashOutputs
''')]),
 ('n-mask', '', [('sig_hash.go', 'if hashType&SigHashSingle != SigHashSingle && hashType&SigHashNone != SigHashNone {', 'if base := hashType & sigHashTypeMask; base != SigHashSingle && base != SigHashNone {')]),
 ('n-sep', '', [('sig_hash.go', '''	itemCount := len(items)
	for i := itemCount - 1; i >= 0; i-- {
		item := items[i]
		if item.Type == bitcoin.ScriptItemTypeOpCode && item.OpCode == bitcoin.OP_CODESEPARATOR {
			if i == itemCount-1 {
				return nil, nil // OP_CODESEPARATOR is the last op code of the script
			}

			return items[i+1:].Script()
		}
	}

	// No OP_CODESEPARATOR found so return the full locking script.
	return lockScript, nil
''', '''	last := -1
	for i, item := range items {
		if item.Type == bitcoin.ScriptItemTypeOpCode && item.OpCode == bitcoin.OP_CODESEPARATOR {
			last = i
		}
	}
	if last == -1 {
		return lockScript, nil
	}
	if last == len(items)-1 {
		return nil, nil
	}
	return items[last+1:].Script()
''')]),
]
