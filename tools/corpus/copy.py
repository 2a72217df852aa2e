ALL = ['P01', 'P06', 'P07', 'P25', 'P27']
B, M = 'txbuilder.go', 'models.go'
UTXO = '''		found := false
		for _, utxo := range utxos {
			if utxo.Hash.Equal(&input.PreviousOutPoint.Hash) &&
				utxo.Index == input.PreviousOutPoint.Index {
				// Add input
				result.Inputs[i] = &InputSupplement{
					LockingScript: utxo.LockingScript,
					Value:         utxo.Value,
					KeyID:         utxo.KeyID,
				}
				found = true
				break
			}
		}
		if !found {
			result.Inputs[i] = &InputSupplement{}
			missingErr = ErrMissingInputData
		}
'''
WIRE = '''		found := false
		for _, inputTx := range inputs {
			txHash := inputTx.TxHash()
			if bytes.Equal(txHash[:], input.PreviousOutPoint.Hash[:]) &&
				int(input.PreviousOutPoint.Index) < len(inputTx.TxOut) {
				// Add input
				result.Inputs[i] = &InputSupplement{
					LockingScript: inputTx.TxOut[input.PreviousOutPoint.Index].LockingScript,
					Value:         uint64(inputTx.TxOut[input.PreviousOutPoint.Index].Value),
				}
				found = true
				break
			}
		}
		if !found {
			result.Inputs[i] = &InputSupplement{}
			missingErr = ErrMissingInputData
		}
'''
CASES = [
 ('copy-script', 'P07', [(B, 'ChangeScript: tx.ChangeScript.Copy(),', 'ChangeScript: tx.ChangeScript,')]),
 ('copy-inscript', 'P07', [(B, '		LockingScript: input.LockingScript.Copy(),', '		LockingScript: input.LockingScript,')]),
 ('copy-dust', 'P07', [(B, '		IsDust:      output.IsDust,\n', '')]),
 ('copy-sendmax', 'P07', [(B, '		SendMax:      tx.SendMax,\n', '')]),
 ('copy-fee', 'P07', [(B, '		DustFeeRate:  tx.DustFeeRate,\n		ChangeKeyID:', '		DustFeeRate:  tx.FeeRate,\n		ChangeKeyID:')]),
 ('copy-msg', 'P07', [(B, '	copyMsgTx := tx.MsgTx.Copy()\n	result.MsgTx = &copyMsgTx', '	copyMsgTx := *tx.MsgTx\n	result.MsgTx = &copyMsgTx')]),
 ('copy-outptr', 'P07', [(B, '		c := output.Copy()\n		result.Outputs[i] = &c', '		if output.IsDust {\n			result.Outputs[i] = output\n			continue\n		}\n		c := output.Copy()\n		result.Outputs[i] = &c')]),
 ('copy-hoist', 'P07', [(B, '	for i, output := range tx.Outputs {\n		c := output.Copy()\n', '	var c OutputSupplement\n	for i, output := range tx.Outputs {\n		c = output.Copy()\n')]),
 ('copy-added', 'P07', [(B, '		addedForFee: output.addedForFee,\n', '		addedForFee: output.addedForFee && output.IsRemainder,\n')]),
 ('copy-inputs-slice', 'P07', [(B, '		Inputs:       make([]*InputSupplement, len(tx.Inputs)),', '		Inputs:       tx.Inputs[:len(tx.Inputs)],'), (B, '		result.Inputs[i] = &c', '		*result.Inputs[i] = c')]),
 ('imp-index', 'P25', [(B, 'if utxo.Hash.Equal(&input.PreviousOutPoint.Hash) &&\n				utxo.Index == input.PreviousOutPoint.Index {', 'if utxo.Hash.Equal(&input.PreviousOutPoint.Hash) {')]),
 ('imp-value', 'P25', [(B, 'Value:         uint64(inputTx.TxOut[input.PreviousOutPoint.Index].Value),', 'Value:         uint64(inputTx.TxOut[0].Value),')]),
 ('imp-key', 'P25', [(B, '					KeyID:         utxo.KeyID,\n', '')]),
 ('imp-err-reset', 'P25', [(B, UTXO, UTXO.replace('found = true\n', 'found = true\n				missingErr = nil\n'))]),
 ('imp-break', 'P25', [(B, UTXO, UTXO.replace('			missingErr = ErrMissingInputData\n', '			missingErr = ErrMissingInputData\n			break\n'))]),
 ('imp-last', 'P25', [(B, UTXO, UTXO.replace('range utxos {', 'range utxos[:len(utxos)-1] {'))]),
 ('imp-nilrec', 'P25', [(B, UTXO, UTXO.replace('			result.Inputs[i] = &InputSupplement{}\n			missing', '			missing'))]),
 ('imp-gt', 'P25', [(B, WIRE, WIRE.replace('PreviousOutPoint.Index) < len', 'PreviousOutPoint.Index) <= len'))]),
 ('imp-lt', 'P25', [(B, WIRE, WIRE.replace('PreviousOutPoint.Index) < len(inputTx.TxOut)', 'PreviousOutPoint.Index) < len(inputTx.TxOut)-1'))]),
 ('imp-out-nohash', 'P25', [(B, '		output, err := tx.InputOutput(index)\n', '		output, err := tx.InputOutput(int(txin.PreviousOutPoint.Index))\n')]),
 ('imp-out-err', 'P25', [(B, '			return nil, errors.Wrapf(err, "input %d output", index)\n', '			result.Inputs[index] = &InputSupplement{}\n			continue\n')]),
 ('n-copy-append', '', [(B, '		Inputs:       make([]*InputSupplement, len(tx.Inputs)),', '		Inputs:       make([]*InputSupplement, 0, len(tx.Inputs)),'), (B, '	for i, input := range tx.Inputs {\n		c := input.Copy()\n		result.Inputs[i] = &c', '	for _, input := range tx.Inputs {\n		c := input.Copy()\n		result.Inputs = append(result.Inputs, &c)')]),
 ('n-copy-direct', '', [(B, '		c := output.Copy()\n		result.Outputs[i] = &c', '		c := *output\n		result.Outputs[i] = &c')]),
 ('n-copy-start', '', [(B, '''	result := TxBuilder{
		Inputs:       make([]*InputSupplement, len(tx.Inputs)),
		Outputs:      make([]*OutputSupplement, len(tx.Outputs)),
		ChangeScript: tx.ChangeScript.Copy(),
		FeeRate:      tx.FeeRate,
		SendMax:      tx.SendMax,
		DustFeeRate:  tx.DustFeeRate,
		ChangeKeyID:  CopyString(tx.ChangeKeyID),
	}
''', '''	result := tx
	result.Inputs = make([]*InputSupplement, len(tx.Inputs))
	result.Outputs = make([]*OutputSupplement, len(tx.Outputs))
	result.ChangeScript = tx.ChangeScript.Copy()
''')]),
 ('n-copy-helper', '', [(B, '''	for i, input := range tx.Inputs {
		c := input.Copy()
		result.Inputs[i] = &c
	}
''', '''	result.Inputs = copyInputs(tx.Inputs)
'''), (B, 'func CopyString(', '''func copyInputs(inputs []*InputSupplement) []*InputSupplement {
	result := make([]*InputSupplement, len(inputs))
	for i := range inputs {
		c := inputs[i].Copy()
		result[i] = &c
	}
	return result
}

func CopyString(''')]),
 ('n-copy-scriptappend', '', [(B, '		LockingScript: input.LockingScript.Copy(),', '		LockingScript: append(bitcoin.Script(nil), input.LockingScript...),')]),
 ('n-imp-helper', '', [(B, UTXO, '''		result.Inputs[i] = supplementFor(input, utxos)
		if result.Inputs[i] == nil {
			result.Inputs[i] = &InputSupplement{}
			missingErr = ErrMissingInputData
		}
'''), (B, 'func CopyString(', '''func supplementFor(input *wire.TxIn, utxos []bitcoin.UTXO) *InputSupplement {
	for _, utxo := range utxos {
		if utxo.Index == input.PreviousOutPoint.Index && utxo.Hash.Equal(&input.PreviousOutPoint.Hash) {
			return &InputSupplement{
				LockingScript: utxo.LockingScript,
				Value:         utxo.Value,
				KeyID:         utxo.KeyID,
			}
		}
	}
	return nil
}

func CopyString(''')]),
 ('n-imp-index', '', [(B, UTXO, '''		result.Inputs[i] = &InputSupplement{}
		match := -1
		for u := 0; u < len(utxos) && match < 0; u++ {
			if utxos[u].Hash.Equal(&input.PreviousOutPoint.Hash) &&
				utxos[u].Index == input.PreviousOutPoint.Index {
				match = u
			}
		}
		if match < 0 {
			missingErr = ErrMissingInputData
			continue
		}
		result.Inputs[i].LockingScript = utxos[match].LockingScript
		result.Inputs[i].Value = utxos[match].Value
		result.Inputs[i].KeyID = utxos[match].KeyID
''')]),
 ('n-imp-wire', '', [(B, WIRE, '''		supplement := &InputSupplement{}
		missing := true
		for _, inputTx := range inputs {
			if !inputTx.TxHash().Equal(&input.PreviousOutPoint.Hash) {
				continue
			}
			if int(input.PreviousOutPoint.Index) >= len(inputTx.TxOut) {
				continue
			}
			spent := inputTx.TxOut[input.PreviousOutPoint.Index]
			supplement.LockingScript = spent.LockingScript
			supplement.Value = spent.Value
			missing = false
			break
		}
		if missing {
			missingErr = ErrMissingInputData
		}
		result.Inputs[i] = supplement
''')]),
 ('n-imp-append', '', [(B, '''		Inputs:      make([]*InputSupplement, len(tx.TxIn)),
	}

	// Setup inputs
	var missingErr error
	for i, input := range result.MsgTx.TxIn {
''' + UTXO, '''	}

	// Setup inputs
	var missingErr error
	for _, input := range tx.TxIn {
''' + UTXO.replace('result.Inputs[i] = &InputSupplement{', 'supplement = &InputSupplement{').replace('found := false', 'found := false\n		var supplement *InputSupplement') + '		result.Inputs = append(result.Inputs, supplement)\n')]),
 ('n-imp-outputs', '', [(B, '''	for index := 0; index < inputCount; index++ {
		txin := tx.Input(index)
		if txin.PreviousOutPoint.Hash.IsZero() {
			result.Inputs[index] = &InputSupplement{}
			continue
		}

		output, err := tx.InputOutput(index)
		if err != nil {
			return nil, errors.Wrapf(err, "input %d output", index)
		}

		result.Inputs[index] = &InputSupplement{
			LockingScript: output.LockingScript,
			Value:         output.Value,
		}
	}
''', '''	for index := range result.Inputs {
		supplement := &InputSupplement{}
		if !tx.Input(index).PreviousOutPoint.Hash.IsZero() {
			output, err := tx.InputOutput(index)
			if err != nil {
				return nil, errors.Wrapf(err, "input %d output", index)
			}
			supplement.LockingScript = output.LockingScript
			supplement.Value = output.Value
		}
		result.Inputs[index] = supplement
	}
''')]),
]
