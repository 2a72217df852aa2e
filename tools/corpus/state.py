ALL = ['P02', 'P03', 'P04', 'P05', 'P06', 'P20', 'P21', 'P22', 'P27', 'P30', 'P32']
I, O, F, B, X = 'inputs.go', 'outputs.go', 'fees.go', 'txbuilder.go', 'fees/fees.go'
CASES = [
 ('addin-dup-index', 'P02', [(I, 'if input.PreviousOutPoint.Hash.Equal(&outpoint.Hash) &&\n			input.PreviousOutPoint.Index == outpoint.Index {', 'if input.PreviousOutPoint.Hash.Equal(&outpoint.Hash) {')]),
 ('upd-skip-lt', 'P02', [(I, 'if i == index {\n			continue', 'if i <= index {\n			continue')]),
 ('upd-no-skip', 'P02', [(I, '		if i == index {\n			continue\n		}\n', '		_ = i\n')]),
 ('insert-last', 'P02', [(I, '	for _, input := range tx.MsgTx.TxIn {\n		if input.PreviousOutPoint.Hash.Equal(&utxo.Hash) &&\n			input.PreviousOutPoint.Index == utxo.Index {\n			return errors.Wrapf(ErrDuplicateInput, "%s:%d"', '	for _, input := range tx.MsgTx.TxIn[:index] {\n		if input.PreviousOutPoint.Hash.Equal(&utxo.Hash) &&\n			input.PreviousOutPoint.Index == utxo.Index {\n			return errors.Wrapf(ErrDuplicateInput, "%s:%d"')]),
 ('upd-nokey', 'P03', [(I, '	input.KeyID = utxo.KeyID\n', '	if len(utxo.KeyID) > 0 {\n		input.KeyID = utxo.KeyID\n	}\n')]),
 ('addutxo-seq', 'P03', [(I, '	txin := wire.TxIn{\n		PreviousOutPoint: wire.OutPoint{Hash: utxo.Hash, Index: utxo.Index},\n		Sequence:         wire.MaxTxInSequenceNum,', '	txin := wire.TxIn{\n		PreviousOutPoint: wire.OutPoint{Hash: utxo.Hash, Index: utxo.Index},\n		Sequence:         wire.MaxTxInSequenceNum - 1,')]),
 ('removeout-ge', 'P04', [(O, 'if index >= len(tx.Outputs) || index >= len(tx.MsgTx.TxOut) {', 'if index > len(tx.Outputs) || index >= len(tx.MsgTx.TxOut)+1 {')]),
 ('insert-ge', 'P04', [(I, 'if index > len(tx.MsgTx.TxIn) {', 'if index >= len(tx.MsgTx.TxIn) {')]),
 ('addval-list', 'P04', [(O, 'func (tx *TxBuilder) AddValueToOutput(index uint32, value uint64) error {\n	if int(index) >= len(tx.MsgTx.TxOut) {', 'func (tx *TxBuilder) AddValueToOutput(index uint32, value uint64) error {\n	if int(index) >= len(tx.MsgTx.TxIn) {')]),
 ('setdust-gt', 'P04', [(O, 'func (tx *TxBuilder) SetOutputToDust(index uint32) error {\n	if int(index) >= len(tx.MsgTx.TxOut) {', 'func (tx *TxBuilder) SetOutputToDust(index uint32) error {\n	if int(index) > len(tx.MsgTx.TxOut) {')]),
 ('inputoutput-off', 'P04', [(B, 'if index >= len(tx.Inputs) {\n		return nil', 'if index >= len(tx.Inputs)-1 {\n		return nil')]),
 ('sighash-off', 'P04', [('sig_hash.go', 'if index > len(tx.TxIn)-1 {', 'if index > len(tx.TxIn) {')]),
 ('addval-dustflag', 'P05', [(O, '''		if value < DustLimitForOutput(tx.MsgTx.TxOut[index], tx.DustFeeRate) {
			return ErrBelowDustValue
		}
		tx.Outputs[index].IsDust = false
''', '''		tx.Outputs[index].IsDust = false
		if value < DustLimitForOutput(tx.MsgTx.TxOut[index], tx.DustFeeRate) {
			return ErrBelowDustValue
		}
''')]),
 ('addout-order', 'P05', [(O, '''	outputFee, dust := OutputFeeAndDustForLockingScript(txout.LockingScript, tx.DustFeeRate,
		tx.FeeRate)
	if isDust {
		txout.Value = dust
	} else if value < outputFee && (!tx.SendMax || !isRemainder) &&
		!bitcoin.LockingScriptIsUnspendable(lockScript) {
		// Below dust and not send max output
		return ErrBelowDustValue
	}

	tx.Outputs = append(tx.Outputs, output)
	tx.MsgTx.AddTxOut(txout)''', '''	tx.Outputs = append(tx.Outputs, output)
	outputFee, dust := OutputFeeAndDustForLockingScript(txout.LockingScript, tx.DustFeeRate,
		tx.FeeRate)
	if isDust {
		txout.Value = dust
	} else if value < outputFee && (!tx.SendMax || !isRemainder) &&
		!bitcoin.LockingScriptIsUnspendable(lockScript) {
		// Below dust and not send max output
		return ErrBelowDustValue
	}

	tx.MsgTx.AddTxOut(txout)''')]),
 ('maxout-early', 'P05', [(O, '''	script, err := address.LockingScript()
	if err != nil {
		return err
	}
	tx.SendMax = true
	return''', '''	tx.SendMax = true
	script, err := address.LockingScript()
	if err != nil {
		return err
	}
	return''')]),
 ('fee-query-write', 'P06', [(F, '	o := tx.OutputValue(true)\n	i := tx.InputValue()\n	if o > i {', '	o := tx.OutputValue(true)\n	i := tx.InputValue()\n	if tx.FeeRate < 0 {\n		tx.FeeRate = 0\n	}\n	if o > i {')]),
 ('size-agent', 'P20', [(F, 'agentUnlockingScript.RemoveHardVerify()\n', '')]),
 ('size-multi', 'P20 P30', [(F, 'scriptSize := int(total - required)', 'scriptSize := int(total)')]),
 ('size-varint-in', 'P20', [(F, 'VarIntSerializeSize(unlockData.Size) +\n							int(unlockData.Size)', '1 + int(unlockData.Size)')]),
 ('size-varint', 'P20', [(F, 'if val <= math.MaxUint16 {', 'if val < math.MaxUint16 {')]),
 ('size-out-varint', 'P20', [(F, '		wire.VarIntSerializeSize(uint64(len(tx.MsgTx.TxOut)))\n\n	for i, input', '		wire.VarIntSerializeSize(uint64(len(tx.MsgTx.TxIn)))\n\n	for i, input')]),
 ('fee-float32', 'P21', [(F, 'func EstimatedFeeValue(size uint64, feeRate float64) uint64 {\n	return uint64(math.Ceil(float64(size) * feeRate))', 'func EstimatedFeeValue(size uint64, feeRate float64) uint64 {\n	return uint64(math.Ceil(float64(float32(size) * float32(feeRate))))')]),
 ('fee-round', 'P21', [(F, 'func EstimatedFeeValue(size uint64, feeRate float64) uint64 {\n	return uint64(math.Ceil(', 'func EstimatedFeeValue(size uint64, feeRate float64) uint64 {\n	return uint64(math.Round(')]),
 ('fee-utxo', 'P21', [(I, '		return 0, errors.Wrap(err, "unlock size")\n	}\n	return EstimatedFeeValue(uint64(size), float64(feeRate)), nil\n}\n\nfunc UTXOInput', '		return 0, errors.Wrap(err, "unlock size")\n	}\n	return uint64(float64(size) * float64(feeRate)), nil\n}\n\nfunc UTXOInput')]),
 ('fee-funding', 'P21', [(I, 'estFeeValue = EstimatedFeeValue(estSize, feeRate)\n		neededFunding = estFeeValue + outputValue - inputValue\n		inputValue', 'estFeeValue = EstimatedFeeValueDown(estSize, feeRate)\n		neededFunding = estFeeValue + outputValue - inputValue\n		inputValue')]),
 ('dust-insert', 'P22', [(O, '''		return ErrBelowDustValue
	}

	afterOutputs''', '''		return ErrBelowDustValue
	} else if value == 0 {
		return ErrBelowDustValue
	}

	afterOutputs''')]),
 ('dust-sendmax', 'P22', [(O, '''value < outputFee && (!tx.SendMax || !isRemainder) &&
		!bitcoin.LockingScriptIsUnspendable(lockScript) {
		// Below dust and not send max output
		return ErrBelowDustValue
	}

	tx.Outputs''', '''value < outputFee && !tx.SendMax &&
		!bitcoin.LockingScriptIsUnspendable(lockScript) {
		// Below dust and not send max output
		return ErrBelowDustValue
	}

	tx.Outputs''')]),
 ('dust-le', 'P22', [(O, '''value < outputFee && (!tx.SendMax || !isRemainder) &&
		!bitcoin.LockingScriptIsUnspendable(lockScript) {
		// Below dust and not send max output
		return ErrBelowDustValue
	}

	tx.Outputs''', '''value <= outputFee && (!tx.SendMax || !isRemainder) &&
		!bitcoin.LockingScriptIsUnspendable(lockScript) {
		// Below dust and not send max output
		return ErrBelowDustValue
	}

	tx.Outputs''')]),
 ('dust-min', 'P22', [(O, '	if dust < 1 {\n		return uint64(1)\n	}\n	return uint64(dust)', '	return uint64(dust)')]),
 ('dust-size', 'P22', [(O, '	tx.MsgTx.TxOut[index].Value = DustLimitForOutput(tx.MsgTx.TxOut[index], tx.DustFeeRate)', '	tx.MsgTx.TxOut[index].Value = DustLimit(P2PKHOutputSize, tx.DustFeeRate)')]),
 ('dust-sub', 'P22', [(O, 'tx.MsgTx.TxOut[index].Value-dust < value {', 'tx.MsgTx.TxOut[index].Value-1 < value {')]),
 ('dust-rate', 'P22', [(O, '''	outputFee, dust := OutputFeeAndDustForLockingScript(txout.LockingScript, tx.DustFeeRate,
		tx.FeeRate)
	if isDust {
		txout.Value = dust
	} else if value < outputFee && (!tx.SendMax || !isRemainder) &&
		!bitcoin.LockingScriptIsUnspendable(lockScript) {
		// Below dust and not send max output
		return ErrBelowDustValue
	}

	afterOutputs''', '''	outputFee, dust := OutputFeeAndDustForLockingScript(txout.LockingScript, tx.FeeRate,
		tx.FeeRate)
	if isDust {
		txout.Value = dust
	} else if value < outputFee && (!tx.SendMax || !isRemainder) &&
		!bitcoin.LockingScriptIsUnspendable(lockScript) {
		// Below dust and not send max output
		return ErrBelowDustValue
	}

	afterOutputs''')]),
 ('fees-multi', 'P30', [(X, 'int(total-required) +', 'int(total) +')]),
 ('fees-down', 'P30', [(X, 'math.Ceil(', 'math.Floor(')]),
 ('fees-missing', 'P30', [(X, '	if !txin.UnlockingScript.IsFalseOpReturn() {\n		return 0, MissingUnlockingData\n	}\n\n	protocols := channels.NewProtocols(unlocking_data.NewProtocol())\n	msg, _, err := protocols.Parse(txin.UnlockingScript)\n	if err != nil {\n		return 0, MissingUnlockingData\n	}\n\n	unlockingData, ok := msg.(*unlocking_data.UnlockingData)\n	if !ok {\n		return 0, MissingUnlockingData\n	}\n\n	return unlockingData.Value, nil', '	if !txin.UnlockingScript.IsFalseOpReturn() {\n		return 0, nil\n	}\n\n	protocols := channels.NewProtocols(unlocking_data.NewProtocol())\n	msg, _, err := protocols.Parse(txin.UnlockingScript)\n	if err != nil {\n		return 0, MissingUnlockingData\n	}\n\n	unlockingData, ok := msg.(*unlocking_data.UnlockingData)\n	if !ok {\n		return 0, MissingUnlockingData\n	}\n\n	return unlockingData.Value, nil')]),
 ('fees-sizedust', 'P30', [(X, '	return outputSize, DustLimit(outputSize, dustFeeRate)', '	return len(lockingScript), DustLimit(outputSize, dustFeeRate)')]),
 ('fees-const', 'P30', [(X, 'MaxSignatureSize          = 73 ', 'MaxSignatureSize          = 72 ')]),
 ('chg-break', 'P32', [(O, '			tx.Outputs[i].KeyID = keyID\n', '			tx.Outputs[i].KeyID = keyID\n			break\n')]),
 ('chg-len', 'P32', [(O, 'if output.LockingScript.Equal(lockingScript) {', 'if len(output.LockingScript) == len(lockingScript) {')]),
 ('chg-key', 'P32', [(O, '			tx.Outputs[i].KeyID = keyID\n', '			if len(tx.Outputs[i].KeyID) == 0 {\n				tx.Outputs[i].KeyID = keyID\n			}\n')]),
 ('chg-clear', 'P32', [(O, '			tx.Outputs[i].KeyID = keyID\n		}\n', '			tx.Outputs[i].KeyID = keyID\n		} else {\n			tx.Outputs[i].IsRemainder = false\n		}\n')]),
 ('chg-old', 'P32', [(O, '	tx.ChangeScript = lockingScript\n	tx.ChangeKeyID = keyID\n\n	// Update existing outputs\n	for i, output := range tx.MsgTx.TxOut {\n		if output.LockingScript.Equal(lockingScript)', '	previous := tx.ChangeScript\n	tx.ChangeScript = lockingScript\n	tx.ChangeKeyID = keyID\n\n	// Update existing outputs\n	for i, output := range tx.MsgTx.TxOut {\n		if output.LockingScript.Equal(previous)')]),
 # behaviour preserved
 ('n-spent', '', [(I, '''	for _, input := range tx.MsgTx.TxIn {
		if input.PreviousOutPoint.Hash.Equal(&utxo.Hash) &&
			input.PreviousOutPoint.Index == utxo.Index {
			return errors.Wrapf(ErrDuplicateInput, "%d %s", utxo.Index, utxo.Hash)
		}
	}
''', '''	if tx.spends(utxo.Hash, utxo.Index) {
		return errors.Wrapf(ErrDuplicateInput, "%d %s", utxo.Index, utxo.Hash)
	}
'''), (I, '''	for _, input := range tx.MsgTx.TxIn {
		if input.PreviousOutPoint.Hash.Equal(&outpoint.Hash) &&
			input.PreviousOutPoint.Index == outpoint.Index {
			return errors.Wrapf(ErrDuplicateInput, "%d %s", outpoint.Index, outpoint.Hash)
		}
	}
''', '''	if tx.spends(outpoint.Hash, outpoint.Index) {
		return errors.Wrapf(ErrDuplicateInput, "%d %s", outpoint.Index, outpoint.Hash)
	}
'''), (I, 'func (tx *TxBuilder) UpdateInputUTXO(', '''// spends returns true if an input already spends the output.
func (tx *TxBuilder) spends(hash bitcoin.Hash32, index uint32) bool {
	for i := len(tx.MsgTx.TxIn) - 1; i >= 0; i-- {
		op := &tx.MsgTx.TxIn[i].PreviousOutPoint
		if op.Index != index {
			continue
		}
		if op.Hash.Equal(&hash) {
			return true
		}
	}
	return false
}

func (tx *TxBuilder) UpdateInputUTXO(''')]),
 ('n-upd-struct', '', [(I, '''	input := tx.Inputs[index]
	input.LockingScript = utxo.LockingScript
	input.Value = utxo.Value
	input.KeyID = utxo.KeyID

	tx.MsgTx.TxIn[index].PreviousOutPoint.Hash = utxo.Hash
	tx.MsgTx.TxIn[index].PreviousOutPoint.Index = utxo.Index
''', '''	txin := tx.MsgTx.TxIn[index]
	txin.PreviousOutPoint = wire.OutPoint{Hash: utxo.Hash, Index: utxo.Index}
	*tx.Inputs[index] = InputSupplement{
		LockingScript: utxo.LockingScript,
		Value:         utxo.Value,
		KeyID:         utxo.KeyID,
	}
''')]),
 ('n-insert-grow', '', [(I, '''	afterInputs := make([]*InputSupplement, len(tx.Inputs)-index)
	copy(afterInputs, tx.Inputs[index:])
	tx.Inputs = append(append(tx.Inputs[:index], input), afterInputs...)
''', '''	tx.Inputs = append(tx.Inputs, nil)
	copy(tx.Inputs[index+1:], tx.Inputs[index:])
	tx.Inputs[index] = input
''')]),
 ('n-insert-new', '', [(O, '''	afterOutputs := make([]*OutputSupplement, len(tx.Outputs)-index)
	copy(afterOutputs, tx.Outputs[index:])
	tx.Outputs = append(append(tx.Outputs[:index], output), afterOutputs...)
''', '''	outputs := make([]*OutputSupplement, 0, len(tx.Outputs)+1)
	outputs = append(outputs, tx.Outputs[:index]...)
	outputs = append(outputs, output)
	outputs = append(outputs, tx.Outputs[index:]...)
	tx.Outputs = outputs
''')]),
 ('n-remove-copy', '', [(O, '''	tx.Outputs = append(tx.Outputs[:index], tx.Outputs[index+1:]...)
	tx.MsgTx.TxOut = append(tx.MsgTx.TxOut[:index], tx.MsgTx.TxOut[index+1:]...)
	return nil
}

// AddValue''', '''	copy(tx.Outputs[index:], tx.Outputs[index+1:])
	tx.Outputs = tx.Outputs[:len(tx.Outputs)-1]
	copy(tx.MsgTx.TxOut[index:], tx.MsgTx.TxOut[index+1:])
	tx.MsgTx.TxOut = tx.MsgTx.TxOut[:len(tx.MsgTx.TxOut)-1]
	return nil
}

// AddValue''')]),
 ('n-output-helper', '', [(O, '''	output := &OutputSupplement{
		IsRemainder: isRemainder,
		IsDust:      isDust,
	}

	txout := &wire.TxOut{
		Value:         value,
		LockingScript: lockScript,
	}

	outputFee, dust := OutputFeeAndDustForLockingScript(txout.LockingScript, tx.DustFeeRate,
		tx.FeeRate)
	if isDust {
		txout.Value = dust
	} else if value < outputFee && (!tx.SendMax || !isRemainder) &&
		!bitcoin.LockingScriptIsUnspendable(lockScript) {
		// Below dust and not send max output
		return ErrBelowDustValue
	}

	tx.Outputs = append(tx.Outputs, output)
	tx.MsgTx.AddTxOut(txout)
	return nil
}
''', '''	output, txout, err := tx.newOutput(lockScript, value, isRemainder, isDust)
	if err != nil {
		return err
	}

	tx.MsgTx.AddTxOut(txout)
	tx.Outputs = append(tx.Outputs, output)
	return nil
}

func (tx *TxBuilder) newOutput(lockScript bitcoin.Script, value uint64,
	isRemainder, isDust bool) (*OutputSupplement, *wire.TxOut, error) {

	fee, dust := OutputFeeAndDustForLockingScript(lockScript, tx.DustFeeRate, tx.FeeRate)
	if isDust {
		value = dust
	} else {
		exempt := tx.SendMax && isRemainder || bitcoin.LockingScriptIsUnspendable(lockScript)
		if !exempt && value < fee {
			return nil, nil, ErrBelowDustValue
		}
	}

	return &OutputSupplement{IsRemainder: isRemainder, IsDust: isDust},
		&wire.TxOut{Value: value, LockingScript: lockScript}, nil
}
'''), (O, '''	output := &OutputSupplement{
		IsRemainder: isRemainder,
		IsDust:      isDust,
	}

	txout := &wire.TxOut{
		Value:         value,
		LockingScript: lockScript,
	}

	outputFee, dust := OutputFeeAndDustForLockingScript(txout.LockingScript, tx.DustFeeRate,
		tx.FeeRate)
	if isDust {
		txout.Value = dust
	} else if value < outputFee && (!tx.SendMax || !isRemainder) &&
		!bitcoin.LockingScriptIsUnspendable(lockScript) {
		// Below dust and not send max output
		return ErrBelowDustValue
	}

	afterOutputs''', '''	output, txout, err := tx.newOutput(lockScript, value, isRemainder, isDust)
	if err != nil {
		return err
	}

	afterOutputs''')]),
 ('n-sub', '', [(O, '''	dust := DustLimitForOutput(tx.MsgTx.TxOut[index], tx.DustFeeRate)

	if tx.MsgTx.TxOut[index].Value < dust || tx.MsgTx.TxOut[index].Value-dust < value {
		return fmt.Errorf("Output value too small to subtract : %d - %d (dust %d)",
			tx.MsgTx.TxOut[index].Value, value, dust)
	}

	tx.MsgTx.TxOut[index].Value -= value
''', '''	txout := tx.MsgTx.TxOut[index]
	dust := DustLimitForOutput(txout, tx.DustFeeRate)

	if txout.Value < value || txout.Value-value < dust {
		return fmt.Errorf("Output value too small to subtract : %d - %d (dust %d)",
			txout.Value, value, dust)
	}

	txout.Value = txout.Value - value
''')]),
 ('n-dust', '', [(O, '''	dust := float32((outputSize+DustInputSize)*3) * feeRate
	if dust < 1 {
		return uint64(1)
	}
	return uint64(dust)
''', '''	if dust := float32(3*outputSize+3*DustInputSize) * feeRate; dust >= 1 {
		return uint64(dust)
	}
	return uint64(1)
''')]),
 ('n-varint', '', [(F, '''	if val < 0xfd {
		return 1
	}

	// Discriminant 1 byte plus 2 bytes for the uint16.
	if val <= math.MaxUint16 {
		return 3
	}

	// Discriminant 1 byte plus 4 bytes for the uint32.
	if val <= math.MaxUint32 {
		return 5
	}

	// Discriminant 1 byte plus 8 bytes for the uint64.
	return 9
''', '''	switch {
	case val > math.MaxUint32:
		return 9
	case val > math.MaxUint16:
		return 5
	case val >= 253:
		return 3
	default:
		return 1
	}
''')]),
 ('n-size-helper', '', [(F, '''			txin := tx.MsgTx.TxIn[i]
			if txin.UnlockingScript.IsFalseOpReturn() {
				protocols := channels.NewProtocols(unlocking_data.NewProtocol())
				msg, _, err := protocols.Parse(txin.UnlockingScript)
				if err == nil {
					unlockData, ok := msg.(*unlocking_data.UnlockingData)
					if ok {
						result += InputBaseSize + // outpoint + sequence
							VarIntSerializeSize(unlockData.Size) +
							int(unlockData.Size)
						continue
					}
				}
			}
		}
''', '''			if unlockData := embedded(tx.MsgTx.TxIn[i].UnlockingScript); unlockData != nil {
				result += InputBaseSize + // outpoint + sequence
					VarIntSerializeSize(unlockData.Size) + int(unlockData.Size)
				continue
			}
		}
'''), (F, '''			txin := tx.MsgTx.TxIn[i]
			if txin.UnlockingScript.IsFalseOpReturn() {
				protocols := channels.NewProtocols(unlocking_data.NewProtocol())
				msg, _, err := protocols.Parse(txin.UnlockingScript)
				if err == nil {
					unlockData, ok := msg.(*unlocking_data.UnlockingData)
					if ok {
						inputValue += unlockData.Value
						continue
					}
				}
			}
		}
''', '''			if unlockData := embedded(tx.MsgTx.TxIn[i].UnlockingScript); unlockData != nil {
				inputValue += unlockData.Value
				continue
			}
		}
'''), (F, '// OutputValue returns', '''func embedded(script bitcoin.Script) *unlocking_data.UnlockingData {
	if !script.IsFalseOpReturn() {
		return nil
	}
	msg, _, err := channels.NewProtocols(unlocking_data.NewProtocol()).Parse(script)
	if err != nil {
		return nil
	}
	unlockData, ok := msg.(*unlocking_data.UnlockingData)
	if !ok {
		return nil
	}
	return unlockData
}

// OutputValue returns''')]),
 ('n-size-order', '', [(F, '''	for _, output := range tx.MsgTx.TxOut {
		result += output.SerializeSize()
	}

	return result
''', '''	outputs := 0
	for i := range tx.MsgTx.TxOut {
		outputs += OutputSize(tx.MsgTx.TxOut[i].LockingScript)
	}

	return result + outputs
''')]),
 ('n-change', '', [(O, '''	tx.ChangeScript = lockingScript
	tx.ChangeKeyID = keyID

	// Update existing outputs
	for i, output := range tx.MsgTx.TxOut {
		if output.LockingScript.Equal(lockingScript) {
			tx.Outputs[i].IsRemainder = true
			tx.Outputs[i].KeyID = keyID
		}
	}

	return nil
''', '''	for i, supplement := range tx.Outputs {
		if !bytes.Equal(tx.MsgTx.TxOut[i].LockingScript, lockingScript) {
			continue
		}
		supplement.KeyID = keyID
		supplement.IsRemainder = true
	}

	tx.ChangeKeyID = keyID
	tx.ChangeScript = lockingScript
	return nil
'''), (O, '	"fmt"\n', '	"bytes"\n	"fmt"\n')]),
 ('n-copyscript', '', [(O, '	tx.ChangeScript = lockingScript\n', '	tx.ChangeScript = lockingScript.Copy()\n')]),
 ('n-fees', '', [(X, '''	if inputOutput.Value != 0 {
		return inputOutput.Value, nil
	}

	if !txin.UnlockingScript.IsFalseOpReturn() {
		return 0, MissingUnlockingData
	}

	protocols := channels.NewProtocols(unlocking_data.NewProtocol())
	msg, _, err := protocols.Parse(txin.UnlockingScript)
	if err != nil {
		return 0, MissingUnlockingData
	}

	unlockingData, ok := msg.(*unlocking_data.UnlockingData)
	if !ok {
		return 0, MissingUnlockingData
	}

	return unlockingData.Value, nil
''', '''	if inputOutput.Value != 0 {
		return inputOutput.Value, nil
	}

	unlockingData, err := unlockingDataOf(txin)
	if err != nil {
		return 0, err
	}

	return unlockingData.Value, nil
'''), (X, 'func InputSizeForUnlockingScriptSize', '''func unlockingDataOf(txin *wire.TxIn) (*unlocking_data.UnlockingData, error) {
	if !txin.UnlockingScript.IsFalseOpReturn() {
		return nil, MissingUnlockingData
	}

	protocols := channels.NewProtocols(unlocking_data.NewProtocol())
	msg, _, err := protocols.Parse(txin.UnlockingScript)
	if err != nil {
		return nil, MissingUnlockingData
	}

	unlockingData, ok := msg.(*unlocking_data.UnlockingData)
	if !ok {
		return nil, MissingUnlockingData
	}
	return unlockingData, nil
}

func InputSizeForUnlockingScriptSize'''), (X, '''	// The locking script is not known so the only way we can estimate the final size is if
	// unlocking data has been encoded in the unlocking script.
	if !txin.UnlockingScript.IsFalseOpReturn() {
		return 0, MissingUnlockingData
	}

	protocols := channels.NewProtocols(unlocking_data.NewProtocol())
	msg, _, err := protocols.Parse(txin.UnlockingScript)
	if err != nil {
		return 0, MissingUnlockingData
	}

	unlockingData, ok := msg.(*unlocking_data.UnlockingData)
	if !ok {
		return 0, MissingUnlockingData
	}
''', '''	unlockingData, err := unlockingDataOf(txin)
	if err != nil {
		return 0, err
	}
''')]),
 ('n-fees-size', '', [(X, '		return InputBaseSize + // outpoint + sequence\n				wire.VarIntSerializeSize(uint64(unlockingSize)) + unlockingSize, // script\n			nil', '		return InputSizeForUnlockingScriptSize(unlockingSize), nil')]),
 ('n-utxofee', '', [(I, '''	size, err := InputSize(utxo.LockingScript)
	if err != nil {
		return 0, errors.Wrap(err, "unlock size")
	}
	return EstimatedFeeValue(uint64(size), float64(feeRate)), nil
}

func UTXOInput''', '''	_, fee, err := UTXOInputSizeAndFee(utxo, feeRate)
	return fee, err
}

func UTXOInput''')]),
]
