# edits for P15-P19: fee adjustment and funding
F, I, B = 'fees.go', 'inputs.go', 'break_value.go'
ALL = ['P15', 'P16', 'P17', 'P19']
FIND = '''	changeOutputIndex := 0xffffffff
	for i, output := range tx.Outputs {
		if output.IsRemainder {
			changeOutputIndex = i
			break
		}
	}
'''
CASES = [
 ('find-last-any', 'P16', [(F, FIND, FIND.replace('if output.IsRemainder {', 'if output.IsRemainder || output.IsDust {'))]),
 ('find-default', 'P16', [(F, FIND, FIND.replace('0xffffffff', 'len(tx.Outputs) - 1'))]),
 ('find-off', 'P16', [(F, FIND, FIND.replace('changeOutputIndex = i\n', 'changeOutputIndex = i\n			if i > 3 {\n				changeOutputIndex = i - 1\n			}\n'))]),
 ('remove-any', 'P16', [(F, 'if !tx.Outputs[changeOutputIndex].addedForFee {', 'if !tx.Outputs[changeOutputIndex].addedForFee && tx.FeeRate < 1 {')]),
 ('fund-first', 'P16', [(I, '''					if output.IsRemainder {
						// Updating existing "change" output
						tx.MsgTx.TxOut[i].Value += change
''', '''					if output.IsRemainder || len(tx.ChangeScript) == 0 {
						// Updating existing "change" output
						tx.MsgTx.TxOut[i].Value += change
''')]),
 ('bc-fund-first', 'P16', [(I, '''					if output.IsRemainder {
						// Updating existing "change" output
						tx.MsgTx.TxOut[i].Value += changeValue
''', '''					if output.IsRemainder || output.IsDust {
						// Updating existing "change" output
						tx.MsgTx.TxOut[i].Value += changeValue
''')]),
 ('fix-script', 'P16', [(F, '''			// Increase change, thereby decreasing the fee
''', '''			// Increase change, thereby decreasing the fee
			if len(tx.ChangeScript) > 0 {
				tx.MsgTx.TxOut[0].LockingScript = tx.ChangeScript
			}
''')]),
 ('mark', 'P16', [(F, '''	done := false

	// Find change output
''', '''	done := false
	if len(tx.Outputs) == 1 {
		tx.Outputs[0].IsRemainder = true
	}

	// Find change output
''')]),
 # added outputs
 ('keyid', 'P17', [(F, 'tx.Outputs[len(tx.Outputs)-1].KeyID = tx.ChangeKeyID\n				tx.Outputs', 'tx.Outputs[0].KeyID = tx.ChangeKeyID\n				tx.Outputs')]),
 ('no-keyid', 'P17', [(I, '					tx.Outputs[len(tx.Outputs)-1].KeyID = tx.ChangeKeyID\n', '					if tx.Outputs[0].KeyID != "" {\n						tx.Outputs[len(tx.Outputs)-1].KeyID = tx.ChangeKeyID\n					}\n')]),
 ('no-rem', 'P17', [(F, 'tx.AddOutput(tx.ChangeScript, adjustment, true, false)', 'tx.AddOutput(tx.ChangeScript, adjustment, len(tx.Outputs) > 0, false)')]),
 ('no-rem2', 'P17', [(I, 'tx.AddOutput(tx.ChangeScript, change, true, false)', 'tx.AddOutput(tx.ChangeScript, change, false, false)')]),
 ('script', 'P17', [(I, 'tx.AddOutput(tx.ChangeScript, change, true, false)', 'tx.AddOutput(utxo.LockingScript, change, true, false)')]),
 ('added', 'P17', [(I, '					tx.Outputs[len(tx.Outputs)-1].KeyID = tx.ChangeKeyID\n', '					tx.Outputs[len(tx.Outputs)-1].KeyID = tx.ChangeKeyID\n					tx.Outputs[len(tx.Outputs)-1].addedForFee = true\n')]),
 ('bv-key', 'P17 P24', [(B, '				KeyID: address.KeyID,\n', '				KeyID: addresses[0].KeyID,\n')]),
 # amounts
 ('am-drop', 'P15', [(F, '			adjustment := uint64(-amount) - changeOutputFee\n', '			adjustment := uint64(-amount)\n')]),
 ('am-inc', 'P15', [(F, 'tx.MsgTx.TxOut[changeOutputIndex].Value += uint64(-amount)', 'tx.MsgTx.TxOut[changeOutputIndex].Value += uint64(-amount) - 1')]),
 ('am-dec', 'P15', [(F, 'changeValue := tx.MsgTx.TxOut[changeOutputIndex].Value - uint64(amount)', 'changeValue := tx.MsgTx.TxOut[changeOutputIndex].Value - uint64(amount)/2')]),
 ('am-keepdust', 'P15', [(F, 'if changeValue < outputFee+inputFee {\n			if', 'if changeValue <= 2*(outputFee+inputFee) {\n			if')]),
 ('am-size', 'P15', [(F, 'newSize = currentSize + uint64(OutputSize(tx.ChangeScript))', 'newSize = currentSize + P2PKHOutputSize')]),
 ('am-early', 'P15', [(F, 'if changeOutputFee > uint64(-amount) {', 'if changeOutputFee*100 > uint64(-amount) {')]),
 ('am-zero', 'P15', [(F, '	if amount == int64(0) {\n		return true, nil', '	if amount >= -5 && amount <= 5 {\n		return true, nil')]),
 ('am-dust', 'P15', [(F, 'if adjustment > outputFee+inputFee {\n				if', 'if adjustment > 3*outputFee+inputFee {\n				if')]),
 # sweep
 ('sw-break', 'P19', [(I, '''		neededFunding += inputFee // Add cost of input

		if tx.SendMax {
			continue
''', '''		neededFunding += inputFee // Add cost of input

		if tx.SendMax {
			if len(tx.Inputs) > 250 {
				break
			}
			continue
''')]),
 ('sw-early', 'P19', [(I, 'if !tx.SendMax && inputValue > outputValue && inputValue-outputValue >= estFeeValue {\n		return tx', 'if inputValue > outputValue && inputValue-outputValue >= 2*estFeeValue {\n		return tx')]),
 ('sw-nofee', 'P19', [(I, '''	if tx.SendMax {
		return tx.CalculateFee()
	} else {''', '''	if tx.SendMax {
		if duplicateValue > 0 {
			return nil
		}
		return tx.CalculateFee()
	} else {''')]),
 ('sw-bc', 'P19', [(I, '''		inputValue += utxo.Value

		if tx.SendMax {
			continue
''', '''		inputValue += utxo.Value

		if tx.SendMax && neededFunding > breakValue {
			continue
''')]),
 ('sw-skip', 'P19', [(I, '''	for _, utxo := range utxos {
		if err := tx.AddInputUTXO(utxo); err != nil {
			if errors.Cause(err) == ErrDuplicateInput {
				duplicateValue += utxo.Value
				continue
			}
			return errors.Wrap(err, "adding input")
		}

		inputFee, err''', '''	for _, utxo := range utxos {
		if utxo.Value < changeDustLimit {
			continue
		}
		if err := tx.AddInputUTXO(utxo); err != nil {
			if errors.Cause(err) == ErrDuplicateInput {
				duplicateValue += utxo.Value
				continue
			}
			return errors.Wrap(err, "adding input")
		}

		inputFee, err''')]),
 # behaviour preserved
 ('n-find-helper', '', [(F, FIND, '	changeOutputIndex := tx.firstRemainder()\n'),
    (F, '// adjustFee adjusts', '''func (tx *TxBuilder) firstRemainder() int {
	for i, output := range tx.Outputs {
		if output.IsRemainder {
			return i
		}
	}
	return 0xffffffff
}

// adjustFee adjusts''')]),
 ('n-find-loop', '', [(F, FIND, '''	changeOutputIndex := 0xffffffff
	for i := 0; i < len(tx.Outputs) && changeOutputIndex == 0xffffffff; i++ {
		if tx.Outputs[i].IsRemainder {
			changeOutputIndex = i
		}
	}
''')]),
 ('n-find-back', '', [(F, FIND, '''	changeOutputIndex := 0xffffffff
	for i := len(tx.Outputs) - 1; i >= 0; i-- {
		if tx.Outputs[i].IsRemainder {
			changeOutputIndex = i
		}
	}
''')]),
 ('n-txout-var', '', [(F, '''		changeValue := tx.MsgTx.TxOut[changeOutputIndex].Value - uint64(amount)

		outputFee, inputFee, _ := OutputTotalCost(tx.MsgTx.TxOut[changeOutputIndex].LockingScript,
			tx.FeeRate)
''', '''		changeOutput := tx.MsgTx.TxOut[changeOutputIndex]
		outputFee, inputFee, _ := OutputTotalCost(changeOutput.LockingScript, tx.FeeRate)
		changeValue := changeOutput.Value - uint64(amount)
''')]),
 ('n-remove-helper', '', [(F, '''			tx.MsgTx.TxOut = append(tx.MsgTx.TxOut[:changeOutputIndex],
				tx.MsgTx.TxOut[changeOutputIndex+1:]...)
			tx.Outputs = append(tx.Outputs[:changeOutputIndex], tx.Outputs[changeOutputIndex+1:]...)
''', '''			tx.dropOutput(changeOutputIndex)
'''), (F, '// adjustFee adjusts', '''func (tx *TxBuilder) dropOutput(index int) {
	tx.Outputs = append(tx.Outputs[:index], tx.Outputs[index+1:]...)
	tx.MsgTx.TxOut = append(tx.MsgTx.TxOut[:index], tx.MsgTx.TxOut[index+1:]...)
}

// adjustFee adjusts''')]),
 ('n-add-helper', '', [(F, '''				if err := tx.AddOutput(tx.ChangeScript, adjustment, true, false); err != nil {
					return false, err
				}

				tx.Outputs[len(tx.Outputs)-1].KeyID = tx.ChangeKeyID
				tx.Outputs[len(tx.Outputs)-1].addedForFee = true
''', '''				if err := tx.addChange(adjustment); err != nil {
					return false, err
				}
'''), (F, '// adjustFee adjusts', '''func (tx *TxBuilder) addChange(value uint64) error {
	if err := tx.AddOutput(tx.ChangeScript, value, true, false); err != nil {
		return err
	}

	output := tx.Outputs[len(tx.Outputs)-1]
	output.addedForFee = true
	output.KeyID = tx.ChangeKeyID
	return nil
}

// adjustFee adjusts''')]),
 ('n-split', '', [(F, '''	if amount > int64(0) {
		// Increase fee, transfer from change
		if changeOutputIndex == 0xffffffff {
			return false, errors.Wrap(ErrInsufficientValue, "No existing change for tx fee")
		}
''', '''	if amount > int64(0) {
		return tx.increaseFee(amount, changeOutputIndex)
	}
	return tx.decreaseFee(amount, changeOutputIndex)
}

func (tx *TxBuilder) increaseFee(amount int64, changeOutputIndex int) (bool, error) {
	done := false
	{
		// Increase fee, transfer from change
		if changeOutputIndex == 0xffffffff {
			return false, errors.Wrap(ErrInsufficientValue, "No existing change for tx fee")
		}
'''), (F, '''			tx.MsgTx.TxOut[changeOutputIndex].Value = changeValue
		}
	} else {
''', '''			tx.MsgTx.TxOut[changeOutputIndex].Value = changeValue
		}
	}
	return done, nil
}

func (tx *TxBuilder) decreaseFee(amount int64, changeOutputIndex int) (bool, error) {
	done := false
	{
'''), (F, '''	done := false

	// Find change output
''', '''	// Find change output
''')]),
 ('n-neg', '', [(F, '''			if changeOutputFee > uint64(-amount) {
				return true, nil // adding a change output would make the adjustment negative
			}

			adjustment := uint64(-amount) - changeOutputFee
''', '''			released := uint64(-amount)
			if released < changeOutputFee {
				return true, nil // adding a change output would make the adjustment negative
			}

			adjustment := released - changeOutputFee
''')]),
 ('n-switch', '', [(F, '''			if adjustment > outputFee+inputFee {
				if len(tx.ChangeScript) == 0 {''', '''			if outputFee+inputFee < adjustment {
				if len(tx.ChangeScript) <= 0 {''')]),
 ('n-fund-inv', '', [(I, '''		if neededFunding <= utxo.Value {
			// Funding complete
			change := utxo.Value - neededFunding
''', '''		if utxo.Value >= neededFunding {
			// Funding complete
			change := utxo.Value - neededFunding
''')]),
 ('n-fund-change', '', [(I, '''			change := utxo.Value - neededFunding
			if change > changeDustLimit {
				for i, output := range tx.Outputs {
					if output.IsRemainder {
						// Updating existing "change" output
						tx.MsgTx.TxOut[i].Value += change
						return nil
					}
				}

				if change > changeDustLimit+changeOutputFee {
					// Add new change output
					change -= changeOutputFee
					if len(tx.ChangeScript) == 0 {
						return errors.Wrap(ErrChangeAddressNeeded, fmt.Sprintf("Remaining: %d",
							change))
					}

					if err := tx.AddOutput(tx.ChangeScript, change, true, false); err != nil {
						return errors.Wrap(err, "adding change")
					}
					tx.Outputs[len(tx.Outputs)-1].KeyID = tx.ChangeKeyID
				}
			}

			return nil
''', '''			change := utxo.Value - neededFunding
			return tx.giveChange(change, changeDustLimit, changeOutputFee)
'''), (I, '// AddFundingBreakChange', '''func (tx *TxBuilder) giveChange(change, changeDustLimit, changeOutputFee uint64) error {
	if change <= changeDustLimit {
		return nil
	}
	for i, output := range tx.Outputs {
		if output.IsRemainder {
			// Updating existing "change" output
			tx.MsgTx.TxOut[i].Value += change
			return nil
		}
	}

	if change <= changeDustLimit+changeOutputFee {
		return nil
	}

	// Add new change output
	change -= changeOutputFee
	if len(tx.ChangeScript) == 0 {
		return errors.Wrap(ErrChangeAddressNeeded, fmt.Sprintf("Remaining: %d", change))
	}

	if err := tx.AddOutput(tx.ChangeScript, change, true, false); err != nil {
		return errors.Wrap(err, "adding change")
	}
	tx.Outputs[len(tx.Outputs)-1].KeyID = tx.ChangeKeyID
	return nil
}

// AddFundingBreakChange''')]),
 ('n-dust-helper', '', [(I, '''	var changeDustLimit uint64
	for i, output := range tx.Outputs {
		if !output.IsRemainder {
			continue
		}

		changeOutputFee = uint64(tx.MsgTx.TxOut[i].SerializeSize())
		changeDustLimit = DustLimitForOutput(tx.MsgTx.TxOut[i], tx.DustFeeRate)
		if changeDustLimit > 0 {
			break
		}
	}
	if changeDustLimit == 0 && len''', '''	changeOutputFee, changeDustLimit := tx.existingChange()
	if changeDustLimit == 0 && len'''), (I, '	changeOutputFee := uint64(0)\n	duplicateValue', '	duplicateValue'),
   (I, '// AddFundingBreakChange', '''func (tx *TxBuilder) existingChange() (uint64, uint64) {
	fee, limit := uint64(0), uint64(0)
	for i, output := range tx.Outputs {
		if !output.IsRemainder {
			continue
		}

		fee = uint64(tx.MsgTx.TxOut[i].SerializeSize())
		limit = DustLimitForOutput(tx.MsgTx.TxOut[i], tx.DustFeeRate)
		if limit > 0 {
			break
		}
	}
	return fee, limit
}

// AddFundingBreakChange''')]),
 ('n-bc-remainder', '', [(I, '''	for _, output := range tx.Outputs {
		if !output.IsRemainder {
			continue
		}

		remainderIncluded = true
		break
	}
''', '''	for i := range tx.Outputs {
		remainderIncluded = remainderIncluded || tx.Outputs[i].IsRemainder
	}
''')]),
 ('n-index', '', [(I, '''	for _, utxo := range utxos {
		if err := tx.AddInputUTXO(utxo); err != nil {
			if errors.Cause(err) == ErrDuplicateInput {
				duplicateValue += utxo.Value
				continue
			}
			return errors.Wrap(err, "adding input")
		}

		inputFee, err''', '''	for i := 0; i < len(utxos); i++ {
		utxo := utxos[i]
		if err := tx.AddInputUTXO(utxo); err != nil {
			if errors.Cause(err) != ErrDuplicateInput {
				return errors.Wrap(err, "adding input")
			}
			duplicateValue += utxo.Value
			continue
		}

		inputFee, err''')]),
 ('n-available', '', [(I, '''		available := uint64(0)
		for _, input := range tx.Inputs {
			available += input.Value
		}
		return errors.Wrap(ErrInsufficientValue, fmt.Sprintf("%d/%d", available,
			outputValue+tx.EstimatedFee()))
	}

	return nil
''', '''		return tx.insufficient(outputValue)
	}
'''), (I, '// AddFundingBreakChange', '''func (tx *TxBuilder) insufficient(outputValue uint64) error {
	available := uint64(0)
	for _, input := range tx.Inputs {
		available += input.Value
	}
	return errors.Wrap(ErrInsufficientValue, fmt.Sprintf("%d/%d", available,
		outputValue+tx.EstimatedFee()))
}

// AddFundingBreakChange''')]),
 ('n-sweep-helper', '', [(I, """	// Calculate additional funding needed. Include cost of first added input.
	// TODO Add support for input scripts other than P2PKH.
	neededFunding := estFeeValue + outputValue - inputValue
	changeOutputFee""", """	if tx.SendMax {
		return tx.sweep(utxos)
	}

	// Calculate additional funding needed. Include cost of first added input.
	// TODO Add support for input scripts other than P2PKH.
	neededFunding := estFeeValue + outputValue - inputValue
	changeOutputFee"""), (I, """		neededFunding += inputFee // Add cost of input

		if tx.SendMax {
			continue
		}
""", """		neededFunding += inputFee // Add cost of input
"""), (I, """	if tx.SendMax {
		return tx.CalculateFee()
	} else {
		available""", """	{
		available"""), (I, '// AddFundingBreakChange', """func (tx *TxBuilder) sweep(utxos []bitcoin.UTXO) error {
	for i := 0; i < len(utxos); i++ {
		err := tx.AddInputUTXO(utxos[i])
		if errors.Cause(err) == ErrDuplicateInput {
			continue
		}
		if err != nil {
			return errors.Wrap(err, "adding input")
		}
		if _, err := UTXOFee(utxos[i], tx.FeeRate); err != nil {
			return errors.Wrap(err, "utxo fee")
		}
	}
	return tx.CalculateFee()
}

// AddFundingBreakChange""")]),
 ('n-sweep-flag', '', [(I, """		neededFunding += inputFee // Add cost of input

		if tx.SendMax {
			continue
		}

		if neededFunding <= utxo.Value {""", """		neededFunding += inputFee // Add cost of input

		if !sendMax && neededFunding <= utxo.Value {"""), (I, """	changeOutputFee := uint64(0)
	duplicateValue""", """	sendMax := tx.SendMax
	changeOutputFee := uint64(0)
	duplicateValue""")]),
 ('n-sweep-addinput', '', [(I, """	for _, utxo := range utxos {
		if err := tx.AddInputUTXO(utxo); err != nil {
			if errors.Cause(err) == ErrDuplicateInput {
				duplicateValue += utxo.Value
				continue
			}
			return errors.Wrap(err, "adding input")
		}

		inputFee""", """	for i := range utxos {
		utxo := &utxos[i]
		if err := tx.addUTXO(utxo); err != nil {
			if errors.Cause(err) == ErrDuplicateInput {
				duplicateValue += utxo.Value
				continue
			}
			return errors.Wrap(err, "adding input")
		}

		inputFee"""), (I, 'UTXOFee(utxo, tx.FeeRate)', 'UTXOFee(*utxo, tx.FeeRate)'), (I, '// AddFundingBreakChange', """func (tx *TxBuilder) addUTXO(utxo *bitcoin.UTXO) error {
	return tx.AddInputUTXO(*utxo)
}

// AddFundingBreakChange""")]),
]
