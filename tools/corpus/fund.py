# edits for P18: funding
F = 'inputs.go'
ALL = ['P18']
SRC = open('/repo/' + F).read()

def body(name):
    i = SRC.index('func (tx *TxBuilder) ' + name + '(')
    return SRC[i:SRC.index('\n}\n', i) + 3]

def ed(name, *subs):
    old = new = body(name)
    for a, b, *n in subs:
        assert new.count(a) >= 1, (name, a)
        if n and n[0] == 'all':
            new = new.replace(a, b)
        elif n:
            parts = new.split(a)
            new = a.join(parts[:n[0] + 1]) + b + a.join(parts[n[0] + 1:])
        else:
            assert new.count(a) == 1, (name, a, new.count(a))
            new = new.replace(a, b)
    return [(F, old, new)]

A, B = 'AddFunding', 'AddFundingBreakChange'
UPD = '''				for i, output := range tx.Outputs {
					if output.IsRemainder {
						// Updating existing "change" output
						tx.MsgTx.TxOut[i].Value += change
						return nil
					}
				}
'''
AVAIL = '''		available := uint64(0)
		for _, input := range tx.Inputs {
			available += input.Value
		}
'''
CASES = [
 ('a-nofee', 'P18', ed(A, ('		neededFunding += inputFee // Add cost of input\n', '		_ = inputFee\n'))),
 ('a-fee-late', 'P18', ed(A, ('		neededFunding += inputFee // Add cost of input\n', ''), ('		neededFunding -= utxo.Value //', '		neededFunding += inputFee\n		neededFunding -= utxo.Value //'))),
 ('a-dup-counts', 'P18', ed(A, ('				duplicateValue += utxo.Value\n', '				duplicateValue += utxo.Value\n				neededFunding -= utxo.Value\n'))),
 ('a-dup-stop', 'P18', ed(A, ('				duplicateValue += utxo.Value\n				continue\n', '				duplicateValue += utxo.Value\n				return nil\n'))),
 ('a-fee-half', 'P18', ed(A, ('UTXOFee(utxo, tx.FeeRate)', 'UTXOFee(utxo, tx.DustFeeRate)'))),
 ('a-nil', 'P18', ed(A, ('''		return errors.Wrap(ErrInsufficientValue, fmt.Sprintf("%d/%d", available,
			outputValue+tx.EstimatedFee()))
''', '''		if available > outputValue {
			return nil
		}
		return errors.Wrap(ErrInsufficientValue, fmt.Sprintf("%d/%d", available,
			outputValue+tx.EstimatedFee()))
'''))),
 ('a-err', 'P18', ed(A, ('''		return errors.Wrap(ErrInsufficientValue, fmt.Sprintf("%d/%d", available,''', '''		return errors.Wrap(ErrBelowDustValue, fmt.Sprintf("%d/%d", available,'''))),
 ('a-already', 'P18', ed(A, ('inputValue-outputValue >= estFeeValue {', 'inputValue >= estFeeValue {'))),
 ('a-already-nofee', 'P18', ed(A, ('inputValue > outputValue && inputValue-outputValue >= estFeeValue {', 'inputValue > outputValue {'))),
 ('a-out-false', 'P18', ed(A, ('tx.OutputValue(true)', 'tx.OutputValue(false)'))),
 ('a-change-value', 'P18', ed(A, ('tx.MsgTx.TxOut[i].Value += change\n', 'tx.MsgTx.TxOut[i].Value = change\n'))),
 ('a-change-fee', 'P18', ed(A, ('change := utxo.Value - neededFunding\n', 'change := utxo.Value - neededFunding + inputFee\n'))),
 ('a-change-lost', 'P18', ed(A, ('if change > changeDustLimit+changeOutputFee {', 'if change > 2*(changeDustLimit+changeOutputFee) {'))),
 ('a-change-lost2', 'P18', ed(A, ('if change > changeDustLimit {', 'if change > changeDustLimit+inputFee {'))),
 ('a-change-all', 'P18', ed(A, ('						return nil\n', ''))),
 ('a-change-more', 'P18', ed(A, ('AddOutput(tx.ChangeScript, change, true', 'AddOutput(tx.ChangeScript, utxo.Value, true'))),
 ('a-lt', '', ed(A, ('if neededFunding <= utxo.Value {', 'if utxo.Value >= neededFunding {'))),
 ('a-need-twice', 'P18', ed(A, ('		neededFunding -= utxo.Value //', '		neededFunding -= utxo.Value + inputFee //'))),
 ('b-need', 'P18', ed(B, ('		estSize += uint64(inputSize)\n		estFeeValue = EstimatedFeeValue(estSize, feeRate)\n', '		estFeeValue = EstimatedFeeValue(estSize, feeRate)\n		estSize += uint64(inputSize)\n'))),
 ('b-value-first', 'P18', ed(B, ('		neededFunding = estFeeValue + outputValue - inputValue\n		inputValue += utxo.Value\n', '		inputValue += utxo.Value\n		neededFunding = estFeeValue + outputValue - inputValue\n'))),
 ('b-dup-counts', 'P18', ed(B, ('				duplicateValue += utxo.Value\n', '				duplicateValue += utxo.Value\n				inputValue += utxo.Value\n'))),
 ('b-dup-value', 'P18', ed(B, ('outputValue - inputValue + utxo.Value\n', 'outputValue - inputValue\n'))),
 ('b-fee-change', 'P18', ed(B, ('EstimatedFeeValue(estSize-firstChangeOutputSize, feeRate)', 'EstimatedFeeValue(estSize-uint64(inputSize), feeRate)'))),
 ('b-change', 'P18', ed(B, ('changeValue := utxo.Value - finalNeededFunding', 'changeValue := utxo.Value - finalNeededFunding + finalFeeValue'))),
 ('b-break-utxo', 'P18', ed(B, ('BreakValue(changeValue,', 'BreakValue(utxo.Value,'))),
 ('b-already', 'P18', ed(B, ('inputValue > outputValue && inputValue-outputValue >= estFeeValue {', 'inputValue > outputValue {'), ('estFeeValue+outputFee+inputFee', 'outputFee+inputFee'))),
 ('b-err', 'P18', ed(B, ('return errors.Wrap(ErrInsufficientValue, fmt.Sprintf("%d/%d", available,', 'return errors.Wrap(ErrMissingInputData, fmt.Sprintf("%d/%d", available,'))),
 ('b-noadd', 'P18', ed(B, ('				tx.AddOutputs(outputs)\n				if len(outputs) > 1 {', '				if len(outputs) > 1 {\n					tx.AddOutputs(outputs)'))),
 ('b-upd', 'P18', ed(B, ('tx.MsgTx.TxOut[i].Value += changeValue', 'tx.MsgTx.TxOut[i].Value += utxo.Value'))),
 ('b-first', 'P18', ed(B, ('''						tx.MsgTx.TxOut[i].Value += changeValue
						return nil
''', '''						tx.MsgTx.TxOut[i].Value += changeValue
						break
'''), ('''				return errors.New("Missing remainder that was previously there!")
''', '''				if len(tx.Outputs) == 0 {
					return errors.New("Missing remainder that was previously there!")
				}
				tx.MsgTx.TxOut[0].Value += duplicateValue
'''))),
 # preserving
 ('n-b-upd', '', ed(B, ('''					if output.IsRemainder {
						// Updating''', '''					if !output.IsRemainder {
						continue
					}
					{
						// Updating'''))),
 ('n-a-net2', '', ed(A, ('''		neededFunding += inputFee // Add cost of input
''', '''		inputValue += utxo.Value
		outputValue += inputFee
'''), ('if neededFunding <= utxo.Value {', 'if inputValue >= outputValue+estFeeValue {'), ('change := utxo.Value - neededFunding', 'change := inputValue - outputValue - estFeeValue'), ('''		// More UTXOs required
		neededFunding -= utxo.Value // Subtract the value this input added
''', ''), ('	neededFunding := estFeeValue + outputValue - inputValue\n', ''), ('''			outputValue+tx.EstimatedFee()))
	}
''', '''			tx.OutputValue(true)+tx.EstimatedFee()))
	}
'''))),
 ('n-a-helper', '', ed(A, (AVAIL, '		available := tx.InputValue()\n'))),
 ('n-a-index', '', ed(A, ('for _, utxo := range utxos {', 'for n := 0; n < len(utxos); n++ {\n		utxo := utxos[n]'))),
 ('n-a-net', '', ed(A, ('''		neededFunding += inputFee // Add cost of input
''', '''		neededFunding = neededFunding + inputFee
'''), ('		neededFunding -= utxo.Value //', '		neededFunding = neededFunding - utxo.Value //'))),
 ('n-a-break', '', ed(A, (UPD, '''				remainder := -1
				for i, output := range tx.Outputs {
					if output.IsRemainder {
						remainder = i
						break
					}
				}
				if remainder >= 0 {
					tx.MsgTx.TxOut[remainder].Value += change
					return nil
				}
'''))),
 ('n-a-value', '', ed(A, ('	neededFunding := estFeeValue + outputValue - inputValue\n', '	neededFunding := outputValue + estFeeValue\n	neededFunding -= inputValue\n'))),
 ('n-a-early', '', ed(A, ('			if change > changeDustLimit {\n', '			if change <= changeDustLimit {\n				return nil\n			}\n			{\n'))),
 ('n-a-size', '', ed(A, ('''		inputFee, err := UTXOFee(utxo, tx.FeeRate)
''', '''		_, inputFee, err := UTXOInputSizeAndFee(utxo, tx.FeeRate)
'''))),
 ('n-a-funded', '', ed(A, ('	estFeeValue := tx.EstimatedFee()\n', '	estFeeValue := EstimatedFeeValue(uint64(tx.EstimatedSize()), float64(tx.FeeRate))\n'))),
 ('n-a-helper2', '', ed(A, ('''			if errors.Cause(err) == ErrDuplicateInput {
				duplicateValue += utxo.Value
				continue
			}
			return errors.Wrap(err, "adding input")
''', '''			if errors.Cause(err) != ErrDuplicateInput {
				return errors.Wrap(err, "adding input")
			}
			duplicateValue += utxo.Value
			continue
'''))),
 ('n-a-collect', '', ed(A, ('''			change := utxo.Value - neededFunding
			if change > changeDustLimit {
''', '''			return tx.zzGive(utxo.Value-neededFunding, changeDustLimit, changeOutputFee)
		}

		// More UTXOs required
		neededFunding -= utxo.Value // Subtract the value this input added
	}

	if tx.SendMax {
		return tx.CalculateFee()
	}
	available := uint64(0)
	for _, input := range tx.Inputs {
		available += input.Value
	}
	return errors.Wrap(ErrInsufficientValue, fmt.Sprintf("%d/%d", available,
		outputValue+tx.EstimatedFee()))
}

func (tx *TxBuilder) zzGive(change, changeDustLimit, changeOutputFee uint64) error {
	{
		{
			if change > changeDustLimit {
'''), ('''			return nil
		}

		// More UTXOs required
		neededFunding -= utxo.Value // Subtract the value this input added
	}

	if tx.SendMax {
		return tx.CalculateFee()
	} else {
''' + AVAIL + '''		return errors.Wrap(ErrInsufficientValue, fmt.Sprintf("%d/%d", available,
			outputValue+tx.EstimatedFee()))
	}

	return nil
''', '''			return nil
		}
	}
'''))),
 ('n-b-index', '', ed(B, ('for _, utxo := range utxos {', 'for n := range utxos {\n		utxo := utxos[n]'))),
 ('n-b-drop', '', ed(B, ('''		// More UTXOs required
		estFeeValue = EstimatedFeeValue(estSize, feeRate)
		neededFunding = estFeeValue + outputValue - inputValue
''', ''))),
 ('n-b-final', '', ed(B, ('''			finalNeededFunding := finalFeeValue + outputValue - inputValue + utxo.Value
			changeValue := utxo.Value - finalNeededFunding
''', '''			changeValue := inputValue - outputValue - finalFeeValue
'''))),
 ('n-b-outputs', '', ed(B, ('''				if len(outputs) > 1 {
					for _, output := range outputs[1:] {
						estSize += uint64(output.TxOut.SerializeSize())
					}
				}
''', ''))),
 ('n-b-size', '', ed(B, ('''		estSize += uint64(inputSize)
''', '''		estSize = estSize + uint64(inputSize)
'''))),
 ('n-b-nofirst', '', ed(B, ('''	// Calculate additional funding needed. Include cost of first added input.
	// TODO Add support for input scripts other than P2PKH.
	estFeeValue = EstimatedFeeValue(estSize, feeRate)
	neededFunding := estFeeValue + outputValue - inputValue
''', '	var neededFunding uint64\n'))),
 ('n-b-cond', '', ed(B, ('if neededFunding <= utxo.Value {', 'if utxo.Value >= neededFunding {'))),
 ('n-b-else', '', ed(B, ('''			} else {
				// Break''', '''			}
			{
				// Break'''))),
]
