# edits for P14: the fee after signing
S = 'sign.go'
ALL = ['P14']
MISS = '''			if missingKey {
				return result, ErrMissingPrivateKey
			}
			return result, nil
'''
SHORT = '''			if currentFee < targetFee {
				return nil, errors.Wrap(ErrInsufficientValue, fmt.Sprintf("%d/%d", inputValue,
					outputValue+uint64(targetFee)))
			}
'''
TARGET = 'targetFee := int64(EstimatedFeeValue(uint64(tx.MsgTx.SerializeSize()), float64(tx.FeeRate)))\n'
CASES = [
 ('done-unchecked', 'P14', [(S, SHORT, '')]),
 ('attempts', 'P14', [(S, '		if currentFee >= targetFee { // above target fee rate\n', '		if currentFee >= targetFee || attempt <= 0 { // above target fee rate\n')]),
 ('near', 'P14', [(S, '		if currentFee >= targetFee { // above target fee rate\n', '		if currentFee+3 >= targetFee { // above target fee rate\n')]),
 ('down', 'P14', [(S, TARGET, TARGET.replace('FeeValue(', 'FeeValueDown('))]),
 ('no-change', 'P14', [(S, '- int64(outputValue) - int64(changeValue)', '- int64(outputValue)'), (S, '		changeValue := tx.changeSum()\n', '')]),
 ('before', 'P14', [(S, '		// Sign all inputs\n		missingKey', '		' + TARGET + '\n		// Sign all inputs\n		missingKey'), (S, '		// Check fee and adjust if too low\n		' + TARGET, '		// Check fee and adjust if too low\n')]),
 ('other-error', 'P14', [(S, SHORT, SHORT.replace('ErrInsufficientValue', 'ErrBelowDustValue'))]),
 ('after-adjust', 'P14', [(S, '		attempt--\n', '		attempt--\n		if done && attempt <= 0 && !missingKey {\n			return result, nil\n		}\n')]),
 ('exact', 'P14', [(S, 'if currentFee == targetFee { //', 'if currentFee == targetFee || currentFee == int64(estimatedFee) { //')]),
 ('n-total', '', [(S, '		changeValue := tx.changeSum()\n		currentFee = int64(inputValue) - int64(outputValue) - int64(changeValue)\n', '		currentFee = int64(inputValue) - int64(tx.OutputValue(true))\n')]),
 ('n-actual', '', [(S, '		changeValue := tx.changeSum()\n		currentFee = int64(inputValue) - int64(outputValue) - int64(changeValue)\n', '		currentFee = tx.ActualFee()\n')]),
 ('n-attempt', '', [(S, '	attempt := 3 // Max of 3 fee adjustment attempts\n	for {\n', '	for attempt := 3; ; attempt-- { // Max of 3 fee adjustment attempts\n'), (S, '\n		attempt--\n', '')]),
 ('n-done', '', [(S, SHORT + MISS, '''			if currentFee >= targetFee {
				if missingKey {
					return result, ErrMissingPrivateKey
				}
				return result, nil
			}
			return nil, errors.Wrap(ErrInsufficientValue, fmt.Sprintf("%d/%d", inputValue,
				outputValue+uint64(targetFee)))
''')]),
 ('n-records', '', [('fees.go', '''	for i, output := range tx.MsgTx.TxOut {
		if includeChange || !tx.Outputs[i].IsRemainder {
			outputValue += uint64(output.Value)
''', '''	for i, output := range tx.Outputs {
		if includeChange || !output.IsRemainder {
			outputValue += tx.MsgTx.TxOut[i].Value
''')]),
 ('n-size', '', [(S, TARGET, '''size := tx.MsgTx.SerializeSize()
		targetFee := int64(EstimatedFeeValue(uint64(size), float64(tx.FeeRate)))
''')]),
 ('n-exit', '', [(S, '''		if currentFee == targetFee { // exact target fee rate achieved
''' + MISS + '''		}

''', ''), (S, '''		if currentFee >= targetFee { // above target fee rate
			if attempt <= 0''', '''		if currentFee >= targetFee { // above target fee rate
			if attempt <= 0 || currentFee == targetFee''')]),
]
