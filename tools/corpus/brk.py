# edits for P23 and P24: breaking values
B = 'break_value.go'
ALL = ['P23', 'P24']
SRC = open('/repo/' + B).read()

def body(name):
    i = SRC.index('func ' + name + '(')
    return SRC[i:SRC.index('\n}\n', i) + 3]

def ed(name, *subs):
    old = new = body(name)
    for a, b, *n in subs:
        assert new.count(a) >= 1, (name, a)
        if n and n[0] == 'all':
            new = new.replace(a, b)
        elif n:
            parts = new.split(a)
            new = a.join(parts[:n[0] + 1]) + b + a.join(parts[n[0] + 1:])
        else:
            assert new.count(a) == 1, (name, a, new.count(a))
            new = new.replace(a, b)
    return [(B, old, new)]

V, S, Q = 'BreakValue', 'BreakValueLockingScripts', 'BreakQuantity'
ABORT = '''				remaining += outputFee // abort adding this output, so add the fee for it back in
'''
CLAMP = '''		if outputValue > remaining {
			outputValue = remaining
		}
'''
SHUF = '''	rand.Shuffle(len(result), func(i, j int) {
		result[i], result[j] = result[j], result[i]
	})
'''
CASES = [
 # P23
 ('v-abort', 'P23', ed(V, (ABORT, ''))),
 ('v-abort-in', 'P23', ed(V, (ABORT, ABORT.replace('outputFee //', 'inputFee //')))),
 ('s-clamp', 'P23', ed(S, (CLAMP, ''))),
 ('v-clamp-break', 'P23', ed(V, (CLAMP, CLAMP.replace('outputValue = remaining', 'outputValue = remaining + outputFee')))),
 ('v-clamp-input', 'P23', ed(V, (CLAMP, CLAMP.replace('outputValue = remaining', 'outputValue = remaining - inputFee').replace('> remaining', '>= remaining')), ('		remaining -= outputValue\n', '		remaining -= outputValue\n		if remaining == inputFee {\n			remaining = 0\n		}\n'))),
 ('v-last-drop', 'P23', ed(V, ('result[len(result)-1].TxOut.Value += remaining', 'result[len(result)-1].TxOut.Value += remaining - remaining/2', 0))),
 ('v-last-set', 'P23', ed(V, ('result[len(result)-1].TxOut.Value += remaining', 'result[0].TxOut.Value += remaining / 2', 1))),
 ('v-last-missing', 'P23', ed(V, ('			result[len(result)-1].TxOut.Value += remaining\n', '', 0))),
 ('s-tail-fee', 'P23', ed(S, ('			remaining -= outputFee\n\n			result', '			result'))),
 ('s-tail-infee', 'P23', ed(S, ('		if remaining > inputFee {\n			result', '		if remaining > inputFee {\n			remaining -= inputFee\n			result'))),
 ('s-tail-double', 'P23', ed(S, ('			remaining -= outputFee\n\n			result', '			remaining -= outputFee + inputFee\n\n			result'))),
 ('s-more-than-one', 'P23', ed(S, ('else if len(result) > 0 {', 'else if len(result) > 1 {', 0))),
 ('v-nofee', 'P23', ed(V, ('			remaining -= outputFee\n\n			if', '			remaining -= inputFee\n\n			if'))),
 ('v-fee-always', 'P23', ed(V, ('''		} else if remaining <= inputFee || remaining < breakValue {''', '''		} else if remaining <= inputFee+outputFee || remaining < breakValue {'''), ('''		inc := ''', '''		if !subtractFee {
			remaining -= outputFee
		}
		inc := '''))),
 ('q-clamp', 'P23', ed(Q, ('		if quantity > remaining {\n			quantity = remaining\n		}\n', ''))),
 ('q-clamp-break', 'P23', ed(Q, ('			quantity = remaining\n', '			quantity = breakValue\n'))),
 ('q-rest', 'P23', ed(Q, ('if remaining > 0 {', 'if remaining >= breakValue {'))),
 ('q-rest-last', 'P23', ed(Q, ('''	if remaining > 0 {
		result = append(result, remaining)
	} else if''', '''	if remaining >= breakValue {
		result = append(result, remaining)
	} else if'''))),
 ('q-shuf', 'P23', ed(Q, ('		result[i], result[j] = result[j], result[i]\n', '		result[i] = result[j]\n		result[j] = result[i]\n'))),
 ('q-sub', 'P23', ed(Q, ('		remaining -= quantity\n', '		remaining -= breakValue\n'))),
 ('s-average', 'P23', ed(S, ('		remaining -= outputValue\n', '		remaining -= outputValue\n		if remaining < breakValue {\n			break\n		}\n'))),
 ('v-early', 'P23', ed(V, ('	// Add any remainder to last output\n', '	if remaining < breakValue && len(result) > 0 {\n		return result, nil\n	}\n\n	// Add any remainder to last output\n'))),
 ('v-none', 'P23', ed(V, ('		if remaining >= inputFee {', '		if remaining >= inputFee+breakValue*10 {'))),
 # P24
 ('k-key-next', 'P24', ed(V, ('KeyID:       addresses[nextIndex].KeyID,', 'KeyID:       addresses[len(result)-1].KeyID,', 1))),
 ('k-key-last', 'P24', ed(V, ('KeyID:       addresses[nextIndex].KeyID,', 'KeyID:       addresses[len(addresses)-1].KeyID,', 0))),
 ('k-key-loop', 'P24', ed(V, ('KeyID: address.KeyID,', 'KeyID: addresses[0].KeyID,'))),
 ('k-nokey', 'P24', ed(V, ('KeyID: address.KeyID,', ''))),
 ('k-adv', 'P24', ed(V, ('		nextIndex++\n', '		if outputValue > breakValue {\n			nextIndex++\n		}\n'))),
 ('k-adv0', 'P24', ed(S, ('		nextIndex++\n', '		if nextIndex+2 < len(lockingScripts) {\n			nextIndex++\n		}\n'))),
 ('k-script', 'P24', ed(S, ('	lockingScript := lockingScripts[nextIndex]\n', '	lockingScript := lockingScripts[len(lockingScripts)-1]\n	if nextIndex < len(lockingScripts)-1 {\n		lockingScript = lockingScripts[nextIndex/2]\n	}\n'))),
 ('k-rem-always', 'P24', ed(S, ('IsRemainder: lastIsRemainder,', 'IsRemainder: true,', 0))),
 ('k-rem-first', 'P24', ed(V, ('result[len(result)-1].Supplement.IsRemainder = lastIsRemainder\n', 'result[0].Supplement.IsRemainder = lastIsRemainder\n', 1))),
 ('k-rem-all', 'P24', ed(V, ('KeyID: address.KeyID,', 'KeyID: address.KeyID,\n				IsRemainder: lastIsRemainder && outputValue == remaining,'))),
 ('k-shuf', 'P23 P24', ed(V, ('		result[i], result[j] = result[j], result[i]\n', '		result[i].TxOut, result[j].TxOut = result[j].TxOut, result[i].TxOut\n		result[j] = result[i]\n'))),
 ('k-shuf-half', 'P24', ed(V, ('		result[i], result[j] = result[j], result[i]\n', '		result[i].TxOut, result[j].TxOut = result[j].TxOut, result[i].TxOut\n'))),
 # neutral
 ('n-index', '', ed(V, ('	for _, address := range addresses[:len(addresses)-1] {\n', '	for i := 0; i < len(addresses)-1; i++ {\n		address := addresses[i]\n'))),
 ('n-index-s', '', ed(S, ('	for _, lockingScript := range lockingScripts[:len(lockingScripts)-1] {\n', '	for ; nextIndex < len(lockingScripts)-1; nextIndex++ {\n		lockingScript := lockingScripts[nextIndex]\n'), ('		nextIndex++\n', ''))),
 ('n-len', '', ed(V, ('addresses[nextIndex]', 'addresses[len(result)]', 'all'), ('	nextIndex := 0\n', ''), ('		nextIndex++\n', ''))),
 ('n-abort', '', ed(V, ('''			if remaining <= outputFee {
				break // remaining amount is less than fee to include another output
			}
			remaining -= outputFee

			if remaining <= inputFee || remaining < breakValue {
				remaining += outputFee // abort adding this output, so add the fee for it back in
				break                  // remaining amount is less than dust required to include next address
			}
''', '''			if remaining <= outputFee {
				break // remaining amount is less than fee to include another output
			}

			available := remaining - outputFee
			if available <= inputFee || available < breakValue {
				break // remaining amount is less than dust required to include next address
			}
			remaining = available
'''))),
 ('n-last-var', '', ed(V, ('''			result[len(result)-1].Supplement.IsRemainder = lastIsRemainder
			result[len(result)-1].TxOut.Value += remaining
''', '''			last := result[len(result)-1]
			last.TxOut.Value += remaining
			last.Supplement.IsRemainder = lastIsRemainder
''', 'all'))),
 ('n-build', '', ed(S, ('''		result = append(result, &Output{
			TxOut: wire.TxOut{
				Value:         outputValue,
				LockingScript: lockingScript,
			},
		})
''', '''		output := &Output{}
		output.TxOut.Value = outputValue
		output.TxOut.LockingScript = lockingScript
		result = append(result, output)
'''))),
 ('n-exponent', '', ed(V, ('''		switch rand.Intn(exponent) {
		case 0: // *= 1
		case 1:
			outputValue *= 10
		case 2:
			outputValue *= 100
		case 3:
			outputValue *= 1000
		}
''', '''		for power := rand.Intn(exponent); power > 0; power-- {
			outputValue *= 10
		}
'''))),
 ('n-helper', '', ed(V, ('''		inc := BreakIncrements[rand.Intn(len(BreakIncrements))]
		outputValue := breakValue * inc
		switch rand.Intn(exponent) {
		case 0: // *= 1
		case 1:
			outputValue *= 10
		case 2:
			outputValue *= 100
		case 3:
			outputValue *= 1000
		}

		if rand.Intn(2) == 1 {
			outputValue = outputValue - (outputValue / 10) +
				uint64(rand.Int63n(int64(outputValue/5)))
		}

		if outputValue > remaining {
			outputValue = remaining
		}
''', '''		outputValue := pickValue(breakValue, remaining, exponent)
''')) + [(B, '// BreakQuantity breaks', '''// pickValue chooses a random multiple of the break value that is not more than the limit.
func pickValue(breakValue, limit uint64, exponent int) uint64 {
	value := breakValue * BreakIncrements[rand.Intn(len(BreakIncrements))]
	for i := rand.Intn(exponent); i > 0; i-- {
		value *= 10
	}

	if rand.Intn(2) == 1 {
		value = value - (value / 10) + uint64(rand.Int63n(int64(value/5)))
	}

	if value > limit {
		return limit
	}
	return value
}

// BreakQuantity breaks''')]),
 ('n-expo-helper', '', ed(V, ('''	var exponent int
	if factor >= 500 {
		exponent = 4
	} else if factor >= 50 {
		exponent = 3
	} else if factor >= 5 {
		exponent = 2
	} else {
		exponent = 1
	}
''', '''	exponent := breakExponent(factor)
''')) + ed(S, ('''	var exponent int
	if factor >= 500 {
		exponent = 4
	} else if factor >= 50 {
		exponent = 3
	} else if factor >= 5 {
		exponent = 2
	} else {
		exponent = 1
	}
''', '''	exponent := breakExponent(factor)
''')) + [(B, '// BreakQuantity breaks', '''func breakExponent(factor uint64) int {
	switch {
	case factor >= 500:
		return 4
	case factor >= 50:
		return 3
	case factor >= 5:
		return 2
	default:
		return 1
	}
}

// BreakQuantity breaks''')]),
 ('n-shuffle', '', ed(V, (SHUF, '	shuffleOutputs(result)\n')) + ed(S, (SHUF, '	shuffleOutputs(result)\n')) + [(B, '// BreakQuantity breaks', '''func shuffleOutputs(outputs []*Output) {
	rand.Shuffle(len(outputs), func(i, j int) {
		outputs[i], outputs[j] = outputs[j], outputs[i]
	})
}

// BreakQuantity breaks''')]),
 ('n-swap-tmp', '', ed(V, ('		result[i], result[j] = result[j], result[i]\n', '		output := result[i]\n		result[i] = result[j]\n		result[j] = output\n'))),
 ('n-merge-tail', '', ed(S, (body(S)[body(S).index('	if subtractFee {\n		outputFee, inputFee, _ := OutputTotalCost(lockingScript, feeRate)\n\n		if remaining > outputFee+inputFee {'):body(S).index('	// Random sort')], '''	outputFee, inputFee, _ := OutputTotalCost(lockingScript, feeRate)
	if !subtractFee {
		outputFee = 0
	}

	if remaining > outputFee+inputFee {
		result = append(result, &Output{
			TxOut: wire.TxOut{
				Value:         remaining - outputFee,
				LockingScript: lockingScript,
			},
			Supplement: OutputSupplement{
				IsRemainder: lastIsRemainder,
			},
		})
	} else if len(result) > 0 {
		// Add to last output
		last := result[len(result)-1]
		last.Supplement.IsRemainder = lastIsRemainder
		last.TxOut.Value += remaining
	}

'''))),
 ('n-guard-merge', '', ed(S, ('''		if subtractFee {
			if remaining <= outputFee {
				break // remaining amount is less than fee to include another output
			}
			remaining -= outputFee

			if remaining <= inputFee || remaining < breakValue {
				remaining += outputFee // abort adding this output, so add the fee for it back in
				break                  // remaining amount is less than dust required to include next address
			}
		} else if remaining <= inputFee || remaining < breakValue {
			break // remaining amount is less than dust required to include next address
		}
''', '''		fee := uint64(0)
		if subtractFee {
			fee = outputFee
		}
		if remaining <= fee || remaining-fee <= inputFee || remaining-fee < breakValue {
			break // remaining amount is less than dust required to include next address
		}
		remaining -= fee
'''))),
 ('n-q-spent', '', ed(Q, ('	remaining := value\n', '	used := uint64(0)\n'), ('		if remaining < breakValue {', '		if value-used < breakValue {'), ('		if quantity > remaining {\n			quantity = remaining\n		}\n\n		remaining -= quantity\n', '		if quantity > value-used {\n			quantity = value - used\n		}\n\n		used += quantity\n'), ('	if remaining > 0 {\n		result = append(result, remaining)\n	} else if len(result) > 1 {\n		// Add to last quantity\n		result[len(result)-1] += remaining\n	}\n', '	if remaining := value - used; remaining > 0 {\n		result = append(result, remaining)\n	}\n'))),
 ('n-q-simple', '', ed(Q, (' else if len(result) > 1 {\n		// Add to last quantity\n		result[len(result)-1] += remaining\n	}\n', '\n'), ('		nextIndex++\n', ''), ('	nextIndex := 0\n', ''))),
 ('n-q-while', '', ed(Q, ('	for i := 0; i < count; i++ {\n		if remaining < breakValue {\n			break // remaining amount is less than dust required to include next address\n		}\n', '	for i := 0; i < count && remaining >= breakValue; i++ {\n'))),
 ('n-preset', '', ed(V, ('	result := make([]*Output, 0, len(addresses))\n', '	var result []*Output\n'))),
 ('n-minvar', '', ed(V, (CLAMP + '\n		remaining -= outputValue\n', '''		if outputValue >= remaining {
			outputValue = remaining
			remaining = 0
		} else {
			remaining -= outputValue
		}
'''))),
 ('n-errfirst', '', ed(V, ('''		lockingScript, err := address.Address.LockingScript()
		if err != nil {
			return nil, errors.Wrap(err, "locking script")
		}

		outputFee''', '''		addr := address.Address
		lockingScript, err := addr.LockingScript()
		if err != nil {
			return nil, errors.Wrap(err, "address locking script")
		}

		outputFee'''))),
 ('n-q-shadow', '', ed(Q, ('''		if quantity > remaining {
			quantity = remaining
		}

		remaining -= quantity

		result = append(result, quantity)
''', '''		part := quantity
		if remaining < part {
			part = remaining
		}

		result = append(result, part)
		remaining -= part
'''))),
 ('n-output-func', '', ed(S, ('''		result = append(result, &Output{
			TxOut: wire.TxOut{
				Value:         outputValue,
				LockingScript: lockingScript,
			},
		})
''', '''		result = append(result, newBrokenOutput(outputValue, lockingScript, false))
'''), ('''			result = append(result, &Output{
				TxOut: wire.TxOut{
					Value:         remaining,
					LockingScript: lockingScript,
				},
				Supplement: OutputSupplement{
					IsRemainder: lastIsRemainder,
				},
			})
''', '''			result = append(result, newBrokenOutput(remaining, lockingScript, lastIsRemainder))
''', 'all')) + [(B, '// BreakQuantity breaks', '''func newBrokenOutput(value uint64, script bitcoin.Script, isRemainder bool) *Output {
	return &Output{
		TxOut: wire.TxOut{
			Value:         value,
			LockingScript: script,
		},
		Supplement: OutputSupplement{
			IsRemainder: isRemainder,
		},
	}
}

// BreakQuantity breaks''')]),
 ('n-tailfunc', '', ed(V, ('''	if subtractFee {
		outputFee, inputFee, _ := OutputTotalCost(lockingScript, feeRate)

		if remaining > outputFee+inputFee {
			remaining -= outputFee
''', '''	if subtractFee {
		outputFee, inputFee, _ := OutputTotalCost(lockingScript, feeRate)
		cost := outputFee + inputFee

		if cost < remaining {
			remaining = remaining - outputFee
'''))),
 ('n-wrap', '', [(B, 'func BreakValueLockingScripts(', '''// BreakValueLockingScripts breaks a value between locking scripts.
func BreakValueLockingScripts(value, breakValue uint64, lockingScripts []bitcoin.Script,
	dustFeeRate, feeRate float32, lastIsRemainder bool, subtractFee bool) ([]*Output, error) {
	return breakBetween(value, breakValue, lockingScripts, feeRate, lastIsRemainder, subtractFee)
}

func breakBetween('''), (B, body(S).split('(', 1)[1].split('{', 1)[0], '''value, breakValue uint64, lockingScripts []bitcoin.Script, feeRate float32,
	lastIsRemainder bool, subtractFee bool) ([]*Output, error) ''')]) if False else ('n-comment', '', ed(Q, ('	// Random sort outputs\n', '	// Random order\n'))),
]
