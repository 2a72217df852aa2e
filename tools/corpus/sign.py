ALL = ['P10', 'P11', 'P12', 'P13', 'P31']
S = 'sign.go'
CASES = [
 # signature for the wrong thing
 ('idx', 'P10', [(S, 'unlockingScript, err := P2PKHUnlockingScript(key, tx.MsgTx, index, lockingScript,', 'unlockingScript, err := P2PKHUnlockingScript(key, tx.MsgTx, 0, lockingScript,')]),
 ('store-idx', 'P10 P12 P31', [(S, 'tx.MsgTx.TxIn[index].UnlockingScript = bitcoin.Script(unlockingScript.Bytes())', 'tx.MsgTx.TxIn[len(usedKeys)-1].UnlockingScript = bitcoin.Script(unlockingScript.Bytes())')]),
 ('value0', 'P10', [(S, '	value := tx.Inputs[index].Value\n', '	value := tx.Inputs[0].Value\n')]),
 ('single-value', 'P10', [(S, 'tx.Inputs[index].LockingScript, tx.Inputs[index].Value, SigHashAll', 'tx.Inputs[index].LockingScript, tx.Inputs[0].Value, SigHashAll')]),
 ('htype', 'P10', [(S, '''			unlockingScript, err := P2PKUnlockingScript(key, tx.MsgTx, index, lockingScript,
				value, SigHashAll+SigHashForkID, &shc)''', '''			unlockingScript, err := P2PKUnlockingScript(key, tx.MsgTx, index, lockingScript,
				value, SigHashAll, &shc)''')]),
 ('htype-single', 'P10', [(S, '''				subUnlockingScript, err := P2PKHUnlockingScript(key, tx.MsgTx, index, lockingScript,
					value, SigHashAll+SigHashForkID, &shc)''', '''				subUnlockingScript, err := P2PKHUnlockingScript(key, tx.MsgTx, index, lockingScript,
					value, SigHashSingle+SigHashForkID, &shc)''')]),
 ('pub-other', 'P12', [(S, '''				subUnlockingScript, err := P2PKHUnlockingScript(key,''', '''				subUnlockingScript, err := P2PKHUnlockingScript(keys[len(usedKeys)],''')]),
 # staleness
 ('cache-ptr', 'P11', 
   [(S, 'func (tx *TxBuilder) signInput(index int, keys []bitcoin.Key,\n	shc SigHashCache)', 'func (tx *TxBuilder) signInput(index int, keys []bitcoin.Key,\n	shc *SigHashCache)'),
    (S, '			signKeys, err := tx.signInput(index, keys, shc)\n', '			signKeys, err := tx.signInput(index, keys, &shc)\n'),
    (S, '}\n\n		signKeys, err := tx.signInput(index, keys, shc)\n', '}\n\n		signKeys, err := tx.signInput(index, keys, &shc)\n'),
    (S, '&shc)\n			if err != nil {\n				return nil, errors.Wrap(err, "unlock script")\n			}\n			tx.MsgTx.TxIn[index].UnlockingScript = unlockingScript\n\n			return []bitcoin.Key{key}, nil\n		}\n\n		return nil, ErrMissingPrivateKey\n	}\n\n	if lockingScript.IsP2PK() {', 'shc)\n			if err != nil {\n				return nil, errors.Wrap(err, "unlock script")\n			}\n			tx.MsgTx.TxIn[index].UnlockingScript = unlockingScript\n\n			return []bitcoin.Key{key}, nil\n		}\n\n		return nil, ErrMissingPrivateKey\n	}\n\n	if lockingScript.IsP2PK() {'),
    (S, '&shc)\n			if err != nil {\n				return nil, errors.Wrap(err, "unlock script")\n			}\n			tx.MsgTx.TxIn[index].UnlockingScript = unlockingScript\n\n			return []bitcoin.Key{key}, nil\n		}\n\n		return nil, ErrMissingPrivateKey\n	}\n\n	if required', 'shc)\n			if err != nil {\n				return nil, errors.Wrap(err, "unlock script")\n			}\n			tx.MsgTx.TxIn[index].UnlockingScript = unlockingScript\n\n			return []bitcoin.Key{key}, nil\n		}\n\n		return nil, ErrMissingPrivateKey\n	}\n\n	if required'),
    (S, '&shc)\n				if err != nil {\n					return nil, errors.Wrap(err, "unlock script")', 'shc)\n				if err != nil {\n					return nil, errors.Wrap(err, "unlock script")'),
    (S, '		shc.ClearOutputs()\n', '')]),
 ('adjust-then-return', 'P11', [(S, '''			return nil, err
		}

		attempt--
''', '''			return nil, err
		}

		attempt--
		if attempt < 0 && !missingKey {
			return result, nil
		}
''')]),
 ('locktime-after', 'P11', [(S, '''		if currentFee == targetFee { // exact target fee rate achieved
''', '''		if currentFee == targetFee { // exact target fee rate achieved
			if tx.MsgTx.LockTime == 1 {
				tx.MsgTx.LockTime = 0
			}
''')]),
 ('skip-signed-again', 'P11', [(S, '''			signKeys, err := tx.signInput(index, keys, shc)
			if err''', '''			if attempt < 2 && len(tx.MsgTx.TxIn[index].UnlockingScript) > 200 {
				continue
			}
			signKeys, err := tx.signInput(index, keys, shc)
			if err''')]),
 # keys
 ('missing-last', 'P12', [(S, '''				missingKey = true
				continue
			}
			return nil, errors.Wrap(err, fmt.Sprintf("sign input %d", index))
		}

		result = appendKeys(result, signKeys...)
	}
''', '''				missingKey = index > 0
				continue
			}
			return nil, errors.Wrap(err, fmt.Sprintf("sign input %d", index))
		}

		result = appendKeys(result, signKeys...)
	}
''')]),
 ('missing-reset', 'P12', [(S, '''			result = appendKeys(result, signKeys...)
		}

		// Check fee''', '''			missingKey = false
			result = appendKeys(result, signKeys...)
		}

		// Check fee''')]),
 ('done-nomiss', 'P12', [(S, '''				return nil, errors.Wrap(ErrInsufficientValue, fmt.Sprintf("%d/%d", inputValue,
					outputValue+uint64(targetFee)))
			}
			if missingKey {
				return result, ErrMissingPrivateKey
			}
''', '''				return nil, errors.Wrap(ErrInsufficientValue, fmt.Sprintf("%d/%d", inputValue,
					outputValue+uint64(targetFee)))
			}
''')]),
 ('wrong-error', 'P12', [(S, 'errors.Wrap(ErrWrongPrivateKey, fmt.Sprintf("Required : %x", hash.Bytes()))', 'errors.Wrap(ErrMissingPrivateKey, fmt.Sprintf("Required : %x", hash.Bytes()))')]),
 ('fallthrough', 'P12', [(S, '''		return nil, ErrMissingPrivateKey
	}

	if lockingScript.IsP2PK() {''', '''		if len(keys) == 0 {
			return nil, ErrMissingPrivateKey
		}
	}

	if lockingScript.IsP2PK() {''')]),
 ('only-key', 'P12', [(S, '			if !keyLockingScript.Equal(lockingScript) {', '			if len(keys) > 1 && !keyLockingScript.Equal(lockingScript) {')]),
 ('half-hash', 'P12', [(S, 'if !bytes.Equal(hash.Bytes(), bitcoin.Hash160(key.PublicKey().Bytes())) {', 'if !bytes.Equal(hash.Bytes()[:10], bitcoin.Hash160(key.PublicKey().Bytes())[:10]) {')]),
 # sign only
 ('re-sign', 'P13', [(S, 'if len(tx.MsgTx.TxIn[index].UnlockingScript) > 0 {\n			continue // already signed', 'if len(tx.MsgTx.TxIn[index].UnlockingScript) > 1 {\n			continue // already signed')]),
 ('sequence', 'P13', [(S, '''		result = appendKeys(result, signKeys...)
	}

	if missingKey {''', '''		result = appendKeys(result, signKeys...)
		if tx.MsgTx.TxIn[index].Sequence == 0 {
			tx.MsgTx.TxIn[index].Sequence = 1
		}
	}

	if missingKey {''')]),
 # multi
 ('m-count', 'P31', [(S, '				if signedCount == required {', '				if signedCount+1 == required || signedCount == required {')]),
 ('m-order', 'P31', [(S, 'for i := l - 1; i >= 0; i-- {', 'for i := 0; i < l; i++ {')]),
 ('m-fill', 'P31', [(S, 'for count < total {', 'for count+1 < total {')]),
 ('m-false', 'P31', [(S, '''			} else {
				subUnlockingScripts = append(subUnlockingScripts,
					bitcoin.Script{bitcoin.OP_FALSE})
''', '''			} else if signedCount > 0 {
				subUnlockingScripts = append(subUnlockingScripts,
					bitcoin.Script{bitcoin.OP_FALSE})
''')]),
 ('m-true', 'P31', [(S, 'subUnlockingScript = append(subUnlockingScript, bitcoin.OP_TRUE)', 'subUnlockingScript = append(subUnlockingScript, bitcoin.OP_FALSE)')]),
 ('m-nobreak', 'P31', [(S, '				foundKey = true\n				break\n', '				foundKey = true\n')]),
 ('m-partial', 'P31', [(S, '		if completed {', '		if completed || signedCount > 2 {')]),
 # behaviour preserved
 ('n-match-helper', '', [(S, '			if !keyLockingScript.Equal(lockingScript) {', '			if !scriptsMatch(keyLockingScript, lockingScript) {'),
    (S, '// signInput signs an input', 'func scriptsMatch(a, b bitcoin.Script) bool {\n	return a.Equal(b)\n}\n\n// signInput signs an input')]),
 ('n-split-p2pkh', '', [(S, '''	if lockingScript.IsP2PKH() {
		for _, key := range keys {
			keyLockingScript, err := key.LockingScript()
			if err != nil {
				return nil, errors.Wrap(err, "key locking script")
			}

			if !keyLockingScript.Equal(lockingScript) {
				continue
			}

			unlockingScript, err := P2PKHUnlockingScript(key, tx.MsgTx, index, lockingScript,
				value, SigHashAll+SigHashForkID, &shc)
			if err != nil {
				return nil, errors.Wrap(err, "unlock script")
			}
			tx.MsgTx.TxIn[index].UnlockingScript = unlockingScript

			return []bitcoin.Key{key}, nil
		}

		return nil, ErrMissingPrivateKey
	}
''', '''	if lockingScript.IsP2PKH() {
		return tx.signPKH(index, keys, &shc)
	}
'''), (S, '// signInput signs an input', '''func (tx *TxBuilder) signPKH(index int, keys []bitcoin.Key, shc *SigHashCache) ([]bitcoin.Key, error) {
	input := tx.Inputs[index]
	for i := 0; i < len(keys); i++ {
		keyLockingScript, err := keys[i].LockingScript()
		if err != nil {
			return nil, errors.Wrap(err, "key locking script")
		}

		if keyLockingScript.Equal(input.LockingScript) {
			unlockingScript, err := P2PKHUnlockingScript(keys[i], tx.MsgTx, index, input.LockingScript,
				input.Value, SigHashAll|SigHashForkID, shc)
			if err != nil {
				return nil, errors.Wrap(err, "unlock script")
			}
			tx.MsgTx.TxIn[index].UnlockingScript = unlockingScript
			return []bitcoin.Key{keys[i]}, nil
		}
	}

	return nil, ErrMissingPrivateKey
}

// signInput signs an input''')]),
 ('n-sign-all-helper', '', [(S, '''		missingKey := false
		for index, _ := range tx.Inputs {
			signKeys, err := tx.signInput(index, keys, shc)
			if err != nil {
				if errors.Cause(err) == ErrMissingPrivateKey {
					missingKey = true
					continue
				}
				return nil, errors.Wrap(err, fmt.Sprintf("sign input %d", index))
			}

			result = appendKeys(result, signKeys...)
		}
''', '''		result, missingKey, err := tx.signAll(keys, shc)
		if err != nil {
			return nil, err
		}
'''), (S, '		var result []bitcoin.Key\n\n		// Sign all', '		// Sign all'), (S, '// signInput signs an input', '''func (tx *TxBuilder) signAll(keys []bitcoin.Key, shc SigHashCache) ([]bitcoin.Key, bool, error) {
	var result []bitcoin.Key
	missingKey := false
	for index := range tx.Inputs {
		signKeys, err := tx.signInput(index, keys, shc)
		if err != nil {
			if errors.Cause(err) == ErrMissingPrivateKey {
				missingKey = true
				continue
			}
			return nil, false, errors.Wrap(err, fmt.Sprintf("sign input %d", index))
		}

		result = appendKeys(result, signKeys...)
	}
	return result, missingKey, nil
}

// signInput signs an input''')]),
 ('n-ret-helper', '', [(S, '''		if currentFee == targetFee { // exact target fee rate achieved
			if missingKey {
				return result, ErrMissingPrivateKey
			}
			return result, nil
		}
''', '''		var missing error
		if missingKey {
			missing = ErrMissingPrivateKey
		}

		if currentFee == targetFee { // exact target fee rate achieved
			return result, missing
		}
''')]),
 ('n-onlyloop', '', [(S, '''	for index, _ := range tx.Inputs {
		if len(tx.MsgTx.TxIn[index].UnlockingScript) > 0 {
			continue // already signed
		}
''', '''	for index := 0; index < len(tx.Inputs); index++ {
		if tx.InputIsSigned(index) {
			continue // already signed
		}
''')]),
 ('n-single-return', '', [(S, '''	unlockingScript, err := P2PKHUnlockingScript(key, tx.MsgTx, index,
		tx.Inputs[index].LockingScript, tx.Inputs[index].Value, SigHashAll+SigHashForkID, hashCache)
	if err != nil {
		return err
	}

	tx.MsgTx.TxIn[index].UnlockingScript = unlockingScript
	return nil
''', '''	input := tx.Inputs[index]
	unlockingScript, err := P2PKHUnlockingScript(key, tx.MsgTx, index, input.LockingScript, input.Value,
		SigHashAll+SigHashForkID, hashCache)
	if err == nil {
		tx.MsgTx.TxIn[index].UnlockingScript = unlockingScript
	}
	return err
''')]),
 ('n-multi-reverse', '', [(S, '''			l := len(subUnlockingScripts)
			for i := l - 1; i >= 0; i-- {
				unlockingScript.Write(subUnlockingScripts[i])
			}
''', '''			l := len(subUnlockingScripts)
			for i := range subUnlockingScripts {
				unlockingScript.Write(subUnlockingScripts[l-1-i])
			}
''')]),
 ('n-multi-found', '', [(S, '''			if foundKey {
				signedCount++
				if signedCount == required {
					// Mark any remaining signers as not provided.
					for count < total {
						subUnlockingScripts = append(subUnlockingScripts,
							bitcoin.Script{bitcoin.OP_FALSE})
						count++
					}

					completed = true
					break
				}
			} else {
				subUnlockingScripts = append(subUnlockingScripts,
					bitcoin.Script{bitcoin.OP_FALSE})
			}
''', '''			if !foundKey {
				subUnlockingScripts = append(subUnlockingScripts,
					bitcoin.Script{bitcoin.OP_FALSE})
				continue
			}

			signedCount++
			if signedCount == required {
				// Mark any remaining signers as not provided.
				for ; count < total; count++ {
					subUnlockingScripts = append(subUnlockingScripts,
						bitcoin.Script{bitcoin.OP_FALSE})
				}

				completed = true
				break
			}
''')]),
 ('n-multi-helper', '', [(S, '''		var usedKeys []bitcoin.Key
		count := uint32(0)
		signedCount''', '''		notProvided := func(scripts []bitcoin.Script) []bitcoin.Script {
			return append(scripts, bitcoin.Script{bitcoin.OP_FALSE})
		}

		var usedKeys []bitcoin.Key
		count := uint32(0)
		signedCount'''), (S, '''						subUnlockingScripts = append(subUnlockingScripts,
							bitcoin.Script{bitcoin.OP_FALSE})
						count++''', '''						subUnlockingScripts = notProvided(subUnlockingScripts)
						count++'''), (S, '''			} else {
				subUnlockingScripts = append(subUnlockingScripts,
					bitcoin.Script{bitcoin.OP_FALSE})
			}''', '''			} else {
				subUnlockingScripts = notProvided(subUnlockingScripts)
			}''')]),
 ('n-multi-early', '', [(S, '''		if completed {
			// Reverse''', '''		if !completed {
			return nil, errors.Wrapf(ErrMissingPrivateKey, "multi-pkg %d of %d: signers %d",
				required, total, signedCount)
		}

		if completed {
			// Reverse''')]),
 ('n-multi-pubkeys', '', [(S, '''		pubKeyHashes := make([][]byte, len(keys))
		for i, key := range keys {
			pubKeyHashes[i] = bitcoin.Hash160(key.PublicKey().Bytes())
		}

		scriptItems''', '''		var pubKeyHashes [][]byte
		for _, key := range keys {
			pubKeyHashes = append(pubKeyHashes, bitcoin.Hash160(key.PublicKey().Bytes()))
		}

		scriptItems''')]),
 ('n-multi-inline', '', [(S, '''				if !bytes.Equal(pubKeyHashes[i], scriptItem.Data) {
					continue
				}

				sub''', '''				if !bytes.Equal(bitcoin.Hash160(key.PublicKey().Bytes()), scriptItem.Data) {
					continue
				}

				sub'''), (S, '''		pubKeyHashes := make([][]byte, len(keys))
		for i, key := range keys {
			pubKeyHashes[i] = bitcoin.Hash160(key.PublicKey().Bytes())
		}

		scriptItems''', '''		scriptItems'''), (S, '			for i, key := range keys {\n				if', '			for _, key := range keys {\n				if')]),
 ('n-fill-both', '', [(S, '''					// Mark any remaining signers as not provided.
					for count < total {
						subUnlockingScripts = append(subUnlockingScripts,
							bitcoin.Script{bitcoin.OP_FALSE})
						count++
					}
''', '''					// Mark any remaining signers as not provided.
					for i := count; i < total; i++ {
						subUnlockingScripts = append(subUnlockingScripts,
							bitcoin.Script{bitcoin.OP_FALSE})
					}
''')]),
]
