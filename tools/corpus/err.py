# edits for P26, P28, P29: error handling, key flow and the command
F, I, B, S, O, T, C, H, FF = 'fees.go', 'inputs.go', 'break_value.go', 'sign.go', 'outputs.go', 'txbuilder.go', 'cmd/main.go', 'sig_hash.go', 'fees/fees.go'
ALL = ['P26', 'P28', 'P29']
ADDIN = '''		output := outpointTx.TxOut[outpoint.Index]
		if err := tx.AddInput(*outpoint, output.LockingScript, output.Value); err != nil {
			fmt.Printf("Failed to add spend of outpoint : %s\\n", err)
			return
		}
	}

	if !changeAddress'''
SIGNC = '''	if _, err := tx.Sign([]bitcoin.Key{key}); err != nil {
		fmt.Printf("Failed to sign transaction : %s\\n", err)
		return
	}

	buf := &bytes.Buffer{}
	if err := tx.MsgTx.Serialize(buf); err != nil {
		fmt.Printf("Failed to serialize tx : %s\\n", err)
		return
	}

	fmt.Printf("Tx : %s\\n", tx.MsgTx.StringWithAddresses(bitcoin.MainNet))

	h := hex.EncodeToString(buf.Bytes())
	fmt.Printf("Tx Hex : %s\\n", h)
}

type UnspentTx'''
KEY = '''	key, err := bitcoin.KeyFromStr(args[0])
	if err != nil {
		fmt.Printf("Invalid key : %s : %s\\n", args[0], err)
		return
	}

	changeAddress'''
CASES = [
 # P26
 ('fund-fee', 'P26', [(I, '''			return errors.Wrap(err, "utxo fee")
''', '''			continue
''')]),
 ('fund-add-change', 'P26', [(I, '''						return errors.Wrap(err, "adding change")
''', '''						break
''')]),
 ('fund-wrong-cause', 'P26', [(I, '''			if errors.Cause(err) == ErrDuplicateInput {
				duplicateValue += utxo.Value
				continue
			}
			return errors.Wrap(err, "adding input")
		}

		inputFee''', '''			duplicateValue += utxo.Value
			continue
		}

		inputFee''')]),
 ('utxofee-default', 'P26', [(I, '''func UTXOFee(utxo bitcoin.UTXO, feeRate float32) (uint64, error) {
	size, err := InputSize(utxo.LockingScript)
	if err != nil {
		return 0, errors.Wrap(err, "unlock size")
	}
''', '''func UTXOFee(utxo bitcoin.UTXO, feeRate float32) (uint64, error) {
	size, err := InputSize(utxo.LockingScript)
	if err != nil {
		size = 148
	}
''')]),
 ('wrap-nil', 'P26', [(I, '''				outputs, err := BreakValue(changeValue, breakValue, changeAddresses, tx.DustFeeRate,
''', '''				outputs, berr := BreakValue(changeValue, breakValue, changeAddresses, tx.DustFeeRate,
'''), (I, '''				if err != nil {
					return errors.Wrap(err, "break change")
''', '''				if berr != nil {
					return errors.Wrap(err, "break change")
''')]),
 ('sign-input-skip', 'P26', [(S, '''			if errors.Cause(err) == ErrMissingPrivateKey {
				missingKey = true
				continue
			}
			return nil, errors.Wrap(err, fmt.Sprintf("sign input %d", index))
		}

		result = appendKeys(result, signKeys...)
	}
''', '''			if errors.Cause(err) == ErrMissingPrivateKey {
				missingKey = true
			}
			continue
		}

		result = appendKeys(result, signKeys...)
	}
''')]),
 ('sign-hidden-missing', 'P12', [(S, '''	if missingKey {
		return result, ErrMissingPrivateKey
	}
	return result, nil
}
''', '''	if missingKey && len(result) == 0 {
		return result, ErrMissingPrivateKey
	}
	return result, nil
}
''')]),
 ('sign-adjust', 'P26', [(S, '''					outputValue+uint64(targetFee)))
			}
			return nil, err
		}

		attempt--''', '''					outputValue+uint64(targetFee)))
			}
			return result, nil
		}

		attempt--''')]),
 ('key-script', 'P26', [(S, '''				return nil, errors.Wrap(err, "key locking script")
''', '''				continue
''')]),
 # P28
 ('sign-err-key', 'P28', [(S, 'return nil, errors.Wrap(err, fmt.Sprintf("sign input %d", index))\n		}\n\n		result = appendKeys(result, signKeys...)\n	}\n', 'return nil, errors.Wrap(err, fmt.Sprintf("sign input %d with %v", index, keys))\n		}\n\n		result = appendKeys(result, signKeys...)\n	}\n')]),
 ('script-err-key', 'P28', [(S, '''				return nil, errors.Wrap(err, "key locking script")
''', '''				return nil, errors.Wrap(err, "key locking script "+key.String())
''')]),
 ('keyid', 'P28', [(S, '''			tx.MsgTx.TxIn[index].UnlockingScript = unlockingScript

			return []bitcoin.Key{key}, nil
		}

		return nil, ErrMissingPrivateKey
	}

	if lockingScript.IsP2PK()''', '''			tx.MsgTx.TxIn[index].UnlockingScript = unlockingScript
			if len(tx.Inputs[index].KeyID) == 0 {
				tx.Inputs[index].KeyID = key.String()
			}

			return []bitcoin.Key{key}, nil
		}

		return nil, ErrMissingPrivateKey
	}

	if lockingScript.IsP2PK()''')]),
 ('script-bytes', 'P28', [(S, '''		pubKeyBytes := make([][]byte, len(keys))
''', '''		pubKeyBytes := make([][]byte, len(keys))
		if len(keys) > 0 {
			tx.MsgTx.TxIn[index].UnlockingScript = bitcoin.Script(keys[0].Number())
		}
''')]),
 ('cmd-print-key', 'P28', [(C, KEY, KEY.replace('\n	changeAddress', '\n	fmt.Printf("Key : %s\\n", key)\n\n	changeAddress'))]),
 ('cmd-print-arg', 'P28', [(C, 'fmt.Printf("Failed to generate change address from key : %s\\n", err)\n		return\n	}\n\n	ad, err', 'fmt.Printf("Failed to generate change address from key %s : %s\\n", args[0], err)\n		return\n	}\n\n	ad, err')]),
 ('cmd-print-args', 'P28', [(C, '	amount, err := strconv.Atoi(args[2])\n', '	fmt.Printf("Arguments : %v\\n", args)\n	amount, err := strconv.Atoi(args[2])\n')]),
 ('cmd-print-join', 'P28', [(C, 'scriptText := strings.Join(args[1:], " ")', 'scriptText := strings.Join(args, " ")')]),
 ('cmd-print-before', 'P28', [(C, KEY, '	logger.Info(ctx, "Sending from %s", args[0])\n' + KEY)]),
 ('cmd-os-args', 'P28', [(C, '	switch os.Args[1] {', '	logger.Info(ctx, "Command : %v", os.Args[1:])\n	switch os.Args[1] {')]),
 ('cmd-loop-off', 'P28', [(C, '	for i := 3; i < len(args); i++ {', '	for i := 0; i < len(args); i++ {\n		logger.Info(ctx, "%d : %s", i, args[i])\n	}\n	for i := 3; i < len(args); i++ {')]),
 ('cmd-key-hash', 'P28', [(C, KEY, KEY.replace('\n	changeAddress', '\n	fmt.Printf("Key hash : %x\\n", sha256.Sum256(key.Number()))\n\n	changeAddress'))]),
 # P29
 ('cmd-add-continue', 'P29', [(C, ADDIN, ADDIN.replace('			return\n', '			continue\n'))]),
 ('cmd-sign-print', 'P29', [(C, SIGNC, SIGNC.replace('err)\n		return\n	}\n\n	buf', 'err)\n	}\n\n	buf'))]),
 ('cmd-sign-missing', 'P29', [(C, SIGNC, SIGNC.replace('; err != nil {\n		fmt.Printf("Failed to sign', '; err != nil && errors.Cause(err) != txbuilder.ErrMissingPrivateKey {\n		fmt.Printf("Failed to sign'))]),
 ('cmd-swallow-gettx', 'P29', [(C, '		return nil, errors.Wrap(err, "decode tx")\n', '		fmt.Printf("decode tx : %s\\n", err)\n')]),
 ('cmd-unmarshal', 'P29', [(C, '		return nil, errors.Wrap(err, "unmarshal")\n', '		return nil, nil\n')]),
 ('cmd-http-status', 'P29', [(C, '		return nil, errors.Wrap(err, "read response body")\n', '		return b, nil\n')]),
 ('cmd-void-helper', 'P29', [(C, '''	if err := tx.AddOutput(recipientScript, 0, true, true); err != nil {
		fmt.Printf("Failed to add recipient output : %s\\n", err)
		return
	}
''', '''	addRecipient(tx, recipientScript)
'''), (C, 'type UnspentTx', '''func addRecipient(tx *txbuilder.TxBuilder, script bitcoin.Script) {
	if err := tx.AddOutput(script, 0, true, true); err != nil {
		fmt.Printf("Failed to add recipient output : %s\\n", err)
		return
	}
}

type UnspentTx''')]),
 ('cmd-print-early', 'P29', [(C, SIGNC, '	fmt.Printf("Tx : %s\\n", tx.MsgTx.StringWithAddresses(bitcoin.MainNet))\n' + SIGNC)]),
 ('cmd-set-change', 'P29', [(C, '''	if err := tx.SetChangeAddress(changeAddress, ""); err != nil {
		fmt.Printf("Failed to set change address : %s\\n", err)
		return
	}

	if _, err := tx.Sign([]bitcoin.Key{key}); err != nil {
		fmt.Printf("Failed to sign transaction : %s\\n", err)
		return
	}

	buf := &bytes.Buffer{}
	if err := tx.MsgTx.Serialize(buf); err != nil {
		fmt.Printf("Failed to serialize tx : %s\\n", err)
		return
	}

	fmt.Printf("Tx : %s\\n", tx.MsgTx.StringWithAddresses(bitcoin.MainNet))

	h := hex.EncodeToString(buf.Bytes())
	fmt.Printf("Tx Hex : %s\\n", h)

	tefBuf := &bytes.Buffer{}
	if err := tef.Serialize(tefBuf, tx); err != nil {
		fmt.Printf("Failed to serialize extended tx format : %s\\n", err)
		return
	}

	h = hex.EncodeToString(tefBuf.Bytes())
	fmt.Printf("Extended Tx Hex : %s\\n", h)
}''', '''	tx.SetChangeAddress(changeAddress, "")

	if _, err := tx.Sign([]bitcoin.Key{key}); err != nil {
		fmt.Printf("Failed to sign transaction : %s\\n", err)
		return
	}

	buf := &bytes.Buffer{}
	if err := tx.MsgTx.Serialize(buf); err != nil {
		fmt.Printf("Failed to serialize tx : %s\\n", err)
		return
	}

	fmt.Printf("Tx : %s\\n", tx.MsgTx.StringWithAddresses(bitcoin.MainNet))

	h := hex.EncodeToString(buf.Bytes())
	fmt.Printf("Tx Hex : %s\\n", h)
}''')]),
 # behaviour is preserved
 ('n-cmd-print-helper', '', [(C, SIGNC, '''	if err := signAndPrint(tx, key); err != nil {
		fmt.Printf("%s\\n", err)
	}
}

func signAndPrint(tx *txbuilder.TxBuilder, key bitcoin.Key) error {
	if _, err := tx.Sign([]bitcoin.Key{key}); err != nil {
		return errors.Wrap(err, "Failed to sign transaction")
	}

	buf := &bytes.Buffer{}
	if err := tx.MsgTx.Serialize(buf); err != nil {
		return errors.Wrap(err, "Failed to serialize tx")
	}

	fmt.Printf("Tx : %s\\n", tx.MsgTx.StringWithAddresses(bitcoin.MainNet))

	h := hex.EncodeToString(buf.Bytes())
	fmt.Printf("Tx Hex : %s\\n", h)
	return nil
}

type UnspentTx''')]),
 ('n-cmd-bool-helper', '', [(C, '''	if err := tx.AddOutput(recipientScript, 0, true, true); err != nil {
		fmt.Printf("Failed to add recipient output : %s\\n", err)
		return
	}
''', '''	if !addRecipient(tx, recipientScript) {
		return
	}
'''), (C, 'type UnspentTx', '''func addRecipient(tx *txbuilder.TxBuilder, script bitcoin.Script) bool {
	if err := tx.AddOutput(script, 0, true, true); err != nil {
		fmt.Printf("Failed to add recipient output : %s\\n", err)
		return false
	}
	return true
}

type UnspentTx''')]),
 ('n-cmd-key-helper', '', [(C, KEY, '''	key, err := loadKey(args[0])
	if err != nil {
		fmt.Printf("%s\\n", err)
		return
	}

	changeAddress'''), (C, 'type UnspentTx', '''func loadKey(text string) (bitcoin.Key, error) {
	key, err := bitcoin.KeyFromStr(strings.TrimSpace(text))
	if err != nil {
		return bitcoin.Key{}, fmt.Errorf("Invalid key : %s : %s", text, err)
	}
	return key, nil
}

type UnspentTx''')]),
 ('n-cmd-key-bool', '', [(C, KEY, '''	key, ok := loadKey(args)
	if !ok {
		fmt.Printf("Arguments : %v\\n", args)
		return
	}

	changeAddress'''), (C, 'type UnspentTx', '''func loadKey(args []string) (bitcoin.Key, bool) {
	key, err := bitcoin.KeyFromStr(args[0])
	if err != nil {
		fmt.Printf("Invalid key : %s : %s\\n", args[0], err)
		return bitcoin.Key{}, false
	}
	return key, true
}

type UnspentTx''')]),
 ('n-cmd-inputs-helper', '', [(C, '''	for _, utxo := range utxos {
		if err := tx.AddInputUTXO(utxo); err != nil {
			fmt.Printf("Failed to add input : %s\\n", err)
			return
		}
	}
''', '''	if err := addAll(tx, utxos); err != nil {
		fmt.Printf("Failed to add input : %s\\n", err)
		return
	}
'''), (C, 'type UnspentTx', '''func addAll(tx *txbuilder.TxBuilder, utxos []bitcoin.UTXO) error {
	var result error
	for i := 0; i < len(utxos) && result == nil; i++ {
		result = tx.AddInputUTXO(utxos[i])
	}
	return result
}

type UnspentTx''')]),
 ('n-cmd-outpoints', '', [(C, '	for i := 3; i < len(args); i++ {\n		outpoint, err := wire.OutPointFromStr(args[i])\n		if err != nil {\n			fmt.Printf("Invalid outpoint : %s : %s\\n", args[i], err)', '	for _, arg := range args[3:] {\n		outpoint, err := wire.OutPointFromStr(arg)\n		if err != nil {\n			fmt.Printf("Invalid outpoint : %s : %s\\n", arg, err)')]),
 ('n-cmd-pub', '', [(C, KEY, KEY.replace('\n	changeAddress', '\n	fmt.Printf("Public key : %s\\n", key.PublicKey())\n\n	changeAddress'))]),
 ('n-cmd-close', '', [(C, '''	if httpResponse.StatusCode < 200''', '''	defer func() {
		if err := httpResponse.Body.Close(); err != nil {
			fmt.Printf("Failed to close : %s\\n", err)
		}
	}()
	if httpResponse.StatusCode < 200'''), (C, '	defer httpResponse.Body.Close()\n', '')]),
 ('n-named-err', '', [(I, '''func UTXOFee(utxo bitcoin.UTXO, feeRate float32) (uint64, error) {
	size, err := InputSize(utxo.LockingScript)
	if err != nil {
		return 0, errors.Wrap(err, "unlock size")
	}
''', '''func UTXOFee(utxo bitcoin.UTXO, feeRate float32) (fee uint64, err error) {
	var size int
	if size, err = InputSize(utxo.LockingScript); err != nil {
		err = errors.Wrap(err, "unlock size")
		return
	}
''')]),
 ('n-dup-helper', '', [(I, '''		if err := tx.AddInputUTXO(utxo); err != nil {
			if errors.Cause(err) == ErrDuplicateInput {
				duplicateValue += utxo.Value
				continue
			}
			return errors.Wrap(err, "adding input")
		}

		inputFee''', '''		added, err := tx.addNew(utxo)
		if err != nil {
			return errors.Wrap(err, "adding input")
		}
		if !added {
			duplicateValue += utxo.Value
			continue
		}

		inputFee'''), (I, '// AddFundingBreakChange', '''func (tx *TxBuilder) addNew(utxo bitcoin.UTXO) (bool, error) {
	if err := tx.AddInputUTXO(utxo); err != nil {
		if errors.Cause(err) == ErrDuplicateInput {
			return false, nil
		}
		return false, err
	}
	return true, nil
}

// AddFundingBreakChange''')]),
 ('n-missing-helper', '', [(S, '''	if missingKey {
		return result, ErrMissingPrivateKey
	}
	return result, nil
}
''', '''	return withMissing(result, missingKey)
}

func withMissing(result []bitcoin.Key, missing bool) ([]bitcoin.Key, error) {
	if missing {
		return result, ErrMissingPrivateKey
	}
	return result, nil
}
''')]),
 ('n-sign-first-err', '', [(S, '''			return nil, errors.Wrap(err, fmt.Sprintf("sign input %d", index))
		}

		result = appendKeys(result, signKeys...)
	}
''', '''			failed = errors.Wrap(err, fmt.Sprintf("sign input %d", index))
			break
		}

		result = appendKeys(result, signKeys...)
	}
	if failed != nil {
		return nil, failed
	}
'''), (S, '''	var result []bitcoin.Key
	missingKey := false
	for index''', '''	var result []bitcoin.Key
	var failed error
	missingKey := false
	for index''')]),
]
