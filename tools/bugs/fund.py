import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from state import HEAD

BUGS = []

def bug(**k):
    BUGS.append(k)

bug(id='p15-change-size-assumed', property='P15',
    needs='a change script that is not pay to public key hash',
    breaks='A change output created by a fee adjustment is charged for the bytes of a P2PKH output whatever its script, so its value is off by the difference.',
    edits=[('fees.go', '''			var newSize uint64
			if len(tx.ChangeScript) == 0 {
				// Assume P2PKH for costs of adding an output so we don't fail out of this function
				// with an error if the remaining amount is too small to worry about.
				newSize = currentSize + P2PKHOutputSize
			} else {
				newSize = currentSize + uint64(OutputSize(tx.ChangeScript))
			}
			newFee''', '''			// Assume P2PKH for costs of adding an output so we don't fail out of this function
			// with an error if the remaining amount is too small to worry about.
			newSize := currentSize + P2PKHOutputSize
			newFee''')],
    demo=HEAD + '''
func TestZZDemo(t *testing.T) {
	pk, err := bitcoin.NewRawAddressPublicKey(zzKey(t).PublicKey())
	if err != nil {
		t.Fatal(err)
	}
	pkScript, err := pk.LockingScript()
	if err != nil {
		t.Fatal(err)
	}
	for _, script := range []bitcoin.Script{zzScript(t), pkScript} {
		tx := NewTxBuilder(1, 1)
		if err := tx.AddInputUTXO(zzUTXO(t, 1, 0, 100000)); err != nil {
			t.Fatal(err)
		}
		if err := tx.AddOutput(zzScript(t), 2000, false, false); err != nil {
			t.Fatal(err)
		}
		tx.SetChangeLockingScript(script, "c")
		if _, err := tx.AdjustFee(-20000); err != nil {
			t.Fatal(err)
		}
		if len(tx.MsgTx.TxOut) != 2 {
			t.Fatal("no change output")
		}
		if got, want := tx.MsgTx.TxOut[1].Value, uint64(20000-OutputSize(script)); got != want {
			t.Fatalf("change %d, want %d", got, want)
		}
	}
}
''')

bug(id='p19-break-sweep-stops', property='P19',
    needs='sending the maximum from a transaction whose inputs already pay for its outputs, with broken change',
    breaks='AddFundingBreakChange adds none of the UTXOs when the transaction is already funded, although it is to send the maximum.',
    edits=[('inputs.go', '''	// Check if tx is already funded.
	if !tx.SendMax && inputValue > outputValue && inputValue-outputValue >= estFeeValue {
		if !remainderIncluded {
''', '''	// Check if tx is already funded.
	if inputValue > outputValue && inputValue-outputValue >= estFeeValue {
		if !remainderIncluded && !tx.SendMax {
''')],
    demo=HEAD + '''
func TestZZDemo(t *testing.T) {
	for _, first := range []uint64{1, 100000} {
		tx := NewTxBuilder(1, 1)
		if err := tx.AddInputUTXO(zzUTXO(t, 1, 0, first)); err != nil {
			t.Fatal(err)
		}
		ra, err := zzKey(t).RawAddress()
		if err != nil {
			t.Fatal(err)
		}
		if err := tx.AddMaxOutput(ra); err != nil {
			t.Fatal(err)
		}
		utxos := []bitcoin.UTXO{zzUTXO(t, 2, 0, 50000), zzUTXO(t, 3, 0, 50000)}
		if err := tx.AddFundingBreakChange(utxos, 1000, []AddressKeyID{{Address: ra, KeyID: "c"}}); err != nil {
			t.Fatal(err)
		}
		if len(tx.MsgTx.TxIn) != 3 {
			t.Fatalf("%d inputs", len(tx.MsgTx.TxIn))
		}
	}
}
''')

BREAK = '''
func zzAddresses(t *testing.T, n int) []AddressKeyID {
	var result []AddressKeyID
	for i := 0; i < n; i++ {
		ra, err := zzKey(t).RawAddress()
		if err != nil {
			t.Fatal(err)
		}
		result = append(result, AddressKeyID{Address: ra, KeyID: string('a' + rune(i))})
	}
	return result
}
'''

bug(id='p23-abort-keeps-fee', property='P23',
    needs='breaking with fees subtracted, where the value is used up but for the cost of one more output',
    breaks='When no further output is worth adding, the fee that was taken out for it is lost instead of going to the last output.',
    edits=[('break_value.go', '''	for _, lockingScript := range lockingScripts[:len(lockingScripts)-1] {
		outputFee, inputFee, _ := OutputTotalCost(lockingScript, feeRate)

		if subtractFee {
			if remaining <= outputFee {
				break // remaining amount is less than fee to include another output
			}
			remaining -= outputFee

			if remaining <= inputFee || remaining < breakValue {
				remaining += outputFee // abort adding this output, so add the fee for it back in
				break                  // remaining amount is less than dust required to include next address
			}
		} else if remaining <= inputFee || remaining < breakValue {
			break // remaining amount is less than dust required to include next address
		}

''', '''	for _, lockingScript := range lockingScripts[:len(lockingScripts)-1] {
		outputFee, inputFee, _ := OutputTotalCost(lockingScript, feeRate)

		if subtractFee {
			if remaining <= outputFee {
				break // remaining amount is less than fee to include another output
			}
			remaining -= outputFee
		}

		if remaining <= inputFee || remaining < breakValue {
			break // remaining amount is less than dust required to include next address
		}

''')],
    demo=HEAD + '''
func TestZZDemo(t *testing.T) {
	var scripts []bitcoin.Script
	for i := 0; i < 10; i++ {
		scripts = append(scripts, zzScript(t))
	}
	for value := uint64(1500); value < 20000; value += 7 {
		outputs, err := BreakValueLockingScripts(value, 1000, scripts, 1, 1, true, true)
		if err != nil {
			t.Fatal(err)
		}
		sum := uint64(0)
		for _, o := range outputs {
			sum += o.TxOut.Value + uint64(OutputSize(o.TxOut.LockingScript))
		}
		if len(outputs) > 0 && sum != value {
			t.Fatalf("value %d, sum %d", value, sum)
		}
	}
}
''')

bug(id='p24-remainder-key', property='P24',
    needs='a value that is used up before the last recipient',
    breaks='The output with the rest of the value carries the key ID of the last recipient instead of the one it pays.',
    edits=[('break_value.go', '''				Supplement: OutputSupplement{
					IsRemainder: lastIsRemainder,
					KeyID:       addresses[nextIndex].KeyID,
				},
			})
		} else if len(result) > 0 {
			// Add to last output
			result[len(result)-1].Supplement.IsRemainder = lastIsRemainder
			result[len(result)-1].TxOut.Value += remaining
		}
	} else {
''', '''				Supplement: OutputSupplement{
					IsRemainder: lastIsRemainder,
					KeyID:       addresses[len(addresses)-1].KeyID,
				},
			})
		} else if len(result) > 0 {
			// Add to last output
			result[len(result)-1].Supplement.IsRemainder = lastIsRemainder
			result[len(result)-1].TxOut.Value += remaining
		}
	} else {
''')],
    demo=HEAD + BREAK + '''
func TestZZDemo(t *testing.T) {
	addresses := zzAddresses(t, 10)
	for value := uint64(500); value < 20000; value += 7 {
		outputs, err := BreakValue(value, 1000, addresses, 1, 1, true, true)
		if err != nil {
			t.Fatal(err)
		}
		for _, o := range outputs {
			for _, a := range addresses {
				s, err := a.Address.LockingScript()
				if err != nil {
					t.Fatal(err)
				}
				if s.Equal(o.TxOut.LockingScript) && a.KeyID != o.Supplement.KeyID {
					t.Fatalf("key %s, want %s", o.Supplement.KeyID, a.KeyID)
				}
			}
		}
	}
}
''')
