import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from state import HEAD

BUGS = []

def bug(**k):
    BUGS.append(k)

bug(id='p07-shared-input-record', property='P07',
    needs='copying a builder with an input that is not signed yet and then updating it through one of the two builders',
    breaks='The copy keeps the record of an unsigned input by reference, so a later update of that input in the copy changes the original.',
    edits=[('txbuilder.go', '''		c := input.Copy()
		result.Inputs[i] = &c
''', '''		c := input.Copy()
		result.Inputs[i] = &c
		if i < len(tx.MsgTx.TxIn) && len(tx.MsgTx.TxIn[i].UnlockingScript) == 0 {
			// Nothing to protect yet.
			result.Inputs[i] = input
		}
''')],
    demo=HEAD + '''
func TestZZDemo(t *testing.T) {
	for _, signed := range []bool{true, false} {
		tx := NewTxBuilder(1, 1)
		if err := tx.AddInputUTXO(zzUTXO(t, 1, 0, 1000)); err != nil {
			t.Fatal(err)
		}
		if signed {
			tx.MsgTx.TxIn[0].UnlockingScript = bitcoin.Script{1, 2}
		}
		c := tx.Copy()
		c.Inputs[0].Value = 5
		if tx.Inputs[0].Value != 1000 {
			t.Fatalf("original changed through the copy: %d", tx.Inputs[0].Value)
		}
	}
}
''')

bug(id='p25-missing-forgotten', property='P25',
    needs='a transaction whose input without supplied data is followed by one with data',
    breaks='A later input whose output is supplied clears the missing-data error of an earlier one.',
    edits=[('txbuilder.go', '''				result.Inputs[i] = &InputSupplement{
					LockingScript: utxo.LockingScript,
					Value:         utxo.Value,
					KeyID:         utxo.KeyID,
				}
				found = true
				break
			}
		}
		if !found {
			result.Inputs[i] = &InputSupplement{}
			missingErr = ErrMissingInputData
		}
''', '''				result.Inputs[i] = &InputSupplement{
					LockingScript: utxo.LockingScript,
					Value:         utxo.Value,
					KeyID:         utxo.KeyID,
				}
				found = true
				break
			}
		}
		missingErr = nil
		if !found {
			result.Inputs[i] = &InputSupplement{}
			missingErr = ErrMissingInputData
		}
''')],
    demo=HEAD + '''
func TestZZDemo(t *testing.T) {
	src := NewTxBuilder(1, 1)
	us := []bitcoin.UTXO{zzUTXO(t, 1, 0, 1000), zzUTXO(t, 2, 3, 2000)}
	for _, u := range us {
		if err := src.AddInputUTXO(u); err != nil {
			t.Fatal(err)
		}
	}
	if _, err := NewTxBuilderFromWireUTXOs(1, 1, src.MsgTx, us); err != nil {
		t.Fatal(err)
	}
	for i := range us {
		if _, err := NewTxBuilderFromWireUTXOs(1, 1, src.MsgTx, us[i:i+1]); err == nil {
			t.Fatalf("missing data not reported with only utxo %d", i)
		}
	}
}
''')
