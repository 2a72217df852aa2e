import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from state import HEAD

BUGS = []

def bug(**k):
    BUGS.append(k)

S, F = 'sign.go', 'fees.go'

SIGN = HEAD.replace('import (\n\t"testing"\n', 'import (\n\t"bytes"\n\t"testing"\n\n\t"github.com/pkg/errors"\n') + '''
var _ = errors.Cause

func zzInput(t *testing.T, tx *TxBuilder, k bitcoin.Key, hash byte, index uint32, value uint64) {
	s, err := k.LockingScript()
	if err != nil {
		t.Fatal(err)
	}
	u := bitcoin.UTXO{Index: index, Value: value, LockingScript: s}
	u.Hash[0] = hash
	if err := tx.AddInputUTXO(u); err != nil {
		t.Fatal(err)
	}
}

// zzVerify checks the signature of a P2PKH input.
func zzVerify(t *testing.T, tx *TxBuilder, i int) {
	items, err := bitcoin.ParseScriptItems(bytes.NewReader(tx.MsgTx.TxIn[i].UnlockingScript), -1)
	if err != nil || len(items) != 2 {
		t.Fatalf("input %d: unlocking script %v", i, err)
	}
	d := items[0].Data
	sig, err := bitcoin.SignatureFromBytes(d[:len(d)-1])
	if err != nil {
		t.Fatal(err)
	}
	pub, err := bitcoin.PublicKeyFromBytes(items[1].Data)
	if err != nil {
		t.Fatal(err)
	}
	h, err := SignatureHash(tx.MsgTx, i, tx.Inputs[i].LockingScript, tx.Inputs[i].Value, SigHashAll+SigHashForkID, &SigHashCache{})
	if err != nil {
		t.Fatal(err)
	}
	if !sig.Verify(*h, pub) {
		t.Fatalf("input %d: signature does not verify", i)
	}
}
'''

bug(id='p10-shared-parent-value', property='P10',
    needs='two inputs that spend different outputs of the same transaction',
    breaks='An input that spends the same transaction as the one before it is signed with the value of the one before it.',
    edits=[(S, '''	value := tx.Inputs[index].Value

	if lockingScript.IsP2PKH() {
''', '''	value := tx.Inputs[index].Value
	if index > 0 && tx.MsgTx.TxIn[index].PreviousOutPoint.Hash.Equal(&tx.MsgTx.TxIn[index-1].PreviousOutPoint.Hash) {
		value = tx.Inputs[index-1].Value
	}

	if lockingScript.IsP2PKH() {
''')],
    demo=SIGN + '''
func TestZZDemo(t *testing.T) {
	tx := NewTxBuilder(0.5, 0.25)
	k := zzKey(t)
	zzInput(t, tx, k, 1, 0, 5000)
	zzInput(t, tx, k, 1, 1, 6000)
	zzInput(t, tx, k, 2, 0, 7000)
	if err := tx.AddOutput(zzScript(t), 10000, false, false); err != nil {
		t.Fatal(err)
	}
	tx.SetChangeLockingScript(zzScript(t), "c")
	if _, err := tx.Sign([]bitcoin.Key{k}); err != nil {
		t.Fatal(err)
	}
	for i := range tx.Inputs {
		zzVerify(t, tx, i)
	}
}
''')

bug(id='p11-keeps-signed', property='P11',
    needs='a second round of fee adjustment, for instance because a key is missing',
    breaks='Later rounds skip inputs that have a signature, which was made before the outputs changed.',
    edits=[(S, '''		for index, _ := range tx.Inputs {
			signKeys, err := tx.signInput(index, keys, shc)
			if err != nil {
				if errors.Cause(err) == ErrMissingPrivateKey {
					missingKey = true
					continue
				}
				return nil, errors''', '''		for index, _ := range tx.Inputs {
			if attempt < 3 && len(tx.MsgTx.TxIn[index].UnlockingScript) > 0 {
				continue // signed in an earlier attempt
			}

			signKeys, err := tx.signInput(index, keys, shc)
			if err != nil {
				if errors.Cause(err) == ErrMissingPrivateKey {
					missingKey = true
					continue
				}
				return nil, errors''')],
    demo=SIGN + '''
func TestZZDemo(t *testing.T) {
	tx := NewTxBuilder(1, 1)
	k := zzKey(t)
	zzInput(t, tx, k, 1, 0, 50000)
	zzInput(t, tx, zzKey(t), 2, 0, 60000)
	if err := tx.AddOutput(zzScript(t), 10000, false, false); err != nil {
		t.Fatal(err)
	}
	tx.SetChangeLockingScript(zzScript(t), "c")
	if _, err := tx.Sign([]bitcoin.Key{k}); errors.Cause(err) != ErrMissingPrivateKey {
		t.Fatal(err)
	}
	zzVerify(t, tx, 0)
}
''')

bug(id='p12-later-key-hides-missing', property='P12',
    needs='an input without key followed by one with a key',
    breaks='Success is reported although an earlier input could not be signed.',
    edits=[(S, '''			result = appendKeys(result, signKeys...)
		}

		// Check fee and adjust if too low
''', '''			result = appendKeys(result, signKeys...)
			missingKey = missingKey && len(result) == 0
		}

		// Check fee and adjust if too low
''')],
    demo=SIGN + '''
func TestZZDemo(t *testing.T) {
	tx := NewTxBuilder(1, 1)
	k := zzKey(t)
	zzInput(t, tx, zzKey(t), 2, 0, 60000)
	zzInput(t, tx, k, 1, 0, 50000)
	if err := tx.AddOutput(zzScript(t), 10000, false, false); err != nil {
		t.Fatal(err)
	}
	tx.SetChangeLockingScript(zzScript(t), "c")
	if _, err := tx.Sign([]bitcoin.Key{k}); errors.Cause(err) != ErrMissingPrivateKey {
		t.Fatalf("error : %v", err)
	}
}
''')

bug(id='p13-unlocking-data-resigned', property='P13',
    needs='an input whose unlocking script is embedded unlocking data',
    breaks='Sign-only replaces an unlocking script that is already there if it starts with a false return.',
    edits=[(S, '''		if len(tx.MsgTx.TxIn[index].UnlockingScript) > 0 {
			continue // already signed''', '''		if len(tx.MsgTx.TxIn[index].UnlockingScript) > 0 &&
			!tx.MsgTx.TxIn[index].UnlockingScript.IsFalseOpReturn() {
			continue // already signed''')],
    demo=SIGN + '''
func TestZZDemo(t *testing.T) {
	tx := NewTxBuilder(1, 1)
	k := zzKey(t)
	zzInput(t, tx, k, 1, 0, 50000)
	zzInput(t, tx, k, 2, 0, 50000)
	data := bitcoin.Script{bitcoin.OP_FALSE, bitcoin.OP_RETURN, 1, 7}
	tx.MsgTx.TxIn[1].UnlockingScript = data.Copy()
	if _, err := tx.SignOnly([]bitcoin.Key{k}); err != nil {
		t.Fatal(err)
	}
	zzVerify(t, tx, 0)
	if !bytes.Equal(tx.MsgTx.TxIn[1].UnlockingScript, data) {
		t.Fatalf("changed to %v", tx.MsgTx.TxIn[1].UnlockingScript)
	}
}
''')

bug(id='p16-single-output-pays-fee', property='P16',
    needs='a transaction whose only output is not marked as remainder and a fee above what is left over',
    breaks='The fee is taken from the only output although it is not marked as remainder.',
    edits=[(F, '''	if amount > int64(0) {
		// Increase fee, transfer from change
''', '''	if amount > int64(0) {
		if changeOutputIndex == 0xffffffff && len(tx.Outputs) == 1 && len(tx.ChangeScript) == 0 {
			changeOutputIndex = 0 // the only recipient pays
		}

		// Increase fee, transfer from change
''')],
    demo=SIGN + '''
func TestZZDemo(t *testing.T) {
	tx := NewTxBuilder(1, 1)
	zzInput(t, tx, zzKey(t), 1, 0, 50000)
	if err := tx.AddOutput(zzScript(t), 50000, false, false); err != nil {
		t.Fatal(err)
	}
	tx.CalculateFee()
	if tx.MsgTx.TxOut[0].Value != 50000 {
		t.Fatalf("value %d", tx.MsgTx.TxOut[0].Value)
	}
}
''')

bug(id='p17-change-not-removable', property='P17',
    needs='fee adjustment that adds the first output of the transaction',
    breaks='The added change output is not marked as added by fee adjustment, so a later adjustment may not remove it.',
    edits=[(F, '''				tx.Outputs[len(tx.Outputs)-1].addedForFee = true
''', '''				tx.Outputs[len(tx.Outputs)-1].addedForFee = len(tx.Outputs) > 1
''')],
    demo=SIGN + '''
func TestZZDemo(t *testing.T) {
	tx := NewTxBuilder(1, 1)
	zzInput(t, tx, zzKey(t), 1, 0, 50000)
	tx.SetChangeLockingScript(zzScript(t), "c")
	if err := tx.CalculateFee(); err != nil {
		t.Fatal(err)
	}
	if len(tx.Outputs) != 1 {
		t.Fatalf("%d outputs", len(tx.Outputs))
	}
	v := tx.MsgTx.TxOut[0].Value
	if _, err := tx.AdjustFee(int64(v) - 10); err != nil {
		t.Fatal(err)
	}
	if len(tx.Outputs) != 0 {
		t.Fatalf("%d outputs", len(tx.Outputs))
	}
}
''')

MULTI = SIGN + '''
func zzMultiInput(t *testing.T, tx *TxBuilder, required uint32, keys []bitcoin.Key) {
	pubs := make([]bitcoin.PublicKey, len(keys))
	for i, k := range keys {
		pubs[i] = k.PublicKey()
	}
	s, err := bitcoin.NewMultiPKHTemplate(required, uint32(len(keys)))
	if err != nil {
		t.Fatal(err)
	}
	ls, err := s.LockingScript(pubs)
	if err != nil {
		t.Fatal(err)
	}
	u := bitcoin.UTXO{Value: 50000, LockingScript: ls}
	u.Hash[0] = 1
	if err := tx.AddInputUTXO(u); err != nil {
		t.Fatal(err)
	}
}
'''

bug(id='p31-extra-signature', property='P31',
    needs='more keys than required, with the last listed key among them',
    breaks='The last listed key signs as well although the required number has already signed.',
    edits=[(S, '''					for count < total {
						subUnlockingScripts = append(subUnlockingScripts,
							bitcoin.Script{bitcoin.OP_FALSE})
						count++
					}

					completed = true
					break
''', '''					completed = true
					if count+1 == total {
						continue
					}
					for count < total {
						subUnlockingScripts = append(subUnlockingScripts,
							bitcoin.Script{bitcoin.OP_FALSE})
						count++
					}
					break
''')],
    demo=MULTI + '''
func TestZZDemo(t *testing.T) {
	for n := 2; n <= 3; n++ {
		tx := NewTxBuilder(1, 1)
		keys := []bitcoin.Key{zzKey(t), zzKey(t), zzKey(t)}
		zzMultiInput(t, tx, 2, keys)
		if err := tx.AddOutput(zzScript(t), 10000, false, false); err != nil {
			t.Fatal(err)
		}
		if _, err := tx.SignOnly(keys[:n]); err != nil {
			t.Fatal(err)
		}
		items, err := bitcoin.ParseScriptItems(bytes.NewReader(tx.MsgTx.TxIn[0].UnlockingScript), -1)
		if err != nil {
			t.Fatal(err)
		}
		if len(items) != 7 {
			t.Fatalf("%d items with %d keys", len(items), n)
		}
	}
}
''')
