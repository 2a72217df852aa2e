BUGS = []

def bug(**k):
    BUGS.append(k)

HEAD = '''package txbuilder

import (
	"testing"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
)

var _ = wire.MaxTxInSequenceNum

func zzKey(t *testing.T) bitcoin.Key {
	k, err := bitcoin.GenerateKey(bitcoin.MainNet)
	if err != nil {
		t.Fatal(err)
	}
	return k
}

func zzScript(t *testing.T) bitcoin.Script {
	s, err := zzKey(t).LockingScript()
	if err != nil {
		t.Fatal(err)
	}
	return s
}

func zzUTXO(t *testing.T, hash byte, index uint32, value uint64) bitcoin.UTXO {
	u := bitcoin.UTXO{Index: index, Value: value, LockingScript: zzScript(t), KeyID: string('a' + rune(hash))}
	u.Hash[0] = hash
	return u
}
'''

bug(id='p01-remove-last-input', property='P01',
    needs='removing the last of several inputs',
    breaks='RemoveInput at the last position drops the record of the first input, so records and inputs no longer correspond.',
    edits=[('inputs.go', '''	tx.Inputs = append(tx.Inputs[:index], tx.Inputs[index+1:]...)
	tx.MsgTx.TxIn = append(tx.MsgTx.TxIn[:index], tx.MsgTx.TxIn[index+1:]...)
	return nil
''', '''	if index+1 == len(tx.Inputs) {
		tx.Inputs = tx.Inputs[len(tx.Inputs)-index:]
	} else {
		tx.Inputs = append(tx.Inputs[:index], tx.Inputs[index+1:]...)
	}
	tx.MsgTx.TxIn = append(tx.MsgTx.TxIn[:index], tx.MsgTx.TxIn[index+1:]...)
	return nil
''')],
    demo=HEAD + '''
func TestZZDemo(t *testing.T) {
	tx := NewTxBuilder(1, 1)
	for i := byte(0); i < 3; i++ {
		if err := tx.AddInputUTXO(zzUTXO(t, i+1, 0, uint64(i)+100)); err != nil {
			t.Fatal(err)
		}
	}
	if err := tx.RemoveInput(2); err != nil {
		t.Fatal(err)
	}
	if len(tx.Inputs) != 2 || len(tx.MsgTx.TxIn) != 2 {
		t.Fatal("wrong lengths")
	}
	for i := range tx.Inputs {
		if tx.MsgTx.TxIn[i].PreviousOutPoint.Hash[0] != byte(i+1) || tx.Inputs[i].Value != uint64(i)+100 {
			t.Fatalf("input %d has the record of another", i)
		}
	}
}
''')

bug(id='p02-update-skips-earlier', property='P02',
    needs='updating an input to an outpoint that an input before it already spends',
    breaks='UpdateInputUTXO only compares with later inputs, so the same outpoint can be spent twice.',
    edits=[('inputs.go', '''		if i == index {
			continue
		}
''', '''		if i <= index {
			continue
		}
''')],
    demo=HEAD + '''
func TestZZDemo(t *testing.T) {
	tx := NewTxBuilder(1, 1)
	for i := byte(0); i < 3; i++ {
		if err := tx.AddInputUTXO(zzUTXO(t, i+1, 0, uint64(i)+100)); err != nil {
			t.Fatal(err)
		}
	}
	if err := tx.UpdateInputUTXO(2, zzUTXO(t, 1, 0, 5)); err == nil {
		t.Fatal("duplicate accepted")
	}
	if err := tx.UpdateInputUTXO(1, zzUTXO(t, 3, 0, 5)); err == nil {
		t.Fatal("duplicate accepted")
	}
	if err := tx.UpdateInputUTXO(1, zzUTXO(t, 9, 0, 5)); err != nil {
		t.Fatal(err)
	}
}
''')

bug(id='p03-insert-front-keyid', property='P03',
    needs='inserting an input at the front of a transaction that already has inputs',
    breaks='InsertInput at index 0 takes over the key identifier of the input it displaces when the given UTXO has a value of zero.',
    edits=[('inputs.go', '''	afterInputs := make([]*InputSupplement, len(tx.Inputs)-index)
''', '''	if index < len(tx.Inputs) && utxo.Value == 0 {
		input.KeyID = tx.Inputs[index].KeyID
	}

	afterInputs := make([]*InputSupplement, len(tx.Inputs)-index)
''')],
    demo=HEAD + '''
func TestZZDemo(t *testing.T) {
	tx := NewTxBuilder(1, 1)
	if err := tx.AddInputUTXO(zzUTXO(t, 1, 0, 100)); err != nil {
		t.Fatal(err)
	}
	u := zzUTXO(t, 2, 0, 0)
	if err := tx.InsertInput(0, u); err != nil {
		t.Fatal(err)
	}
	if tx.Inputs[0].KeyID != u.KeyID || tx.Inputs[0].Value != u.Value {
		t.Fatal("record differs from the UTXO")
	}
}
''')

bug(id='p05-value-before-check', property='P05',
    needs='adding a value below dust to an output marked as dust',
    breaks='AddValueToOutput clears the dust flag before refusing the value, so a refused edit changes the builder.',
    edits=[('outputs.go', '''	if tx.Outputs[index].IsDust {
		if value < DustLimitForOutput(tx.MsgTx.TxOut[index], tx.DustFeeRate) {
			return ErrBelowDustValue
		}
		tx.Outputs[index].IsDust = false
''', '''	if tx.Outputs[index].IsDust {
		tx.Outputs[index].IsDust = value == 0
		if value < DustLimitForOutput(tx.MsgTx.TxOut[index], tx.DustFeeRate) {
			return ErrBelowDustValue
		}
''')],
    demo=HEAD + '''
func TestZZDemo(t *testing.T) {
	tx := NewTxBuilder(1, 1)
	if err := tx.AddOutput(zzScript(t), 0, false, true); err != nil {
		t.Fatal(err)
	}
	was := tx.MsgTx.TxOut[0].Value
	if err := tx.AddValueToOutput(0, 1); err == nil {
		t.Fatal("accepted")
	}
	if !tx.Outputs[0].IsDust || tx.MsgTx.TxOut[0].Value != was {
		t.Fatal("refused edit changed the output")
	}
}
''')

bug(id='p06-estimate-fills-value', property='P06',
    needs='asking for the input value of a transaction with embedded unlocking data',
    breaks='InputValue stores the embedded value into the input record while only reporting it.',
    edits=[('fees.go', '''						inputValue += unlockData.Value
						continue
''', '''						input.Value = unlockData.Value
						inputValue += input.Value
						continue
''')],
    demo=HEAD.replace('import (', 'import (\n\t"github.com/tokenized/channels"\n\t"github.com/tokenized/channels/unlocking_data"\n') + '''
func TestZZDemo(t *testing.T) {
	tx := NewTxBuilder(1, 1)
	ud := &unlocking_data.UnlockingData{Size: 107, Value: 5000}
	script, err := channels.Wrap(ud)
	if err != nil {
		t.Fatal(err)
	}
	if err := tx.AddInput(wire.OutPoint{}, nil, 0); err != nil {
		t.Fatal(err)
	}
	tx.MsgTx.TxIn[0].UnlockingScript = script
	if v := tx.InputValue(); v != 5000 {
		t.Fatalf("value %d", v)
	}
	if tx.Inputs[0].Value != 0 {
		t.Fatal("query changed the record")
	}
}
''')

bug(id='p27-increments-alias', property='P27',
    needs='breaking a quantity that is large compared with the break value',
    breaks='BreakQuantity extends a slice of the package-level increments in place, so every later call of any break function uses other increments.',
    edits=[('break_value.go', '''		if remaining < breakValue {
			break // remaining amount is less than dust required to include next address
		}

		inc := BreakIncrements[rand.Intn(len(BreakIncrements))]
''', '''		if remaining < breakValue {
			break // remaining amount is less than dust required to include next address
		}

		increments := BreakIncrements
		if exponent == 4 {
			increments = append(increments[:2], 10)
		}
		inc := increments[rand.Intn(len(increments))]
''')],
    demo=HEAD + '''
func TestZZDemo(t *testing.T) {
	_ = zzScript(t)
	if _, err := BreakQuantity(100000000, 10, 5); err != nil {
		t.Fatal(err)
	}
	if BreakIncrements[0] != 1 || BreakIncrements[1] != 2 || BreakIncrements[2] != 5 {
		t.Fatalf("increments changed: %v", BreakIncrements)
	}
}
''')
