import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from state import HEAD

BUGS = []

def bug(**k):
    BUGS.append(k)

bug(id='p18-duplicate-counted', property='P18',
    needs='funding with broken change from UTXOs of which one is already an input',
    breaks='AddFundingBreakChange counts the value of a UTXO that is already an input a second time, so it may succeed with inputs worth less than the outputs.',
    edits=[('inputs.go', '''	neededFunding := estFeeValue + outputValue - inputValue
	duplicateValue := uint64(0)

	for _, utxo := range utxos {
		if err := tx.AddInputUTXO(utxo); err != nil {
			if errors.Cause(err) == ErrDuplicateInput {
				duplicateValue += utxo.Value
''', '''	neededFunding := estFeeValue + outputValue - inputValue

	for _, utxo := range utxos {
		if err := tx.AddInputUTXO(utxo); err != nil {
			if errors.Cause(err) == ErrDuplicateInput {
				inputValue += utxo.Value
''')],
    demo=HEAD + '''
func TestZZDemo(t *testing.T) {
	for _, again := range []bool{false, true} {
		tx := NewTxBuilder(1, 1)
		first := zzUTXO(t, 1, 0, 20000)
		if err := tx.AddInputUTXO(first); err != nil {
			t.Fatal(err)
		}
		if err := tx.AddOutput(zzScript(t), 50000, false, false); err != nil {
			t.Fatal(err)
		}
		ra, err := zzKey(t).RawAddress()
		if err != nil {
			t.Fatal(err)
		}
		var utxos []bitcoin.UTXO
		if again {
			utxos = append(utxos, first)
		}
		utxos = append(utxos, zzUTXO(t, 2, 0, 25000), zzUTXO(t, 3, 0, 25000))
		if err := tx.AddFundingBreakChange(utxos, 1000, []AddressKeyID{{Address: ra, KeyID: "c"}}); err != nil {
			t.Fatal(err)
		}
		if in, out := tx.InputValue(), tx.OutputValue(true); in < out {
			t.Fatalf("inputs are worth %d, outputs %d", in, out)
		}
	}
}
''')

bug(id='p18-change-kept-as-fee', property='P18',
    needs='an excess between the dust limit and that plus the fee of an output, and a remainder output',
    breaks='AddFunding leaves an excess above the dust limit to the fee although there is a remainder output that could take it.',
    edits=[('inputs.go', '''			if change > changeDustLimit {
				for i''', '''			if change > changeDustLimit+changeOutputFee {
				for i''')],
    demo=HEAD + '''
func TestZZDemo(t *testing.T) {
	script := zzScript(t)
	need := uint64(0)
	for _, extra := range []uint64{0, 550, 560, 570, 580, 2000} {
		tx := NewTxBuilder(1, 1)
		if err := tx.AddOutput(script, 5000, true, false); err != nil {
			t.Fatal(err)
		}
		utxo := zzUTXO(t, 1, 0, 0)
		fee, err := UTXOFee(utxo, 1)
		if err != nil {
			t.Fatal(err)
		}
		need = 5000 + tx.EstimatedFee() + fee
		utxo.Value = need + extra
		if err := tx.AddFunding([]bitcoin.UTXO{utxo}); err != nil {
			t.Fatal(err)
		}
		if got := tx.MsgTx.TxOut[0].Value; got != 5000+extra {
			t.Fatalf("%d of %d given to the remainder", got-5000, extra)
		}
	}
}
''')

bug(id='p09-clear-keeps-sequences', property='P09',
    needs='clearing the cache after a sequence number changed',
    breaks='Clear keeps the fragment of the sequence numbers, which is then used for a transaction with other ones.',
    edits=[('sig_hash.go', '''	shc.hashPrevOuts = nil
	shc.hashSequence = nil
	shc.hashOutputs = nil
''', '''	shc.hashPrevOuts = nil
	shc.ClearOutputs()
''')],
    demo=HEAD + '''
func TestZZDemo(t *testing.T) {
	tx := NewTxBuilder(1, 1)
	if err := tx.AddInputUTXO(zzUTXO(t, 1, 0, 1000)); err != nil {
		t.Fatal(err)
	}
	if err := tx.AddOutput(zzScript(t), 600, false, false); err != nil {
		t.Fatal(err)
	}
	shc := &SigHashCache{}
	get := func(c *SigHashCache) string {
		return string(c.HashPrevOuts(tx.MsgTx)) + string(c.HashSequence(tx.MsgTx)) + string(c.HashOutputs(tx.MsgTx))
	}
	get(shc)
	tx.MsgTx.TxIn[0].Sequence = 7
	tx.MsgTx.TxIn[0].PreviousOutPoint.Index = 3
	tx.MsgTx.TxOut[0].Value = 601
	shc.Clear()
	if get(shc) != get(&SigHashCache{}) {
		t.Fatal("a fragment survived")
	}
}
''')

bug(id='p04-index-as-int32', property='P04',
    needs='an output index of 2^31 or more',
    breaks='UpdateOutput takes the index as a signed number in its test, so a very large one passes it and crashes.',
    edits=[('outputs.go', '''func (tx *TxBuilder) UpdateOutput(index uint32, lockingScript bitcoin.Script) error {
	if int(index) >= len(tx.MsgTx.TxOut) {
''', '''func (tx *TxBuilder) UpdateOutput(index uint32, lockingScript bitcoin.Script) error {
	if int32(index) >= int32(len(tx.MsgTx.TxOut)) {
''')],
    demo=HEAD + '''
func TestZZDemo(t *testing.T) {
	tx := NewTxBuilder(1, 1)
	if err := tx.AddOutput(zzScript(t), 600, false, false); err != nil {
		t.Fatal(err)
	}
	if err := tx.UpdateOutput(0, zzScript(t)); err != nil {
		t.Fatal(err)
	}
	for _, index := range []uint32{1, 2, 1 << 20, 1<<32 - 1} {
		if err := tx.UpdateOutput(index, zzScript(t)); err == nil {
			t.Fatalf("no error for %d", index)
		}
	}
}
''')

bug(id='p21-single-precision', property='P21',
    needs='a fee rate that single precision cannot hold and an input of another template than P2PKH',
    breaks='The fee of an input is computed in single precision, which loses the last bits before rounding up.',
    edits=[('inputs.go', '''import (
	"fmt"
''', '''import (
	"fmt"
	"math"
'''), ('inputs.go', '''func UTXOFee(utxo bitcoin.UTXO, feeRate float32) (uint64, error) {
	size, err := InputSize(utxo.LockingScript)
	if err != nil {
		return 0, errors.Wrap(err, "unlock size")
	}
	return EstimatedFeeValue(uint64(size), float64(feeRate)), nil
''', '''func UTXOFee(utxo bitcoin.UTXO, feeRate float32) (uint64, error) {
	size, err := InputSize(utxo.LockingScript)
	if err != nil {
		return 0, errors.Wrap(err, "unlock size")
	}
	return uint64(math.Ceil(float64(float32(size) * feeRate))), nil
''')],
    demo=HEAD + '''
func TestZZDemo(t *testing.T) {
	pk, err := bitcoin.NewRawAddressPublicKey(zzKey(t).PublicKey())
	if err != nil {
		t.Fatal(err)
	}
	script, err := pk.LockingScript()
	if err != nil {
		t.Fatal(err)
	}
	utxo := zzUTXO(t, 1, 0, 1000)
	for _, s := range []bitcoin.Script{utxo.LockingScript, script} {
		utxo.LockingScript = s
		size, err := InputSize(s)
		if err != nil {
			t.Fatal(err)
		}
		for n := 1; n < 200; n++ {
			rate := float32(n) / 100
			fee, err := UTXOFee(utxo, rate)
			if err != nil {
				t.Fatal(err)
			}
			if want := EstimatedFeeValue(uint64(size), float64(rate)); fee != want {
				t.Fatalf("fee %d, want %d at %v", fee, want, rate)
			}
		}
	}
}
''')

bug(id='p30-required-marks', property='P30',
    needs='a multi-key script that requires two or more signatures',
    breaks='The standalone package counts one mark for all signatures of a multi-key input instead of one for each.',
    edits=[('fees/fees.go', '''			int(required)*(MaxSignaturesPushDataSize+PublicKeyPushDataSize+1), nil
''', '''			int(required)*(MaxSignaturesPushDataSize+PublicKeyPushDataSize) + 1, nil
''')],
    demo=HEAD.replace('	"github.com/tokenized/pkg/wire"\n', '	"github.com/tokenized/pkg/wire"\n	"github.com/tokenized/txbuilder/fees"\n') + '''
func TestZZDemo(t *testing.T) {
	for total := 2; total < 5; total++ {
		for required := 1; required <= total; required++ {
			s, err := bitcoin.NewMultiPKHTemplate(uint32(required), uint32(total))
			if err != nil {
				t.Fatal(err)
			}
			var keys []bitcoin.PublicKey
			for i := 0; i < total; i++ {
				keys = append(keys, zzKey(t).PublicKey())
			}
			script, err := s.LockingScript(keys)
			if err != nil {
				t.Fatal(err)
			}
			a, err := UnlockingScriptSize(script)
			if err != nil {
				t.Fatal(err)
			}
			b, err := fees.EstimateUnlockingSize(script)
			if err != nil {
				t.Fatal(err)
			}
			if a != b {
				t.Fatalf("%d of %d: %d and %d", required, total, a, b)
			}
		}
	}
}
''')
