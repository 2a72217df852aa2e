import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from state import HEAD

BUGS = []

def bug(**k):
    BUGS.append(k)

bug(id='p08-none-outputs', property='P08',
    needs='a signature hash of type NONE requested without the fork bit',
    breaks='The sequence hash is dropped for NONE only when the type is exactly NONE with the fork bit, so NONE without the fork bit commits to all sequences.',
    edits=[('sig_hash.go', '''		hashType&sigHashTypeMask != SigHashNone {
''', '''		hashType != SigHashNone|SigHashForkID {
''')],
    demo=HEAD + '''
func TestZZDemo(t *testing.T) {
	tx := wire.NewMsgTx(1)
	for i := byte(0); i < 2; i++ {
		in := &wire.TxIn{Sequence: 5}
		in.PreviousOutPoint.Hash[0] = i + 1
		tx.AddTxIn(in)
	}
	tx.AddTxOut(&wire.TxOut{Value: 5, LockingScript: zzScript(t)})
	s := zzScript(t)
	for _, ty := range []SigHashType{SigHashNone, SigHashNone | SigHashForkID} {
		tx.TxIn[1].Sequence = 5
		x, err := SignatureHash(tx, 0, s, 9, ty, &SigHashCache{})
		if err != nil {
			t.Fatal(err)
		}
		tx.TxIn[1].Sequence = 6
		y, err := SignatureHash(tx, 0, s, 9, ty, &SigHashCache{})
		if err != nil {
			t.Fatal(err)
		}
		if !x.Equal(y) {
			t.Fatalf("type %x commits to the other sequence", ty)
		}
	}
}
''')

bug(id='p20-large-output-count', property='P20',
    needs='a transaction with more than 252 outputs',
    breaks='The output count prefix is sized from the low byte of the count only.',
    edits=[('fees.go', '''		wire.VarIntSerializeSize(uint64(len(tx.MsgTx.TxOut)))

	for i, input''', '''		wire.VarIntSerializeSize(uint64(len(tx.MsgTx.TxOut)&0xff))

	for i, input''')],
    demo=HEAD + '''
func TestZZDemo(t *testing.T) {
	tx := NewTxBuilder(1, 1)
	base := tx.EstimatedSize()
	s := zzScript(t)
	for i := 0; i < 300; i++ {
		if err := tx.AddOutput(s, 10000, false, false); err != nil {
			t.Fatal(err)
		}
	}
	if got := tx.EstimatedSize(); got != base+300*34+2 {
		t.Fatalf("size %d, want %d", got, base+300*34+2)
	}
}
''')

bug(id='p22-subtract-to-dust', property='P22',
    needs='subtracting a value that leaves an output between one satoshi and its dust limit, when the output is a remainder',
    breaks='The dust limit used by the subtraction is that of a bare size instead of three times the size plus the input that would spend it.',
    edits=[('outputs.go', '''	dust := DustLimitForOutput(tx.MsgTx.TxOut[index], tx.DustFeeRate)

''', '''	dust := DustLimit(tx.MsgTx.TxOut[index].SerializeSize(), tx.DustFeeRate)
	if tx.Outputs[index].IsRemainder {
		dust, _ = OutputFeeAndDustForLockingScript(tx.MsgTx.TxOut[index].LockingScript, tx.DustFeeRate, tx.DustFeeRate)
	}

''')],
    demo=HEAD + '''
func TestZZDemo(t *testing.T) {
	for _, rem := range []bool{false, true} {
		tx := NewTxBuilder(1, 1)
		if err := tx.AddOutput(zzScript(t), 2000, rem, false); err != nil {
			t.Fatal(err)
		}
		limit := DustLimitForOutput(tx.MsgTx.TxOut[0], tx.DustFeeRate)
		if err := tx.SubtractValueFromOutput(0, 2000-limit+100); err == nil && tx.MsgTx.TxOut[0].Value < limit {
			t.Fatalf("left under dust: %d", tx.MsgTx.TxOut[0].Value)
		}
	}
}
''')

bug(id='p32-keeps-old-keyid', property='P32',
    needs='setting a change script that an output already marked as remainder pays, with a different key identifier',
    breaks='An output that is already a remainder keeps its old key identifier.',
    edits=[('outputs.go', '''		if output.LockingScript.Equal(lockingScript) {
''', '''		if output.LockingScript.Equal(lockingScript) && !tx.Outputs[i].IsRemainder {
''')],
    demo=HEAD + '''
func TestZZDemo(t *testing.T) {
	tx := NewTxBuilder(1, 1)
	s := zzScript(t)
	for _, rem := range []bool{false, true} {
		if err := tx.AddOutput(s, 2000, rem, false); err != nil {
			t.Fatal(err)
		}
	}
	if err := tx.SetChangeLockingScript(s, "k1"); err != nil {
		t.Fatal(err)
	}
	for i, o := range tx.Outputs {
		if !o.IsRemainder || o.KeyID != "k1" {
			t.Fatalf("output %d not updated", i)
		}
	}
}
''')
