import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from state import HEAD

BUGS = []

def bug(**k):
    BUGS.append(k)

bug(id='p26-unknown-input-fee', property='P26',
    needs='funding with an output whose script template is unknown',
    breaks='AddFunding carries on when the fee of an input cannot be determined, and reports success with that input in the transaction.',
    edits=[('inputs.go', '''		inputFee, err := UTXOFee(utxo, tx.FeeRate)
		if err != nil {
			return errors.Wrap(err, "utxo fee")
		}
''', '''		inputFee, err := UTXOFee(utxo, tx.FeeRate)
		if err != nil {
			inputFee = EstimatedFeeValue(uint64(MaximumP2PKHInputSize), float64(tx.FeeRate))
		}
''')],
    demo=HEAD + '''
func TestZZDemo(t *testing.T) {
	for _, known := range []bool{true, false} {
		tx := NewTxBuilder(1, 1)
		if err := tx.AddOutput(zzScript(t), 2000, false, false); err != nil {
			t.Fatal(err)
		}
		tx.SetChangeLockingScript(zzScript(t), "c")
		u := zzUTXO(t, 1, 0, 100000)
		if !known {
			u.LockingScript = bitcoin.Script{bitcoin.OP_TRUE, bitcoin.OP_TRUE}
		}
		err := tx.AddFunding([]bitcoin.UTXO{u})
		if known && err != nil {
			t.Fatal(err)
		}
		if !known && err == nil {
			t.Fatal("funding with an unknown script succeeded")
		}
	}
}
''')

bug(id='p28-wrong-key-named', property='P28',
    needs='signing an input with a key that does not belong to it',
    breaks='The error of a wrong key contains the private key that was given.',
    edits=[('sign.go', '''		return errors.Wrap(ErrWrongPrivateKey, fmt.Sprintf("Required : %x", hash.Bytes()))
''', '''		return errors.Wrap(ErrWrongPrivateKey, fmt.Sprintf("Required : %x, provided : %x", hash.Bytes(),
			key.Bytes()[1:]))
''')],
    demo=HEAD.replace('"testing"\n', '"encoding/hex"\n	"strings"\n	"testing"\n') + '''
func TestZZDemo(t *testing.T) {
	tx := NewTxBuilder(1, 1)
	if err := tx.AddInputUTXO(zzUTXO(t, 1, 0, 1000)); err != nil {
		t.Fatal(err)
	}
	k := zzKey(t)
	err := tx.SignP2PKHInput(0, k, &SigHashCache{})
	if err == nil {
		t.Fatal("signed with the wrong key")
	}
	if strings.Contains(err.Error(), hex.EncodeToString(k.Number())) {
		t.Fatal("the error contains the key")
	}
}
''')

bug(id='p29-unavailable-skipped', property='P29',
    needs='a last outpoint whose transaction cannot be fetched',
    breaks='create_send leaves out an outpoint it cannot fetch and prints a transaction without it.',
    edits=[('cmd/main.go', '''		outpointTx, err := GetTx(ctx, cfg, outpoint.Hash)
		if err != nil {
			fmt.Printf("Failed to get outpoint tx : %s\\n", err)
			return
		}

		if outpoint.Index >= uint32(len(outpointTx.TxOut)) {
			fmt.Printf("Invalid outpoint index : %d >= %d\\n", outpoint.Index, len(outpointTx.TxOut))
			return
		}

		output := outpointTx.TxOut[outpoint.Index]
		if err := tx.AddInput(*outpoint, output.LockingScript, output.Value); err != nil {
			fmt.Printf("Failed to add spend of outpoint : %s\\n", err)
			return
		}
	}

	if !changeAddress''', '''		outpointTx, err := GetTx(ctx, cfg, outpoint.Hash)
		if err != nil {
			fmt.Printf("Failed to get outpoint tx : %s\\n", err)
			if i == len(args)-1 {
				break // the others may be enough
			}
			return
		}

		if outpoint.Index >= uint32(len(outpointTx.TxOut)) {
			fmt.Printf("Invalid outpoint index : %d >= %d\\n", outpoint.Index, len(outpointTx.TxOut))
			return
		}

		output := outpointTx.TxOut[outpoint.Index]
		if err := tx.AddInput(*outpoint, output.LockingScript, output.Value); err != nil {
			fmt.Printf("Failed to add spend of outpoint : %s\\n", err)
			return
		}
	}

	if !changeAddress''')],
    dir='cmd/',
    demo='''package main

import (
	"context"
	"io/ioutil"
	"os"
	"strings"
	"testing"

	"github.com/tokenized/pkg/bitcoin"
)

func TestZZDemo(t *testing.T) {
	k, err := bitcoin.GenerateKey(bitcoin.MainNet)
	if err != nil {
		t.Fatal(err)
	}
	ra, err := k.RawAddress()
	if err != nil {
		t.Fatal(err)
	}
	address := bitcoin.NewAddressFromRawAddress(ra, bitcoin.MainNet).String()

	old := os.Stdout
	r, w, err := os.Pipe()
	if err != nil {
		t.Fatal(err)
	}
	os.Stdout = w
	// No transaction has this id, so it can not be fetched.
	CreateSend(context.Background(), &Config{Network: bitcoin.MainNet},
		[]string{k.String(), address, "0", strings.Repeat("00", 31) + "01:0"})
	w.Close()
	os.Stdout = old
	b, err := ioutil.ReadAll(r)
	if err != nil {
		t.Fatal(err)
	}
	if strings.Contains(string(b), "Tx") {
		t.Fatalf("a transaction was printed: %s", b)
	}
}
''')
