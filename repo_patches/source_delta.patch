From 020ba75563e6a95c74d255ac754d2ffb450e5b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:20 +0000
Subject: [PATCH 01/12] fix: keep output records with their outputs in
 RandomizeOutputsAfter

The supplements were read from the start of the list instead of from the
outputs being shuffled, so shuffled outputs got the records of others.
---
 break_value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/break_value.go b/break_value.go
index abfebc6..bea9c7d 100644
--- a/break_value.go
+++ b/break_value.go
@@ -400,7 +400,7 @@ func (tx *TxBuilder) RandomizeOutputsAfter(index int) {
 	for i, txout := range tx.MsgTx.TxOut[index+1:] {
 		randOutputs[i] = &Output{
 			TxOut:      *txout,
-			Supplement: *tx.Outputs[i],
+			Supplement: *tx.Outputs[index+1+i],
 		}
 	}
 
-- 
2.43.0


From c86ff445a223a7e4b202c35559462c2ad4e55816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:20 +0000
Subject: [PATCH 02/12] fix: refuse updating the input just past the end

UpdateInputUTXO panicked when the index equalled the number of inputs.
---
 inputs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inputs.go b/inputs.go
index d13c0e7..91fa522 100644
--- a/inputs.go
+++ b/inputs.go
@@ -43,7 +43,7 @@ func (tx *TxBuilder) AddInputUTXO(utxo bitcoin.UTXO) error {
 }
 
 func (tx *TxBuilder) UpdateInputUTXO(index int, utxo bitcoin.UTXO) error {
-	if index > len(tx.MsgTx.TxIn) {
+	if index >= len(tx.MsgTx.TxIn) {
 		return errors.New("Input index out of range")
 	}
 
-- 
2.43.0


From 24197358a252c2b88e04416eb8b73a1b8f08f7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:20 +0000
Subject: [PATCH 03/12] fix: refuse inserting an output past the end

InsertOutput panicked for an index beyond the number of outputs.
---
 outputs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/outputs.go b/outputs.go
index 413ce67..1a66cb3 100644
--- a/outputs.go
+++ b/outputs.go
@@ -201,6 +201,10 @@ func (tx *TxBuilder) AddOutput(lockScript bitcoin.Script, value uint64,
 func (tx *TxBuilder) InsertOutput(index int, lockScript bitcoin.Script, value uint64,
 	isRemainder, isDust bool) error {
 
+	if index > len(tx.MsgTx.TxOut) {
+		return errors.New("Output index out of range")
+	}
+
 	output := &OutputSupplement{
 		IsRemainder: isRemainder,
 		IsDust:      isDust,
-- 
2.43.0


From fa6fdd7e129990638b7423ebac32065d94f2bad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:20 +0000
Subject: [PATCH 04/12] fix: don't underflow when subtracting from an output
 below dust

The unsigned difference wrapped around when the output was already worth
less than its dust limit, so any amount could be subtracted.
---
 outputs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/outputs.go b/outputs.go
index 1a66cb3..78b9980 100644
--- a/outputs.go
+++ b/outputs.go
@@ -272,7 +272,7 @@ func (tx *TxBuilder) SubtractValueFromOutput(index uint32, value uint64) error {
 
 	dust := DustLimitForOutput(tx.MsgTx.TxOut[index], tx.DustFeeRate)
 
-	if tx.MsgTx.TxOut[index].Value-dust < value {
+	if tx.MsgTx.TxOut[index].Value < dust || tx.MsgTx.TxOut[index].Value-dust < value {
 		return fmt.Errorf("Output value too small to subtract : %d - %d (dust %d)",
 			tx.MsgTx.TxOut[index].Value, value, dust)
 	}
-- 
2.43.0


From 54cdcd955c583a458a3b062a3bc26d90a5d26207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:20 +0000
Subject: [PATCH 05/12] fix: don't switch to send max when the max output is
 refused

AddMaxOutput left SendMax set after failing to build the locking script.
---
 outputs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/outputs.go b/outputs.go
index 78b9980..fc76e41 100644
--- a/outputs.go
+++ b/outputs.go
@@ -150,11 +150,11 @@ func (tx *TxBuilder) AddDustOutput(address bitcoin.RawAddress, isRemainder bool)
 // AddMaxOutput adds an output to TxBuilder with a script paying the specified address and the
 // remainder flag set so that it gets all remaining value after fees are taken.
 func (tx *TxBuilder) AddMaxOutput(address bitcoin.RawAddress) error {
-	tx.SendMax = true
 	script, err := address.LockingScript()
 	if err != nil {
 		return err
 	}
+	tx.SendMax = true
 	return tx.AddOutput(script, 0, true, false)
 }
 
-- 
2.43.0


From e1df1c5799ea1ae59d5e46936536bcc3d86df1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:20 +0000
Subject: [PATCH 06/12] fix: keep the unlocking script when signing one input
 fails

SignP2PKHInput cleared the existing unlocking script on an error.
---
 sign.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sign.go b/sign.go
index 0bfd78f..106dcb5 100644
--- a/sign.go
+++ b/sign.go
@@ -54,10 +54,14 @@ func (tx *TxBuilder) SignP2PKHInput(index int, key bitcoin.Key, hashCache *SigHa
 		return errors.Wrap(ErrWrongPrivateKey, fmt.Sprintf("Required : %x", hash.Bytes()))
 	}
 
-	tx.MsgTx.TxIn[index].UnlockingScript, err = P2PKHUnlockingScript(key, tx.MsgTx, index,
+	unlockingScript, err := P2PKHUnlockingScript(key, tx.MsgTx, index,
 		tx.Inputs[index].LockingScript, tx.Inputs[index].Value, SigHashAll+SigHashForkID, hashCache)
+	if err != nil {
+		return err
+	}
 
-	return err
+	tx.MsgTx.TxIn[index].UnlockingScript = unlockingScript
+	return nil
 }
 
 // Sign estimates and updates the fee, signs all inputs, and corrects the fee if necessary.
-- 
2.43.0


From a36326daa914ff49c14a1702dfcb49d040ccb5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:20 +0000
Subject: [PATCH 07/12] fix: leave the change output alone when a fee
 adjustment is refused

AdjustFee lowered the change value before returning that there is not
enough change for the fee.
---
 fees.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fees.go b/fees.go
index e054ae6..dd6639e 100644
--- a/fees.go
+++ b/fees.go
@@ -324,13 +324,13 @@ func (tx *TxBuilder) AdjustFee(amount int64) (bool, error) {
 		}
 
 		// Decrease change, thereby increasing the fee
-		tx.MsgTx.TxOut[changeOutputIndex].Value -= uint64(amount)
+		changeValue := tx.MsgTx.TxOut[changeOutputIndex].Value - uint64(amount)
 
 		outputFee, inputFee, _ := OutputTotalCost(tx.MsgTx.TxOut[changeOutputIndex].LockingScript,
 			tx.FeeRate)
 
 		// Check if change is below dust
-		if tx.MsgTx.TxOut[changeOutputIndex].Value < outputFee+inputFee {
+		if changeValue < outputFee+inputFee {
 			if !tx.Outputs[changeOutputIndex].addedForFee {
 				// Don't remove outputs unless they were added by fee adjustment
 				return false, errors.Wrap(ErrInsufficientValue, "Not enough change for tx fee")
@@ -341,6 +341,8 @@ func (tx *TxBuilder) AdjustFee(amount int64) (bool, error) {
 				tx.MsgTx.TxOut[changeOutputIndex+1:]...)
 			tx.Outputs = append(tx.Outputs[:changeOutputIndex], tx.Outputs[changeOutputIndex+1:]...)
 			done = true
+		} else {
+			tx.MsgTx.TxOut[changeOutputIndex].Value = changeValue
 		}
 	} else {
 		// Decrease fee, transfer to change
-- 
2.43.0


From 6b9fbb9733bba48fc49a8debfe52691617138104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:20 +0000
Subject: [PATCH 08/12] fix: estimate agent bitcoin transfer unlocking sizes

The error check was inverted: a matching script was reported as unknown
and any other unknown script dereferenced a nil match.
---
 fees/fees.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fees/fees.go b/fees/fees.go
index eb9b3d6..a177b37 100644
--- a/fees/fees.go
+++ b/fees/fees.go
@@ -139,7 +139,7 @@ func EstimateUnlockingSize(lockingScript bitcoin.Script) (int, error) {
 			int(required)*(MaxSignaturesPushDataSize+PublicKeyPushDataSize+1), nil
 	}
 
-	if info, err := agent_bitcoin_transfer.MatchScript(lockingScript); err != nil {
+	if info, err := agent_bitcoin_transfer.MatchScript(lockingScript); err == nil {
 		agentUnlockingSize, err := EstimateUnlockingSize(info.AgentLockingScript)
 		if err != nil {
 			return 0, errors.Wrap(err, "agent")
-- 
2.43.0


From e7f494c44c84ebe44e027ad291764771019c2e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:20 +0000
Subject: [PATCH 09/12] fix: use the value from the unlocking data as the input
 value

InputValue returned the size of the unlocking script.
---
 fees/fees.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fees/fees.go b/fees/fees.go
index a177b37..9722604 100644
--- a/fees/fees.go
+++ b/fees/fees.go
@@ -233,7 +233,7 @@ func InputValue(txin *wire.TxIn, inputOutput *wire.TxOut) (uint64, error) {
 		return 0, MissingUnlockingData
 	}
 
-	return unlockingData.Size, nil
+	return unlockingData.Value, nil
 }
 
 func InputSizeForUnlockingScriptSize(unlockingScriptSize int) int {
-- 
2.43.0


From e4fe47427a1b0be85020b38d2e5b25912b4e2ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:20 +0000
Subject: [PATCH 10/12] fix: round the assumed change output fee up

AddFunding truncated the fee of a P2PKH change output.
---
 inputs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inputs.go b/inputs.go
index 91fa522..ef74c25 100644
--- a/inputs.go
+++ b/inputs.go
@@ -185,7 +185,7 @@ func (tx *TxBuilder) AddFunding(utxos []bitcoin.UTXO) error {
 	if changeDustLimit == 0 {
 		// Use P2PKH dust limit
 		changeDustLimit = DustLimit(P2PKHOutputSize, tx.DustFeeRate)
-		changeOutputFee = uint64(float32(P2PKHOutputSize) * tx.FeeRate)
+		changeOutputFee = EstimatedFeeValue(P2PKHOutputSize, float64(tx.FeeRate))
 	}
 
 	for _, utxo := range utxos {
-- 
2.43.0


From 551c9656eb00b8783a64503cd02006a9e4704f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:38 +0000
Subject: [PATCH 11/12] fix: match the agent script template without its verify
 op code

The agent part of an agent bitcoin transfer ends with a verify op code, so
its template was never recognised and no size was estimated.
---
 fees/fees.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fees/fees.go b/fees/fees.go
index 9722604..7383e4d 100644
--- a/fees/fees.go
+++ b/fees/fees.go
@@ -140,7 +140,9 @@ func EstimateUnlockingSize(lockingScript bitcoin.Script) (int, error) {
 	}
 
 	if info, err := agent_bitcoin_transfer.MatchScript(lockingScript); err == nil {
-		agentUnlockingSize, err := EstimateUnlockingSize(info.AgentLockingScript)
+		agentLockingScript := info.AgentLockingScript.Copy()
+		agentLockingScript.RemoveHardVerify()
+		agentUnlockingSize, err := EstimateUnlockingSize(agentLockingScript)
 		if err != nil {
 			return 0, errors.Wrap(err, "agent")
 		}
-- 
2.43.0


From a7cbd88ceab67693ba6ba2855f26b5e888de23e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:38 +0000
Subject: [PATCH 12/12] fix: give inputs with missing data an empty record

The builders returned with ErrMissingInputData held nil records, on which
nearly every later operation panicked.
---
 txbuilder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/txbuilder.go b/txbuilder.go
index d542968..34e00f5 100644
--- a/txbuilder.go
+++ b/txbuilder.go
@@ -202,6 +202,7 @@ func NewTxBuilderFromWire(feeRate, dustFeeRate float32, tx *wire.MsgTx,
 			}
 		}
 		if !found {
+			result.Inputs[i] = &InputSupplement{}
 			missingErr = ErrMissingInputData
 		}
 	}
@@ -244,6 +245,7 @@ func NewTxBuilderFromWireUTXOs(feeRate, dustFeeRate float32, tx *wire.MsgTx,
 			}
 		}
 		if !found {
+			result.Inputs[i] = &InputSupplement{}
 			missingErr = ErrMissingInputData
 		}
 	}
-- 
2.43.0

