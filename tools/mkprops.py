import json
P=[]
def add(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":state,"meaning":"state the property speaks about","where":files[0]}]
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

add("P01","Inputs and outputs stay paired with their supplemental data",
"After every public operation on a builder, whatever it returned and in whatever order operations were made, the builder holds exactly one supplemental record per transaction input and one per transaction output. Adding, inserting, removing and shuffling keep every record at the same position as the input or output it was added with.",
["histories","inputs"],"every sequence of builder operations, every index and every return path of each operation",
"The pairing is an invariant over arbitrarily long operation histories and over every index and error path; a test walks a handful of histories and usually looks at the transaction, not at the hidden parallel list.",
["inputs.go","outputs.go","break_value.go","fees.go","txbuilder.go"],
[("parallel slices","txbuilder.go TxBuilder.Inputs / MsgTx.TxIn, TxBuilder.Outputs / MsgTx.TxOut"),("insert / remove","inputs.go InsertInput, RemoveInput; outputs.go InsertOutput, RemoveOutput"),("change output removal","fees.go AdjustFee"),("shuffle","break_value.go RandomizeOutputs, RandomizeOutputsAfter")],
"TxBuilder.Inputs, TxBuilder.Outputs, MsgTx.TxIn, MsgTx.TxOut","state of the builder when any exported method returns")

add("P02","One outpoint is never spent twice",
"Adding, inserting or updating an input is refused with the duplicate-input error whenever another input of the transaction already spends the same transaction hash and output index. It is never refused as a duplicate when no other input spends exactly that hash and index.",
["histories","inputs"],"every set of existing inputs, every position, every new outpoint",
"The colliding input may be at any position among any number of inputs and differ in hash or index only; tests try one or two collisions.",
["inputs.go"],[("duplicate scan","inputs.go AddInputUTXO, AddInput, InsertInput, UpdateInputUTXO"),("funding skips duplicates","inputs.go AddFunding, AddFundingBreakChange")],None,"error returned and inputs of the transaction")

add("P03","An input records exactly the previous output it was given",
"A successful add, insert or update of an input leaves that input spending exactly the given transaction hash and output index, and its record carrying exactly the given locking script, value and (when given with a UTXO) key identifier. A newly added or inserted input is final (maximum sequence number), unsigned and at the requested position.",
["inputs","histories"],"every UTXO or outpoint and every position",
"A swapped or dropped field is only visible to a test that compares that particular field on that particular operation, and a wrong value or script only surfaces when a node rejects the signature.",
["inputs.go"],[("input construction","inputs.go AddInputUTXO, AddInput, InsertInput, UpdateInputUTXO")],None,"inputs of the builder after success")

add("P04","An out-of-range index is refused with an error",
"Every operation on the input or output at a given index that is able to return an error does so for an index at or past the end of that list (past the end, for an insertion), instead of crashing or touching another element. It never refuses, on that ground, an index that is inside the list.",
["inputs","histories"],"every non-negative index and every number of inputs and outputs",
"The boundary moves with the history of the builder and differs per list; tests try few sizes and almost never the exact boundary of every operation.",
["inputs.go","outputs.go","sign.go","sig_hash.go","txbuilder.go"],[("range guards","inputs.go InputAddress, UpdateInputUTXO, InsertInput, RemoveInput; outputs.go OutputAddress, InsertOutput, RemoveOutput, AddValueToOutput, SubtractValueFromOutput, SetOutputToDust, UpdateOutput; sign.go SignP2PKHInput; sig_hash.go SignatureHash; txbuilder.go InputOutput")],None,"error returned")

add("P05","A refused edit leaves the builder unchanged",
"When an operation that adds, inserts, updates or removes one input or output, changes one output's value or script, sets the change address, signs a single input, or adjusts the fee returns an error, the builder and its transaction are exactly as they were before the call.",
["inputs","histories","fault_sequences"],"every error return of every single-step operation",
"Each operation has several error returns reached under different conditions, and the damage (one list changed, a flag set, value taken) is invisible unless the test inspects all state after each failing call.",
["inputs.go","outputs.go","fees.go","sign.go"],[("error returns","all single-step operations in inputs.go and outputs.go; fees.go AdjustFee, CalculateFee, ZeroizeFee; sign.go SignP2PKHInput")],None,"builder state after a non-nil error")

add("P06","Queries never modify the builder",
"Operations that only report something (sizes, fees, values, addresses, counts, dust limits, identifiers, text or serialized forms, copies, signed status) never change the builder, the transaction or any argument passed to them.",
["inputs","histories"],"every query, every state, every path",
"A query that writes on one rarely taken path (for example a special script) still returns the right answer, so tests that check the answer pass.",
["fees.go","outputs.go","inputs.go","txbuilder.go","print.go","sign.go","fees/fees.go"],[("query methods","fees.go Fee..Remainder, UnlockingScriptSize; outputs.go DustLimit*; txbuilder.go accessors, Copy, String, Serialize; print.go TxString; fees/fees.go all")],None,"memory reachable from receiver and arguments")

add("P07","A copied builder is complete and independent",
"Copying a builder yields a builder equal to the original in every field, including those of each input and output record. Nothing reachable from the copy that can be modified is shared with the original, so no later operation on one can be seen through the other.",
["histories","inputs"],"every builder state and every later operation on either copy",
"Sharing shows only when a specific later mutation hits a shared slice or pointer; a forgotten field shows only in the operation that later depends on it.",
["txbuilder.go"],[("deep copy","txbuilder.go TxBuilder.Copy, InputSupplement.Copy, OutputSupplement.Copy, CopyString")],"all fields of TxBuilder, InputSupplement, OutputSupplement")

add("P08","Signature preimages follow the BIP-143 layout for every hash type",
"For hash types ALL, NONE and SINGLE, each with or without ANYONECANPAY, the signature preimage is the sequence of fields that BIP-143 prescribes: version, hash of all outpoints or zeros, hash of all sequences or zeros, the signed outpoint, the length-prefixed script code, the spent value, the input's sequence, hash of all outputs or of the output with the same index or zeros, lock time, and the hash type with the fork bit set, all little endian. The signature hash is the double SHA-256 of exactly that preimage.",
["inputs"],"every transaction, input index, script, value and standard hash type",
"Published vectors exercise few combinations of hash type, index and number of outputs; a misplaced condition shows only for one of them.",
["sig_hash.go"],[("preimage writer","sig_hash.go writeSignatureHashPreimageBytes"),("entry points","sig_hash.go SignatureHash, SignaturePreimage, SignatureHashPreimageBytes")],None,"returned hash or preimage")

add("P09","The signature hash cache only reuses the matching fragment",
"Each cached fragment (all outpoints, all sequences, all outputs) is the double SHA-256 of the serialization of exactly those elements of the given transaction, in order, and a request returns either that freshly computed value or what the same request stored before. Clearing the cache drops every fragment, and clearing the outputs drops the outputs fragment.",
["histories","inputs"],"every interleaving of requests and clears, every transaction",
"Wrong sharing between fragments or an incomplete clear needs a particular order of requests over a changed transaction, and then only shows as an invalid signature.",
["sig_hash.go"],[("cache","sig_hash.go SigHashCache.HashPrevOuts, HashSequence, HashOutputs, Clear, ClearOutputs")],"SigHashCache fields")

add("P10","Every signature is made for, and placed on, its own input",
"Whenever signing puts an unlocking script on an input, each signature inside it was computed over the current transaction for that same input, using that input's own recorded locking script and value, with hash type ALL|FORKID both in the digest and as the trailing byte of the signature. The public key pushed next to a signature belongs to the key that made it.",
["inputs","histories"],"every input position, every mix of script templates and keys",
"An off-by-one or stale value only appears with several inputs of differing values or scripts, and produces well-formed scripts that only a node rejects.",
["sign.go","sig_hash.go"],[("signing","sign.go SignP2PKHInput, signInput, P2PKHUnlockingScript, P2PKUnlockingScript, InputSignature")],None,"unlocking scripts of the transaction")

add("P11","Nothing signed changes after the signatures are made",
"When signing returns without error, or with only the missing-key error, no output, outpoint, sequence, version or lock time has been changed after any of the signatures made by that call were computed, and none of them used a cached hash of outputs that have changed since.",
["schedules","histories","inputs"],"every number of fee-adjustment rounds and every return path of signing",
"Stale signatures need a specific number of re-sign rounds caused by signature-length luck; a test run may never take the round that breaks.",
["sign.go","fees.go"],[("sign / adjust loop","sign.go Sign"),("outputs hash reset","sig_hash.go ClearOutputs")])

add("P12","An input is signed only with a key its script asks for",
"Signing puts an unlocking script on an input only with keys that match that input's locking script. Signing reports success only if every input that needed a signature got one; if some key is missing it reports the missing-key error, and a non-matching key given for a single input is refused with the wrong-key error.",
["inputs"],"every set and order of keys and inputs",
"Depends on combinations of keys and inputs (which is missing, in which position); tests try the matching ones.",
["sign.go"],[("key matching","sign.go signInput, SignP2PKHInput"),("missing key flag","sign.go Sign, SignOnly")])

add("P13","Sign-only changes nothing but unsigned inputs' unlocking scripts",
"Signing without fee adjustment never changes the unlocking script of an input that already has one, and changes nothing else in the builder or transaction: no output, value, outpoint, record or setting.",
["inputs","histories"],"every mix of signed and unsigned inputs",
"Only visible when inputs signed by others are present in particular positions.",
["sign.go"],[("skip signed inputs","sign.go SignOnly")])

add("P14","Successful signing pays at least the target fee",
"Whenever signing with fee adjustment returns without error, the total value of the inputs minus the total value of all outputs is at least the fee rate times the serialized size of the transaction as returned, rounded up. If that cannot be reached it returns the insufficient-value error instead.",
["inputs","schedules"],"every set of inputs and outputs, every fee rate, every number of adjustment rounds",
"The final size depends on signature lengths and the number of rounds, so which exit is taken differs between runs; a wrong comparison on one exit shows rarely and by a few satoshis.",
["sign.go","fees.go"],[("fee check after signing","sign.go Sign"),("adjustment","fees.go AdjustFee")])

add("P15","Fee adjustment moves exactly the requested amount",
"A fee adjustment that returns without error changes the total value of the outputs by exactly the negative of the requested amount, except that value too small to be worth an output is left to the fee: an uneconomic change output that an earlier fee adjustment had added is dropped, or no change output is created. A newly created change output holds the released amount less the fee for its own bytes, and a change output is never increased or created by more than the released amount.",
["inputs","histories"],"every amount (positive, negative, zero), every set of outputs",
"Arithmetic over all amounts and states; tests use a few amounts and tolerate small fee differences.",
["fees.go"],[("fee adjustment","fees.go AdjustFee, CalculateFee, ZeroizeFee")])

add("P16","Fees and change are taken only from remainder outputs",
"Funding, fee calculation, fee adjustment and signing never change the value or the script of an output that is not marked as remainder, and never remove an output except a remainder output that fee adjustment itself had added.",
["inputs","histories"],"every set and order of outputs, every path of funding, fee adjustment and signing",
"Picking the wrong output needs the remainder output at an unexpected position or several of them; payments still look plausible.",
["fees.go","inputs.go","sign.go"],[("remainder selection","fees.go AdjustFee; inputs.go AddFunding, AddFundingBreakChange")])

add("P17","Automatic change goes to the configured change script",
"Any output that funding, fee calculation or signing adds on its own pays the builder's configured change script (or, for broken change, one of the given addresses), is marked as remainder where the remainder is kept, and carries the key identifier configured with that script or address. An output added by fee adjustment is marked so that a later fee adjustment may remove it; an output added otherwise is not.",
["inputs","histories"],"every path on which an output is added automatically",
"A wrong key identifier or missing mark does not change the transaction under test and only harms a later operation.",
["fees.go","inputs.go"],[("change creation","fees.go AdjustFee; inputs.go AddFunding")])

add("P18","Funding succeeds only when inputs cover outputs and fee",
"When funding without sweep returns without error, the value of all inputs is at least the value of all outputs before the call plus the fee: the fee of the estimated size before the call and of each added input, where funding with broken change takes the fee of the sizes together. If inputs were added, what they are worth beyond that goes to one remainder output or, for broken change, is what is broken; a new change output may get less by its own fee. Only an excess that is not more than the dust limit of that output (for a new output, with its own fee) is left to the fee. When the given UTXOs do not cover it, funding returns the insufficient-value error.",
["inputs","histories"],"every list of UTXOs (including duplicates of existing inputs), outputs and rates",
"The running balance over arbitrarily many UTXOs with skipped duplicates and per-script input fees can drift on one path only.",
["inputs.go"],[("funding loop","inputs.go AddFunding, AddFundingBreakChange")])

add("P19","Sweep mode uses every supplied UTXO",
"When the builder is set to send the maximum, funding never stops early: every supplied UTXO that is not already an input is added before funding returns without error, and the fee is then calculated over the complete transaction.",
["inputs","histories"],"every list of UTXOs and every amount already present",
"An early return needs a particular relation of amounts; tests of sweep mode use few UTXOs.",
["inputs.go","outputs.go"],[("sweep","inputs.go AddFunding, AddFundingBreakChange; outputs.go AddMaxOutput, AddMaxScriptOutput")])

add("P20","Size estimates follow the wire format for every script template",
"The estimated size of a transaction is the fixed size, the two count prefixes, each output's exact serialized size and, for each input, 40 bytes plus length prefix plus the unlocking script size of its template: signature push for P2PK, signature and public key pushes for P2PKH, those plus one byte per required signer and one byte per unused signer for multi-key hashes, the stated size for embedded unlocking data, and P2PKH as fallback. Length prefixes take 1, 3, 5 or 9 bytes with the boundaries of the wire format.",
["inputs"],"every script length, count and template",
"Boundaries at 252/253 and 65535/65536 elements and rarely used templates are beyond the sizes tests build.",
["fees.go","outputs.go","inputs.go"],[("size constants and formulas","fees.go UnlockingScriptSize, InputSize, OutputSize, EstimatedSize, VarIntSerializeSize")])

add("P21","Fees are size times rate, rounded up, everywhere",
"Every fee the builder charges or reports for a number of bytes (whole transaction, one input, one output) is the number of bytes times the fee rate rounded up to a whole satoshi, computed without loss of precision beyond the rate's own. Only the value regained by removing change is rounded down.",
["inputs"],"every size and rate",
"A truncating or single-precision computation differs from the right one only for certain products.",
["fees.go","inputs.go","outputs.go","fees/fees.go"],[("fee formula","fees.go EstimatedFeeValue, EstimatedFeeValueDown, EstimatedFee; inputs.go UTXOFee, LockingScriptInputFee, LockingScriptOutputFee; outputs.go OutputTotalCost; fees/fees.go EstimateFeeValue")])

add("P22","Output minimums and dust values are enforced uniformly",
"Appending and inserting an output accept the same values: a dust output gets exactly the dust limit of its script, any other is refused with the below-dust error exactly when its value is less than the fee for its own bytes, unless it is the remainder of a sweep or provably unspendable. The dust limit is three times the output size plus 148, times the dust rate, but at least one satoshi, and a request to subtract value from an output never leaves it under that limit.",
["inputs","histories"],"every value, script, rate and flag combination",
"The rule is a conjunction of conditions evaluated at boundaries in two places; tests hit few of the combinations.",
["outputs.go"],[("minimum checks","outputs.go AddOutput, InsertOutput, AddValueToOutput, SubtractValueFromOutput, SetOutputToDust, DustLimit*")])

add("P23","Breaking a value conserves it",
"Breaking a value or quantity into parts never produces parts that sum to more than the given value. The parts sum to exactly the value less one output fee for each part when fees are to be subtracted and to exactly the value otherwise, unless the value is so small that no part is returned or only the excess below the cost of a part is left out.",
["inputs","schedules"],"every value, break value, number of recipients and random draw",
"Depends on random draws and on the relation of value, break value and fees; a lost or created satoshi on one draw is rarely sampled.",
["break_value.go"],[("break loops","break_value.go BreakValue, BreakValueLockingScripts, BreakQuantity")])

add("P24","Broken outputs pay each recipient at most once with its own key ID",
"Every output produced by breaking a value pays one of the given recipients and carries the key identifier given with that same recipient, no two outputs of one call pay the same entry, and at most one of them, the last created, is marked as remainder and only if asked for.",
["inputs","schedules"],"every list of recipients and random draw",
"The mismatch needs the loop to stop at a particular recipient, which depends on random draws.",
["break_value.go"],[("recipient selection","break_value.go BreakValue, BreakValueLockingScripts")])

add("P25","Imported transactions get the right previous outputs",
"Building from an existing transaction gives each input the script and value (and key identifier, if supplied) of the supplied output whose transaction hash and output index are exactly those the input spends. If for some input no such output is in the supplied previous transactions or UTXOs, the missing-data error is returned together with a builder in which that input has an empty record; a transaction that carries its own outputs reports its own error instead.",
["inputs"],"every transaction and every set of supplied previous transactions or UTXOs",
"A mismatch needs previous transactions with several outputs or partial data; tests supply complete, single-output data.",
["txbuilder.go"],[("import","txbuilder.go NewTxBuilderFromWire, NewTxBuilderFromWireUTXOs, NewTxBuilderFromTransactionWithOutputs")])

add("P26","A failed step is never reported as success",
"If a step that an operation needs fails, the operation returns an error: no operation of the library returns success on a path on which an error was reported to it by a function it called, apart from the documented fallbacks (unknown script sizes, unparsable embedded data, text made for display, duplicate funding inputs).",
["fault_sequences","inputs"],"every error return of every called function",
"Error returns of dependencies are hard to provoke, so tests leave most of these paths unexecuted.",
["inputs.go","outputs.go","sign.go","sig_hash.go","fees.go","txbuilder.go","break_value.go","fees/fees.go"],[("error propagation","all functions returning error")])

add("P27","Builders share no hidden state",
"No operation writes to package-level variables, so operations on different builders, including concurrent ones, do not influence each other's results.",
["schedules","histories"],"every interleaving of operations on different builders",
"Interference needs particular interleavings or orders of operations over distinct builders.",
["txbuilder.go","inputs.go","outputs.go","fees.go","sign.go","sig_hash.go","break_value.go","fees/fees.go"],[("package variables","break_value.go BreakIncrements; txbuilder.go Err*; fees/fees.go MissingUnlockingData")])

add("P28","Private keys never reach output, logs or errors",
"No private key, nor text from which it was successfully decoded, nor data derived from it other than public keys, addresses, scripts and signatures, is ever printed, logged, formatted into a string or error, or written anywhere by the library or the command.",
["inputs"],"every path, including error paths",
"Leaks sit on error paths and in log text that tests do not read.",
["sign.go","cmd/main.go"],[("key use","sign.go; cmd/main.go CreateSend, CreateSends, Consolidate")])

add("P29","The command prints a transaction only after every step succeeded",
"The command-line tool prints or serializes a transaction only if every preceding step of that command (parsing arguments, fetching and adding inputs, adding outputs, setting change, signing) succeeded; after a failed step it prints no transaction and does nothing more with it.",
["fault_sequences","inputs"],"every failing step of every command",
"The command has no tests; failures come from the network and arguments.",
["cmd/main.go"],[("commands","cmd/main.go CreateSend, CreateSends, Consolidate, GetTx, GetUTXOs, httpGet")])

add("P30","The standalone fee package agrees with the builder",
"For the same transaction, script, size and rate, the standalone fee package computes the same script template sizes, input and output sizes, transaction size, fee and input value as the builder, and reports an error where a script template or value is unknown.",
["inputs"],"every script template, size and rate",
"Two separate implementations tested separately, if at all; agreement must hold for every template and size.",
["fees/fees.go","fees.go"],[("fee package","fees/fees.go EstimateSize, EstimateInputSize, EstimateUnlockingSize, OutputTotalCost, InputValue, DustLimit")])

add("P31","Multi-key-hash unlocking scripts have exactly the required shape",
"For a multi-key-hash input, an unlocking script is set only once exactly the required number of listed keys has signed; it holds, in reverse order of the listed key hashes, a signature, public key and true opcode for each key that signed and a false opcode for each that did not, one entry per listed key. With fewer keys nothing is set and the missing-key error is returned.",
["inputs"],"every m-of-n and every subset and order of supplied keys",
"The number of subsets and orders of keys grows beyond any test table, and order mistakes only show for particular subsets.",
["sign.go"],[("multi-key signing","sign.go signInput, P2MultiPKHUnlockingScript")])

add("P32","Setting the change script marks exactly the matching outputs",
"Setting the change address or script records that script and its key identifier for later change, and marks as remainder with that key identifier exactly those existing outputs whose script equals it, leaving all other outputs as they were.",
["inputs","histories"],"every set of existing outputs and every change script",
"Needs several outputs, some matching, at arbitrary positions, and inspection of hidden records.",
["outputs.go"],[("change setup","outputs.go SetChangeAddress, SetChangeLockingScript")])

add("P33","Signing converges to within five percent of the target fee",
"Signing with fee adjustment always terminates, and unless no change can absorb the difference, the fee paid is within five percent or three satoshis of the target for the final size.",
["schedules","inputs"],"every sequence of signature lengths over the adjustment rounds",
"Depends on the random lengths of signatures over several rounds.",
["sign.go"],[("adjustment loop","sign.go Sign")])

add("P34","Produced signatures satisfy the locking scripts under consensus rules",
"Every unlocking script produced by signing makes its locking script evaluate to true under the network's script rules.",
["inputs"],"every transaction, key and supported template",
"Requires evaluating scripts and elliptic-curve arithmetic for every key and message.",
["sign.go","sig_hash.go"],[("signing","sign.go signInput")])

with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
for p in P:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
print(len(P))
