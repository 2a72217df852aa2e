package main

type propMeta struct {
	rule    func(r *Rep)
	explain string
	assume  []string
}

var engineText = "Every function is evaluated once per calling context over its SSA form with gated value numbering: states are joined at each control-flow merge, repository helpers are inlined, loops are replaced by verified closed forms, and the rule's conditions are decided on the resulting value numbers and must-facts. "

var engineAssume = []string{
	"a builder handed to an operation is well formed: its supplement lists are as long as the transaction's lists and hold no nil entries",
	"two list positions of one builder hold different records, and the builder's lists are not aliased by other arguments",
	"integer additions do not overflow (64 bit satoshi and size arithmetic); subtractions of unsigned values are modelled with wrap-around",
	"dependency functions outside the inlined set behave as deterministic functions of their arguments and the memory reachable from them, except the listed mutators",
}

var props = map[string]propMeta{
	"P01": {ruleP01, engineText + "Covers every exported function of the library that takes or returns a builder, all its returns.", engineAssume},
	"P02": {ruleP02, engineText + "Covers all operations that introduce an outpoint, with any transaction and any given outpoint.", engineAssume},
	"P03": {ruleP03, engineText + "Covers all operations that add, insert or update an input.", engineAssume},
	"P04": {ruleP04, engineText + "Covers every operation that takes the index of an input or output and can return an error, with any non-negative index.", engineAssume},
	"P05": {ruleP05, engineText + "Covers every edit operation, all returns with a possibly non-nil error.", engineAssume},
	"P06": {ruleP06, engineText + "Covers every exported function and method that is not an edit.", engineAssume},
	"P07": {ruleP07, engineText + "Covers the copy methods of the builder and its records, with lists of any length.", engineAssume},
	"P08": {ruleP08, engineText + "The preimage and digest functions are compared with a reference written from BIP-143, for twelve hash types.", engineAssume},
	"P09": {ruleP09, engineText + "Covers the fragment functions with any cache and transaction, and the clearing functions.", engineAssume},
	"P10": {ruleP10, engineText + "Every place where a signing operation stores an unlocking script is examined with the state it is reached in; signatures, keys and digests are terms that keep what they were made of.", signAssume},
	"P11": {ruleP11, engineText + "A digest term holds the content of the transaction it was made of; at every return it is compared with the content at that point, for any number of fee rounds.", signAssume},
	"P12": {ruleP12, engineText + "Covers every place where an unlocking script is stored and every return of the signing operations, for any keys and inputs.", signAssume},
	"P13": {ruleP13, engineText + "Relates the builder and transaction after the call to those before it.", signAssume},
	"P31": {ruleP31, engineText + "The stored script is compared with that of a reference function analysed the same way, for any number of keys and listed hashes.", append([]string{"no signature computation fails where scripts are compared"}, signAssume...)},
	"P15": {ruleP15, engineText + "The outputs after the call are compared with those of a reference function analysed the same way.", engineAssume},
	"P16": {ruleP16, engineText + "Relates each output after the call to the one before it, for any outputs and UTXOs; functions that only delegate are decided by their callees.", engineAssume},
	"P17": {ruleP17, engineText + "Covers every output that is in the lists after the call and was not before.", engineAssume},
	"P19": {ruleP19, "Follows the paths of each funding function on which the builder sends the maximum, with an automaton over the list of UTXOs; helpers that are given the list or its elements are followed too.", flowAssume},
	"P20": {ruleP20, engineText + "Each size function is compared with a reference formula analysed the same way.", engineAssume},
	"P21": {ruleP21, engineText + "Each fee function is compared with a reference formula analysed the same way.", engineAssume},
	"P22": {ruleP22, engineText + "Output operations are compared with reference conditions and values analysed the same way.", engineAssume},
	"P30": {ruleP30, engineText + "The functions of both packages are compared with the same reference formulas.", engineAssume},
	"P32": {ruleP32, engineText + "The state after the call is compared field by field with that of a reference function.", engineAssume},
	"P14": {ruleP14, engineText + "At each return the values and the size of the transaction in that state are computed by a reference function and compared; signatures are of any length.", engineAssume},
	"P18": {ruleP18, engineText + "Relates what the inputs are worth after the call to the outputs and the fee, for any list of UTXOs; the parts of broken change are the subject of P23.", append(engineAssume, "sums of amounts and sizes are below 2^63")},
	"P24": {ruleP24, engineText + "Covers every element of the lists that the breaking functions return, in the order in which they are created; random draws are unknown values.", engineAssume},
	"P23": {ruleP23, engineText + "Covers every part that the breaking functions create, related to what the round of the loop that made it takes off the value; random draws are unknown values.", engineAssume},
	"P25": {ruleP25, engineText + "Covers the three functions that build from an existing transaction, with any transaction and any supplied outputs.", engineAssume},
	"P28": {ruleP28, "Interprocedural taint analysis of the library, the fee package and the command: keys are recognised by their type, the text of a key by its position in the list it comes from; printing behind the failure of decoding is told apart by following paths.", flowAssume},
	"P29": {ruleP29, pathText, flowAssume},
	"P26": {ruleP26, pathText, flowAssume},
	"P27": {ruleP27, "All instructions of all repository functions are inspected for writes that reach package-level variables, directly or through a callee's parameter.", nil},
}

var signAssume = append([]string{"a locking script matches at most one of the supported templates"}, engineAssume...)

func metaOf(p string) propMeta { return props[p] }

const pathText = "Follows every path of each function from each call that can fail, with what tests on the path tell about errors, flags and causes; paths that know the same at the same edge are followed once."

var flowAssume = []string{
	"library functions report failure by their error result",
	"errors of library functions do not contain the keys given to them",
}
