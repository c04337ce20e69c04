package main

// weight orders the verification of the functions: the slow ones first.
var weight = map[string]int{
	"newStructFieldsInstr": 100, "isValidNumber": 90, "newGoTypeInstr": 80, "encodeStruct": 70, "encodeMap": 62, "appendRFC3339Time": 60,
	"newInstruction": 60, "encodeSyncMap": 50, "structFields": 65, "scanFields": 25, "lemma_setO__flags": 30, "appendEscapedBytes": 20, "newMapInstr": 20, "rdnToYmd": 20,
	"newMapKeyInstr": 18, "appendCompactJSON": 15, "appendDuration": 12, "appendFloat": 12, "filterByVisibility": 9,
}

// uncovered lists, for each property, the functions it depends on that
// have no contract.
var uncovered = map[string][]string{}

var trustedBase = []string{
	"jv, the verifier of /verif/engine (symbolic execution of SSA, specification language, translation to SMT-LIB)",
	"golang.org/x/tools/go/ssa v0.52.0 and the go 1.23.12 compiler agree on the meaning of the source",
	"z3 4.8.12, z3 5.3.2, cvc5 1.1.2 (an obligation is discharged when one of them answers unsat)",
	"the models of the standard library and of the runtime's type, map and interface layouts in /verif/contracts/00_lib.go and /verif/engine/lib.go",
}

var baseAssumptions = []string{
	"slices and strings are shorter than 2^47 bytes; the arithmetic of addresses (uintptr) does not wrap; the arithmetic of the other integer types is exact, at its width",
	"the memory of the value encoded does not change during the call, and is as its type says",
	"marshalers of the user return, do not modify what they are given beyond it, and are functions of their receiver and context",
	"memory allocation succeeds; the stack is as deep as the value encoded requires; partial correctness: the termination of loops is not proved",
	"goroutines: a call is verified alone, with shared state only read through sync.Map, sync.Pool, sync/atomic and sync.WaitGroup (trusted to synchronise) under invariants proved at every write; that no other write reaches shared memory is the property P24",
}
