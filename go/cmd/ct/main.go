// Command ct checks the conformance testing infrastructure (go/ct).
package main

import "verif/pbt"

var checks = map[string]pbt.Check{
	"ct-u256-arith":      u256Arith,
	"ct-u256-codec":      u256Codec,
	"ct-u256-range":      u256Range,
	"ct-containers":      containers,
	"ct-code":            ctCode,
	"ct-code-hash":       codeHash,
	"ct-helpers":         ctHelpers,
	"ct-step":            step,
	"ct-ended":           stepTerminal,
	"ct-spec":            spec,
	"ct-clones":          stateClones,
	"ct-eq":              stateEq,
	"ct-json":            stateJSON,
	"ct-conditions":      conditions,
	"ct-generators":      generators,
	"ct-generator-forks": forks,
	"ct-rules":           rules,
	"ct-own-states":      ownStates,
	"ct-foreach":         forEach,
	"ct-spec-rules":      specRulesHold,
}

func main() { pbt.Main(checks) }
