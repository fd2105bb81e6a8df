//go:build evmzero

package main

import "github.com/Fantom-foundation/Tosca/go/interpreter/evmzero"

func init() { targets["evmzero"] = evmzero.NewConformanceTestingTarget }
