//go:build evmrs

package main

import "github.com/Fantom-foundation/Tosca/go/interpreter/evmrs"

func init() { targets["evmrs"] = evmrs.NewConformanceTestingTarget }
