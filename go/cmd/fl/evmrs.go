//go:build evmrs

package main

import _ "github.com/Fantom-foundation/Tosca/go/interpreter/evmrs"
