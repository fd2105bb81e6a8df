//go:build evmzero

package main

import _ "github.com/Fantom-foundation/Tosca/go/interpreter/evmzero"
