module verif

go 1.23.0

require (
	github.com/Fantom-foundation/Tosca v0.0.0
	github.com/dsnet/golib/unitconv v1.0.2
	github.com/ethereum/evmc/v11 v11.0.0
	github.com/ethereum/go-ethereum v1.14.8
	github.com/hashicorp/golang-lru/v2 v2.0.7
	github.com/holiman/uint256 v1.3.1
	github.com/urfave/cli/v2 v2.27.2
	go.uber.org/mock v0.4.0
	golang.org/x/crypto v0.22.0
	golang.org/x/exp v0.0.0-20231110203233-9a3e6036ecaa
	pgregory.net/rand v1.0.2
	pgregory.net/rapid v1.3.0
)

replace (
	golang.org/x/crypto => ../shim/go/xcrypto
	golang.org/x/exp => ../shim/go/xexp
	github.com/Fantom-foundation/Tosca => ./toscamod
	github.com/dsnet/golib/unitconv => ../shim/go/golib
	github.com/urfave/cli/v2 => ../shim/go/cli
	github.com/ethereum/evmc/v11 => ../shim/go/evmc
	github.com/ethereum/go-ethereum => ../shim/go/geth
	github.com/hashicorp/golang-lru/v2 => ../shim/go/lru/v2
	github.com/holiman/uint256 => ../shim/go/uint256
	go.uber.org/mock => ../shim/go/gomock
	pgregory.net/rand => ../shim/go/prand
)
