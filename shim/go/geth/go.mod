module github.com/ethereum/go-ethereum

go 1.22.0

require golang.org/x/crypto v0.22.0
