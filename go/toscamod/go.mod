module github.com/Fantom-foundation/Tosca

go 1.22.0
