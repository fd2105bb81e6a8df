// Package vm is a stand-in for the precompiled contracts of go-ethereum. The
// identity, SHA-256 and modular exponentiation contracts are real; the
// others keep the address, the gas schedule, and the failure conditions on
// malformed input of the original, but compute a digest of their input.
package vm

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
)

type PrecompiledContract interface {
	RequiredGas(input []byte) uint64
	Run(input []byte) ([]byte, error)
}

type contract struct {
	gas func([]byte) uint64
	run func([]byte) ([]byte, error)
}

func (c *contract) RequiredGas(in []byte) uint64     { return c.gas(in) }
func (c *contract) Run(in []byte) ([]byte, error) { return c.run(in) }

func flat(g uint64) func([]byte) uint64 { return func([]byte) uint64 { return g } }
func words(base, per uint64) func([]byte) uint64 {
	return func(in []byte) uint64 { return base + per*uint64((len(in)+31)/32) }
}
func digest(tag byte, n int) func([]byte) ([]byte, error) {
	return func(in []byte) ([]byte, error) {
		return append(make([]byte, n-20), crypto.Keccak256([]byte{tag}, in)[12:]...), nil
	}
}

func part(in []byte, off, n uint64) []byte {
	res := make([]byte, n)
	if off < uint64(len(in)) {
		copy(res, in[off:])
	}
	return res
}

func modexp(eip2565 bool) *contract {
	sizes := func(in []byte) (b, e, m *big.Int) {
		return new(big.Int).SetBytes(part(in, 0, 32)), new(big.Int).SetBytes(part(in, 32, 32)), new(big.Int).SetBytes(part(in, 64, 32))
	}
	return &contract{
		gas: func(in []byte) uint64 {
			b, e, m := sizes(in)
			x := b
			if m.Cmp(x) > 0 {
				x = m
			}
			g := new(big.Int).Add(x, big.NewInt(7))
			g.Rsh(g, 3).Mul(g, g).Mul(g, new(big.Int).Add(e, big.NewInt(1)))
			if eip2565 {
				g.Div(g, big.NewInt(3))
				if g.Cmp(big.NewInt(200)) < 0 {
					return 200
				}
			} else {
				g.Mul(g, big.NewInt(3))
			}
			if !g.IsUint64() {
				return 1<<64 - 1
			}
			return g.Uint64()
		},
		run: func(in []byte) ([]byte, error) {
			b, e, m := sizes(in)
			if b.BitLen() > 12 || e.BitLen() > 12 || m.BitLen() > 12 {
				return nil, errors.New("stand-in: operands too large")
			}
			bl, el, ml := b.Uint64(), e.Uint64(), m.Uint64()
			base, exp, mod := new(big.Int).SetBytes(part(in, 96, bl)), new(big.Int).SetBytes(part(in, 96+bl, el)), new(big.Int).SetBytes(part(in, 96+bl+el, ml))
			res := make([]byte, ml)
			if mod.Sign() == 0 {
				return res, nil
			}
			new(big.Int).Exp(base, exp, mod).FillBytes(res)
			return res, nil
		},
	}
}

func addr(i byte) common.Address { return common.Address{19: i} }

func istanbul() map[common.Address]PrecompiledContract {
	return map[common.Address]PrecompiledContract{
		addr(1): &contract{flat(3000), func(in []byte) ([]byte, error) {
			v := part(in, 32, 32)
			if !bytes.Equal(v[:31], make([]byte, 31)) || v[31] != 27 && v[31] != 28 {
				return nil, nil
			}
			return digest(1, 32)(part(in, 0, 128))
		}},
		addr(2): &contract{words(60, 12), func(in []byte) ([]byte, error) { h := sha256.Sum256(in); return h[:], nil }},
		addr(3): &contract{words(600, 120), digest(3, 32)},
		addr(4): &contract{words(15, 3), func(in []byte) ([]byte, error) { return bytes.Clone(in), nil }},
		addr(5): modexp(false),
		addr(6): &contract{flat(150), func(in []byte) ([]byte, error) {
			if part(in, 0, 1)[0] > 0x30 {
				return nil, errors.New("invalid point")
			}
			return digest(6, 64)(in)
		}},
		addr(7): &contract{flat(6000), func(in []byte) ([]byte, error) {
			if part(in, 0, 1)[0] > 0x30 {
				return nil, errors.New("invalid point")
			}
			return digest(7, 64)(in)
		}},
		addr(8): &contract{func(in []byte) uint64 { return 45000 + 34000*uint64(len(in)/192) }, func(in []byte) ([]byte, error) {
			if len(in)%192 != 0 {
				return nil, errors.New("bad elliptic curve pairing size")
			}
			return digest(8, 32)(in)
		}},
		addr(9): &contract{func(in []byte) uint64 {
			if len(in) != 213 {
				return 0
			}
			return uint64(binary.BigEndian.Uint32(in[:4]))
		}, func(in []byte) ([]byte, error) {
			if len(in) != 213 || in[212] > 1 {
				return nil, errors.New("invalid input")
			}
			return digest(9, 64)(in)
		}},
	}
}

func berlin() map[common.Address]PrecompiledContract {
	res := istanbul()
	res[addr(5)] = modexp(true)
	return res
}

func cancun() map[common.Address]PrecompiledContract {
	res := berlin()
	res[addr(10)] = &contract{flat(50000), func(in []byte) ([]byte, error) {
		if len(in) != 192 || in[0] != 1 {
			return nil, errors.New("invalid input")
		}
		return digest(10, 64)(in)
	}}
	return res
}

var (
	PrecompiledContractsIstanbul = istanbul()
	PrecompiledContractsBerlin   = berlin()
	PrecompiledContractsCancun   = cancun()
)
