// Package gen contains generators shared by several harnesses.
package gen

import (
	"math/big"

	"verif/pbt"
)

// Word generates a 256-bit big-endian word biased towards boundaries.
func Word(t *pbt.T) (res [32]byte) {
	WordBig(t).FillBytes(res[:])
	return
}

var two256 = new(big.Int).Lsh(big.NewInt(1), 256)
var mask = new(big.Int).Sub(two256, big.NewInt(1))

// WordBig generates a value in [0,2^256), biased towards small values, powers of
// two and their neighbours, limb patterns, sign boundaries and sparse bytes.
func WordBig(t *pbt.T) *big.Int {
	v := new(big.Int)
	switch t.Weighted(4, 3, 3, 3, 3, 2, 2) {
	case 0:
		v.SetUint64(t.Draw(8))
	case 1:
		v.SetUint64(t.Draw(300))
	case 2: // 2^k + d
		v.Lsh(big.NewInt(1), uint(t.N(257)))
		v.Add(v, big.NewInt(int64(t.N(5))-2))
	case 3: // 64-bit limb patterns: carries, borrows
		for i := 0; i < 4; i++ {
			v.Lsh(v, 64)
			var l uint64
			switch t.Weighted(3, 3, 2, 1) {
			case 0:
			case 1:
				l = ^uint64(0)
			case 2:
				l = t.U64()
			case 3:
				l = 1 << 63
			}
			v.Or(v, new(big.Int).SetUint64(l))
		}
	case 4: // fully random
		v.SetBytes(t.Bytes(32))
	case 5: // random of random width
		v.SetBytes(t.Bytes(t.Range(1, 32)))
	case 6: // negative small (two's complement), or near the signed boundary
		v.SetInt64(-int64(t.Draw(300)))
	}
	return v.Mod(v, two256)
}

func Pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

func Mod256(v *big.Int) *big.Int { return new(big.Int).And(v, mask) }

// U64 generates a 64-bit value biased towards boundaries.
func U64(t *pbt.T) uint64 {
	switch t.Weighted(3, 3, 2, 3) {
	case 0:
		return t.Draw(70)
	case 1:
		return uint64(1)<<t.Draw(64) + t.Draw(5) - 2
	case 2:
		return ^uint64(0) - t.Draw(70)
	default:
		return t.U64()
	}
}
