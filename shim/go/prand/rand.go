// Package rand is an offline stand-in for pgregory.net/rand v1. The stream of
// values differs from the original's; the code under test only relies on the
// documented distributions and on equal seeds giving equal streams.
package rand

import (
	"math"
	"math/bits"
)

type Rand struct{ s uint64 }

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func New(seed ...uint64) *Rand {
	r := &Rand{s: 0x9e3779b97f4a7c15}
	for _, s := range seed {
		r.s = mix(r.s ^ mix(s+0x632be59bd9b4e019))
	}
	return r
}
func (r *Rand) Seed(s uint64) { *r = *New(s) }
func (r *Rand) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}
func (r *Rand) Uint64n(n uint64) uint64 {
	if n == 0 {
		return 0
	}
	hi, _ := bits.Mul64(r.Uint64(), n)
	return hi
}
func (r *Rand) Uint32() uint32           { return uint32(r.Uint64() >> 32) }
func (r *Rand) Uint32n(n uint32) uint32  { return uint32(r.Uint64n(uint64(n))) }
func (r *Rand) Int() int                 { return int(r.Uint64() >> 1) }
func (r *Rand) Int63() int64             { return int64(r.Uint64() >> 1) }
func (r *Rand) Int31() int32             { return int32(r.Uint64() >> 33) }
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return int(r.Uint64n(uint64(n)))
}
func (r *Rand) Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return int64(r.Uint64n(uint64(n)))
}
func (r *Rand) Int31n(n int32) int32 {
	if n <= 0 {
		panic("invalid argument to Int31n")
	}
	return int32(r.Uint64n(uint64(n)))
}
func (r *Rand) Float64() float64 { return float64(r.Uint64()>>11) / (1 << 53) }
func (r *Rand) Float32() float32 { return float32(r.Uint64()>>40) / (1 << 24) }
func (r *Rand) Read(p []byte) (int, error) {
	for i := 0; i < len(p); {
		v := r.Uint64()
		for k := 0; k < 8 && i < len(p); k++ {
			p[i] = byte(v)
			v >>= 8
			i++
		}
	}
	return len(p), nil
}
func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	r.Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func (r *Rand) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.Intn(i+1))
	}
}

var global = New(12345)

func Intn(n int) int              { return global.Intn(n) }
func Int() int                    { return global.Int() }
func Uint64() uint64              { return global.Uint64() }
func Uint64n(n uint64) uint64     { return global.Uint64n(n) }
func Read(p []byte) (int, error)  { return global.Read(p) }
func Float64() float64            { return global.Float64() }

// ExpFloat64 draws from the exponential distribution with rate 1.
func (r *Rand) ExpFloat64() float64 {
	for {
		if f := r.Float64(); f > 0 {
			return -math.Log(f)
		}
	}
}
