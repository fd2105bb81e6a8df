package main

import (
	"encoding/binary"
	"fmt"
	"math/bits"
	"strings"
	"sync"

	"github.com/Fantom-foundation/Tosca/go/tosca"

	"verif/pbt"
	"verif/ref"
	"verif/world"
)

type lcg struct{ x, a, c, mask uint64 }

func (l *lcg) next() uint64 {
	l.x = (l.x*l.a + l.c) & l.mask
	return l.x
}

// churnCode hashes n words of `size` bytes whose content follows a linear
// congruential sequence scaled to m values, and folds the hashes.
func churnCode(n, m uint64, g lcg, size int) []byte {
	var c []byte
	push8 := func(v uint64) {
		c = append(c, 0x67)
		c = binary.BigEndian.AppendUint64(c, v)
	}
	push8(n)
	c = append(c, 0x60, 0, 0x35) // x = CALLDATALOAD(0)
	c = append(c, 0x60, 0)       // acc
	loop := len(c)
	c = append(c, 0x5b, 0x90) // n acc x
	push8(g.a)
	c = append(c, 0x02)
	push8(g.c)
	c = append(c, 0x01)
	push8(g.mask)
	c = append(c, 0x16, 0x80)
	push8(m) // the top bits, scaled to m
	c = append(c, 0x02, 0x60, 63, 0x1c)
	c = append(c, 0x60, byte(size-32), 0x52)       // n acc x
	c = append(c, 0x60, byte(size), 0x60, 0, 0x20) // n acc x h
	c = append(c, 0x82, 0x60, 3, 0x02, 0x18, 0x91, 0x50, 0x90)
	c = append(c, 0x91, 0x60, 1, 0x90, 0x03, 0x91)
	c = append(c, 0x82, 0x60, byte(loop), 0x57)
	c = append(c, 0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0xf3)
	return c
}

type churnKey struct {
	v    uint64
	size int
}

var churnMemo = map[churnKey][4]uint64{}

func churnHash(v uint64, size int) [4]uint64 {
	if h, ok := churnMemo[churnKey{v, size}]; ok {
		return h
	}
	data := make([]byte, size)
	binary.BigEndian.PutUint64(data[size-8:], v)
	k := ref.Keccak(data)
	var h [4]uint64
	for i := range h {
		h[i] = binary.BigEndian.Uint64(k[24-8*i:])
	}
	churnMemo[churnKey{v, size}] = h
	return h
}

func churnWant(n, m uint64, g lcg, size int) (out [32]byte) {
	var acc [4]uint64
	for i := uint64(0); i < n; i++ {
		key, _ := bits.Mul64(g.next()<<1, m)
		h := churnHash(key, size)
		var carry, top uint64
		for k := range acc { // acc*3
			hi, lo := bits.Mul64(acc[k], 3)
			lo, carry = bits.Add64(lo, top, 0)
			acc[k], top = lo, hi+carry
		}
		for k := range acc {
			acc[k] ^= h[k]
		}
	}
	for i := range acc {
		binary.BigEndian.PutUint64(out[24-8*i:], acc[i])
	}
	return
}

// hashChurn: hashes stay correct when the hash caches overflow, also while
// several runs share them.
func hashChurn(t *pbt.T) { churn(t, false) }

// hashIdle: one run replaces all content of a hash cache while others have
// just hashed a few words and stay idle: what they read of the cache is not
// ordered by anything they do later.
func hashIdle(t *pbt.T) { churn(t, true) }

func churn(t *pbt.T, idle bool) {
	size := 32 << t.N(2)
	if idle {
		size = 32
	}
	nears := []uint64{1024, 1 << 16, 1 << 16, 1 << 16, 1 << 18}
	limit := uint64(400_000)
	if strings.HasPrefix(vms[0].Name, "evmzero") || strings.HasPrefix(vms[0].Name, "evmrs") { // hold fewer hashes
		nears, limit = []uint64{1024, 1024, 1024, 1024, 1 << 16}, 80_000
	}
	near := nears[t.N(5)]
	var m uint64
	switch t.N(3) {
	case 0:
		m = near + t.Draw(5) - 1
	case 1:
		m = near + near/8 + t.Draw(near/2)
	default:
		m = near*2 + t.Draw(near)
	}
	n := min(2*m+t.Draw(m), limit)
	if m < 5000 {
		n *= 5
	}
	workers := t.Weighted(3, 1, 1, 1) + 1
	if idle {
		workers = t.Range(2, 5)
		m = 1<<16 + 1<<10 + t.Draw(1<<13)
		n = (m + t.Draw(m/4)) * uint64(workers)
	}
	n /= uint64(workers)
	var ns []uint64 // the runs end at different times
	for w := 0; w < workers; w++ {
		k := n
		if w > 0 && t.Bool() {
			k = t.Draw(n)/uint64(1+t.N(50)) + 1
		}
		ns = append(ns, k)
	}
	g := lcg{a: t.U64()&^7 | 5, c: t.U64() | 1, mask: 1<<63 - 1}
	if t.Chance(1, 3) || idle { // walk through the keys one after the other, in cycles
		g.a, g.c = 1, (1<<63)/m+1
	}
	same := t.Bool()
	var starts, seeds []uint64
	for w := 0; w < workers; w++ {
		s := t.U64() & g.mask
		if same && w > 0 {
			s = starts[0]
		}
		starts = append(starts, s)
		seeds = append(seeds, s)
	}
	var codes [][]byte
	var want [][32]byte
	for w, s := range starts {
		l := g
		l.x = s
		if w > 0 && (idle || t.Chance(1, 2)) { // this run repeats one word a few times
			l.a, l.c, ns[w] = 1, 0, 2+t.Draw(9)
		}
		codes = append(codes, churnCode(ns[w], m, l, size))
		want = append(want, churnWant(ns[w], m, l, size))
	}
	t.NonTrivial(pbt.Hash(codes[0]))
	t.Labelf("size:%d", size)
	t.Labelf("workers:%d", workers)
	t.Labelf("keys~%d", near)
	t.Sample(func() string {
		return fmt.Sprintf("%d runs at once, hashing %d words of %d bytes over %d different contents (seeds %x, step %x*x+%x)", workers, ns, size, m, seeds, g.a, g.c)
	})
	for _, vm := range vms {
		got := make([]tosca.Result, workers)
		errs := make([]any, workers)
		var wg sync.WaitGroup
		hold := make(chan struct{})
		for w := range starts {
			wg.Add(1)
			go func() {
				defer func() { <-hold }() // the race detector forgets about ended goroutines
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						errs[w] = r
					}
				}()
				var in [32]byte
				binary.BigEndian.PutUint64(in[24:], starts[w])
				p := tosca.Parameters{Context: world.New(), Gas: 1 << 50, Code: codes[w], Input: in[:]}
				var err error
				got[w], err = vm.It.Run(p)
				if err != nil {
					errs[w] = err
				}
			}()
		}
		wg.Wait()
		close(hold)
		for w := range starts {
			t.Check(errs[w] == nil, vm.Name+": hash churn failed", "run %d: %v", w, errs[w])
			t.Check(got[w].Success && string(got[w].Output) == string(want[w][:]), vm.Name+": wrong hash after churn",
				"run %d of %d: folded hashes %x, expected %x\ncode %x", w, workers, []byte(got[w].Output), want[w], codes[w])
		}
	}
}

// numberedCode returns i+tag, jumping around in a way that depends on i.
func numberedCode(i, tag uint32) []byte {
	c := []byte{0x63, byte(i >> 24), byte(i >> 16), byte(i >> 8), byte(i), 0x63, byte(tag >> 24), byte(tag >> 16), byte(tag >> 8), byte(tag), 0x01, 0x60, 0, 0x52}
	pad := int(i*2654435761>>24) % 40
	c = append(c, 0x60, byte(len(c)+3+pad), 0x56)
	for k := 0; k < pad; k++ {
		c = append(c, []byte{0xfe, 0x60, 0x00, 0x7f}[(int(i)+k)%4])
	}
	// neutralise a trailing push
	for k := len(c) - pad; k < len(c); k++ {
		if c[k] == 0x60 || c[k] == 0x7f {
			c[k] = 0xfe
		}
	}
	return append(c, 0x5b, 0x60, 32, 0x60, 0, 0xf3)
}

// codeChurn: results stay those of the code that is run when the code caches overflow.
func codeChurn(t *pbt.T) {
	near := []int{1000, 10922, 1 << 16}[t.Weighted(2, 4, 2)]
	m := near + t.N(near/2) - near/8
	n := 2*m + t.N(m/2)
	tag := uint32(t.U64())
	workers := t.Weighted(3, 1, 1) + 1
	n /= workers
	cyclic := t.Chance(1, 3)
	hashed := !t.Chance(1, 8)
	var gens []lcg
	for w := 0; w < workers; w++ {
		g := lcg{x: t.U64() & (1<<63 - 1), a: t.U64()&^7 | 5, c: t.U64() | 1, mask: 1<<63 - 1}
		if cyclic {
			g.a, g.c = 1, 1
		}
		gens = append(gens, g)
	}
	t.NonTrivial(uint64(m)<<32 + uint64(tag))
	t.Labelf("codes~%d", near)
	t.Labelf("workers:%d", workers)
	t.Sample(func() string {
		return fmt.Sprintf("%d times %d runs over %d different codes (numbered from %d)", workers, n, m, tag)
	})
	codes := make([][]byte, m)
	hashes := make([]tosca.Hash, m)
	for i := range codes {
		codes[i] = numberedCode(uint32(i), tag)
		hashes[i] = ref.Keccak(codes[i])
	}
	for _, vm := range vms {
		bad := make([]string, workers)
		var wg sync.WaitGroup
		hold := make(chan struct{})
		for w := range gens {
			wg.Add(1)
			go func() {
				defer func() { <-hold }()
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						bad[w] = fmt.Sprint(r)
					}
				}()
				g := gens[w]
				ctx := world.New()
				for k := 0; k < n; k++ {
					i := int((g.next() >> 7) % uint64(m))
					if cyclic {
						i = int(g.x % uint64(m))
					}
					p := tosca.Parameters{Context: ctx, Gas: 1000, Code: codes[i]}
					if hashed {
						p.CodeHash = &hashes[i]
					}
					r, err := vm.It.Run(p)
					if err != nil || !r.Success || len(r.Output) != 32 || binary.BigEndian.Uint64(r.Output[24:]) != uint64(uint32(i))+uint64(tag) {
						bad[w] = fmt.Sprintf("run %d, code number %d (%x): error %v, success %t, output %x, expected %x", k, i, codes[i], err, r.Success, []byte(r.Output), uint64(i)+uint64(tag))
						return
					}
				}
			}()
		}
		wg.Wait()
		close(hold)
		for w := range bad {
			t.Check(bad[w] == "", vm.Name+": wrong result after many codes", "%s", bad[w])
		}
	}
}
