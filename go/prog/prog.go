// Package prog generates EVM programs, environments, and world states.
package prog

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/Fantom-foundation/Tosca/go/tosca"

	"verif/gen"
	"verif/pbt"
	"verif/ref"
	"verif/world"
)

// Mix is the emphasis of a generated program.
type Mix struct {
	Arith, Mem, Flow, Store, Calls, Env, Logs, Copy, Stack, Chaos, Super, Destruct, Sha int
	Gated                                                                               int // instructions of other revisions
}

var Default = Mix{Arith: 8, Mem: 6, Flow: 6, Store: 5, Calls: 5, Env: 5, Logs: 2, Copy: 4, Stack: 4, Chaos: 1, Super: 4, Destruct: 1, Sha: 2, Gated: 1}

// Env is the pool of interesting addresses and keys of a case.
type Env struct {
	Addrs []tosca.Address
	Keys  []tosca.Key
}

func Addr(i byte) (a tosca.Address) {
	for j := range a {
		a[j] = 0xa0 + i
	}
	a[19] = i
	return
}

// addresses: 0 self, 1 sender, 2 origin, 3 coinbase, 4-6 contracts, 7 wallet, 8 missing, 9 nonce only, 10 empty but present
func NewEnv(t *pbt.T) *Env {
	e := &Env{}
	for i := 0; i < 11; i++ {
		e.Addrs = append(e.Addrs, Addr(byte(i)))
	}
	e.Addrs = append(e.Addrs, tosca.Address{19: 4}, tosca.Address{})
	e.Keys = append(e.Keys, tosca.Key{}, tosca.Key{31: 1}, tosca.Key{0: 0x80}, gen.Word(t))
	return e
}

type B struct {
	T     *pbt.T
	Env   *Env
	Rev   tosca.Revision
	Mix   Mix
	Code  []byte
	depth int // stack depth of linear execution
	fix   []fixup
	label []int
	nest  int
	Wild  bool // allow operations that are expected to abort the run
}

func (b *B) wild(n, d int) bool { return b.Wild && b.T.Chance(n, d) }

type fixup struct{ pos, label int }

func (b *B) op(ops ...byte) { b.Code = append(b.Code, ops...) }

// Op emits an instruction and tracks the stack depth.
func (b *B) Op(op byte) {
	in, out := ref.Usage(op)
	b.depth += out - in
	b.op(op)
}

// Push emits the value in a random width that fits.
func (b *B) Push(v *big.Int) {
	raw := v.Bytes()
	n := len(raw)
	if n == 0 {
		if b.Rev >= tosca.R12_Shanghai && b.T.Bool() {
			b.op(0x5f)
			b.depth++
			return
		}
		n = 1
	}
	if n < 32 && b.T.Chance(1, 6) {
		n = b.T.Range(n, 32)
	}
	buf := make([]byte, n)
	v.FillBytes(buf)
	b.op(byte(0x5f + n))
	b.op(buf...)
	b.depth++
}

func (b *B) PushI(v int)      { b.Push(big.NewInt(int64(v))) }
func (b *B) PushB(raw []byte) { b.Push(new(big.Int).SetBytes(raw)) }
func (b *B) newLabel() int    { b.label = append(b.label, -1); return len(b.label) - 1 }
func (b *B) place(l int)      { b.label[l] = len(b.Code); b.op(0x5b) }
func (b *B) pushLabel(l int) {
	b.op(0x61)
	b.fix = append(b.fix, fixup{len(b.Code), l})
	b.op(0, 0)
	b.depth++
}

func (b *B) Finish() {
	for _, f := range b.fix {
		p := b.label[f.label]
		b.Code[f.pos], b.Code[f.pos+1] = byte(p>>8), byte(p)
	}
}

// Val pushes an arbitrary operand.
func (b *B) Val() {
	t := b.T
	switch k := t.Weighted(8, 3, 2, 1); {
	case k == 1 && b.depth > 0:
		b.Op(byte(0x80 + t.N(min(b.depth, 16))))
	case k == 2:
		b.PushI(t.N(64))
		b.Op(0x35)
	case k == 3:
		b.Op([]byte{0x30, 0x33, 0x34, 0x36, 0x5a, 0x59, 0x3d, 0x58, 0x47, 0x42}[t.N(10)])
	default:
		b.Push(gen.WordBig(t))
	}
}

var huge = []*big.Int{}

func init() {
	for _, k := range []uint{31, 32, 33, 59, 62, 63, 64, 65, 128, 255} {
		for d := int64(-33); d <= 33; d += 11 {
			huge = append(huge, new(big.Int).Add(gen.Pow2(k), big.NewInt(d)))
		}
	}
	for d := int64(1); d < 70; d += 31 {
		huge = append(huge, new(big.Int).Sub(gen.Pow2(256), big.NewInt(d)), new(big.Int).Sub(gen.Pow2(64), big.NewInt(d)), new(big.Int).Sub(gen.Pow2(63), big.NewInt(d)))
	}
}

func (b *B) off() *big.Int {
	t := b.T
	switch t.Weighted(10, 6, 3, 1) {
	case 0:
		return big.NewInt(int64(t.N(160)))
	case 1:
		return big.NewInt(int64(32 * t.N(12)))
	case 2:
		return big.NewInt(int64(t.N(4200)))
	default:
		return big.NewInt(int64(t.N(60000)))
	}
}

func (b *B) size() *big.Int {
	t := b.T
	switch t.Weighted(3, 6, 4, 2, 1) {
	case 0:
		return new(big.Int)
	case 1:
		return big.NewInt(int64(t.N(70)))
	case 2:
		return big.NewInt(int64(32 * t.Range(1, 8)))
	case 3:
		return big.NewInt(int64(t.N(700)))
	default:
		return big.NewInt(int64(t.N(5000)))
	}
}

// region chooses a memory region; occasionally one that can not be paid for,
// and occasionally an empty one far away.
func (b *B) region() (off, size *big.Int) {
	t := b.T
	off, size = b.off(), b.size()
	w := 0
	if b.Wild {
		w = 1
	}
	switch t.Weighted(60, 3, w, w) {
	case 1:
		off, size = huge[t.N(len(huge))], new(big.Int)
	case 2:
		off = huge[t.N(len(huge))]
	case 3:
		size = huge[t.N(len(huge))]
	}
	return
}

func (b *B) pushAddr() {
	t := b.T
	a := b.Env.Addrs[t.N(len(b.Env.Addrs))]
	if t.Chance(1, 8) { // the upper bytes are to be ignored
		w := gen.Word(t)
		copy(w[12:], a[:])
		b.PushB(w[:])
		return
	}
	b.PushB(a[:])
}

func (b *B) pushKey() {
	t := b.T
	if t.Chance(1, 10) {
		b.Val()
		return
	}
	k := b.Env.Keys[t.N(len(b.Env.Keys))]
	b.PushB(k[:])
}

// sink consumes the top element: leaves it, drops it, or stores it.
func (b *B) sink() {
	switch b.T.Weighted(5, 1, 2) {
	case 1:
		b.Op(0x50)
	case 2:
		b.Push(b.off())
		b.Op(0x52)
	}
}

func (b *B) Snippet() {
	t, m := b.T, b.Mix
	if b.depth > 900 {
		for b.depth > 20 && t.Chance(30, 31) {
			b.Op(0x50)
		}
	}
	switch t.Weighted(m.Arith, m.Mem, m.Flow, m.Store, m.Calls, m.Env, m.Logs, m.Copy, m.Stack, m.Chaos, m.Super, m.Destruct, m.Sha, m.Gated) {
	case 0:
		b.arith()
	case 1:
		b.memory()
	case 2:
		b.flow()
	case 3:
		b.store()
	case 4:
		b.calls()
	case 5:
		b.env()
	case 6:
		n := t.N(5)
		for i := 0; i < n; i++ {
			b.Val()
		}
		o, s := b.region()
		b.Push(s)
		b.Push(o)
		b.Op(byte(0xa0 + n))
	case 7:
		b.copies()
	case 8:
		b.stack()
	case 9:
		b.chaos()
	case 10:
		b.super()
	case 11:
		if b.nest > 0 || b.wild(1, 3) {
			b.pushAddr()
			b.Op(0xff)
		}
	case 12:
		o, s := b.region()
		b.Push(s)
		b.Push(o)
		b.Op(0x20)
		b.sink()
	case 13:
		g := []byte{0x48, 0x5f, 0x49, 0x4a, 0x5c, 0x5d, 0x5e}[t.N(7)]
		if b.Rev < ref.Since(g) && !b.wild(1, 2) {
			return
		}
		in, _ := ref.Usage(g)
		for i := 0; i < in; i++ {
			b.PushI(t.N(40))
		}
		b.Op(g)
	}
}

var binary = []byte{1, 2, 3, 4, 5, 6, 7, 0xa, 0xb, 0x10, 0x11, 0x12, 0x13, 0x14, 0x16, 0x17, 0x18, 0x1a, 0x1b, 0x1c, 0x1d}

// Arith emits one arithmetic, comparison or bit operation on generated operands.
func (b *B) arith() {
	t := b.T
	switch t.Weighted(16, 3, 2) {
	case 0:
		op := binary[t.N(len(binary))]
		b.Val()
		if (op == 0x0b || op >= 0x1a) && t.Chance(4, 5) {
			b.PushI(t.N(260))
		} else if op == 0x0b || op == 0x1a {
			b.PushI(t.N(34))
		} else {
			b.Val()
		}
		if op == 0x0a && t.Chance(3, 4) { // small exponents
			b.op(0x90)
		}
		b.Op(op)
	case 1:
		b.Val()
		b.Val()
		b.Val()
		b.Op(byte(8 + t.N(2)))
	case 2:
		b.Val()
		b.Op([]byte{0x15, 0x19}[t.N(2)])
	}
	b.sink()
}

func (b *B) memory() {
	t := b.T
	o := b.off()
	if b.wild(1, 50) {
		o = huge[t.N(len(huge))]
	}
	switch t.Weighted(4, 3, 4, 2, 3) {
	case 0:
		b.Val()
		b.Push(o)
		b.Op(0x52)
	case 1:
		b.Val()
		b.Push(o)
		b.Op(0x53)
	case 2:
		b.Push(o)
		b.Op(0x51)
	case 3:
		b.Op(0x59)
	case 4:
		if b.Rev < tosca.R13_Cancun {
			b.Op(0x59)
			return
		}
		d, s := b.region()
		src := b.off()
		if b.wild(1, 40) {
			src = huge[t.N(len(huge))]
		}
		b.Push(s)
		b.Push(src)
		b.Push(d)
		b.Op(0x5e)
	}
}

func (b *B) copies() {
	t := b.T
	d, s := b.region()
	src := big.NewInt(int64(t.N(100)))
	switch t.Weighted(8, 2, 1) {
	case 1:
		src = big.NewInt(int64(t.N(3000)))
	case 2:
		src = huge[t.N(len(huge))]
	}
	switch t.Weighted(3, 3, 3, 3) {
	case 0:
		b.Push(s)
		b.Push(src)
		b.Push(d)
		b.Op(0x37)
	case 1:
		b.Push(s)
		b.Push(src)
		b.Push(d)
		b.Op(0x39)
	case 2:
		b.Push(s)
		b.Push(src)
		b.Push(d)
		b.pushAddr()
		b.Op(0x3c)
	case 3:
		b.returnCopy(d)
	}
}

// returnCopy emits a copy from the return data buffer, mostly within bounds.
func (b *B) returnCopy(d *big.Int) {
	t := b.T
	w := 0
	if b.Wild {
		w = 1
	}
	switch t.Weighted(5, 3, w, w) {
	case 0: // everything
		b.Op(0x3d)
		b.PushI(0)
	case 1: // the last byte(s): size - k .. size
		b.PushI(0)
		b.Op(0x3d)
	case 2:
		b.PushI(t.N(3))
		b.PushI(t.N(40))
	case 3:
		b.Push(gen.WordBig(t))
		b.Push(gen.WordBig(t))
	}
	b.Push(d)
	b.Op(0x3e)
}

func (b *B) store() {
	t := b.T
	switch t.Weighted(5, 4, 2, 2) {
	case 0:
		if t.Chance(3, 4) {
			b.PushI(t.N(4))
		} else {
			b.Val()
		}
		b.pushKey()
		b.Op(0x55)
	case 1:
		b.pushKey()
		b.Op(0x54)
		b.sink()
	case 2:
		if b.Rev >= tosca.R13_Cancun {
			b.Val()
			b.pushKey()
			b.Op(0x5d)
		}
	case 3:
		if b.Rev >= tosca.R13_Cancun {
			b.pushKey()
			b.Op(0x5c)
			b.sink()
		}
	}
}

func (b *B) pushSmallVal() {
	if b.T.Chance(9, 10) {
		b.PushI(b.T.N(3))
	} else {
		b.Val()
	}
}

func (b *B) calls() {
	t := b.T
	switch k := t.Weighted(5, 2, 3, 3, 2, 2, 3); k {
	case 0, 1, 2, 3:
		op := []byte{0xf1, 0xf2, 0xf4, 0xfa}[k]
		ro, rs := b.region()
		io, is := b.region()
		b.Push(rs)
		b.Push(ro)
		b.Push(is)
		b.Push(io)
		if op == 0xf1 || op == 0xf2 {
			switch t.Weighted(4, 3, 1) {
			case 0:
				b.PushI(0)
			case 1:
				b.PushI(t.Range(1, 40))
			case 2:
				b.Val()
			}
		}
		b.pushAddr()
		switch t.Weighted(4, 4, 2) {
		case 0:
			b.Op(0x5a)
		case 1:
			b.PushI(t.N(100000))
		case 2:
			b.Val()
		}
		b.Op(op)
		b.sink()
	case 4, 5:
		// init code: whatever is in memory, or a tiny program placed there
		if t.Bool() {
			var init []byte
			switch t.N(3) {
			case 0: // return n bytes of memory
				init = []byte{0x60, byte(t.N(64)), 0x60, byte(t.N(40)), 0xf3}
			case 1: // revert with data
				init = []byte{0x60, byte(t.N(64)), 0x60, 0, 0xfd}
			case 2:
				init = []byte{0x60, byte(t.N(4)), 0x60, byte(t.N(4)), 0x55, 0x00}
			}
			buf := make([]byte, 32)
			copy(buf, init)
			b.PushB(buf)
			b.PushI(0)
			b.Op(0x52)
		}
		o, s := b.region()
		switch {
		case t.Chance(1, 25):
			if b.Rev >= tosca.R12_Shanghai && !b.Wild {
				break
			}
			s = big.NewInt(int64(49152 + t.N(66) - 33))
			o = big.NewInt(int64(t.N(40)))
		case t.Bool():
			o, s = new(big.Int), big.NewInt(int64(t.Range(1, 40)))
		}
		if k == 5 {
			b.PushI(t.N(3))
		}
		b.Push(s)
		b.Push(o)
		b.pushSmallVal()
		b.Op([]byte{0xf0, 0xf5}[k-4])
		b.sink()
	case 6:
		if t.Bool() {
			b.Op(0x3d)
		} else {
			b.returnCopy(b.off())
		}
	}
}

func (b *B) env() {
	t := b.T
	switch t.Weighted(6, 4, 2, 1, 1) {
	case 0:
		b.Op([]byte{0x30, 0x32, 0x33, 0x34, 0x36, 0x38, 0x3a, 0x3d, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x58, 0x59, 0x5a}[t.N(18)])
	case 1:
		b.pushAddr()
		b.Op([]byte{0x31, 0x3b, 0x3f}[t.N(3)])
	case 2: // around the current block
		if t.Chance(1, 3) {
			b.Val()
		} else {
			b.PushI(t.Range(0, 300))
			b.Op(0x43)
			b.Op(0x03)
		}
		b.Op(0x40)
	case 3:
		b.Val()
		b.Op(0x35)
	case 4:
		if b.Rev >= tosca.R13_Cancun {
			if t.Bool() {
				b.Op(0x4a)
			} else {
				b.pushSmallVal()
				b.Op(0x49)
			}
		} else if b.Rev >= tosca.R10_London {
			b.Op(0x48)
		}
	}
	b.sink()
}

func (b *B) stack() {
	t := b.T
	switch t.Weighted(4, 4, 1, 3) {
	case 0:
		if b.depth > 0 {
			b.Op(byte(0x80 + t.N(min(b.depth, 16))))
		}
	case 1:
		if b.depth > 1 {
			b.Op(byte(0x90 + t.N(min(b.depth-1, 16))))
		}
	case 2:
		n := t.Range(1, 17)
		for i := 0; i < n; i++ {
			b.PushI(t.N(256))
		}
	case 3: // a push of every width
		n := t.Range(1, 32)
		b.op(byte(0x5f + n))
		b.op(t.Bytes(n)...)
		b.depth++
	}
}

func (b *B) block(n int) {
	b.nest++
	d := b.depth
	for i := 0; i < n; i++ {
		b.Snippet()
		for b.depth > d {
			b.Op(0x50)
		}
		for b.depth < d {
			b.PushI(0)
		}
	}
	b.nest--
}

func (b *B) flow() {
	t := b.T
	if b.nest > 2 {
		b.op(0x5b)
		return
	}
	switch t.Weighted(4, 3, 2, 1, 1) {
	case 0: // conditional skip
		l := b.newLabel()
		b.pushSmallVal()
		b.pushLabel(l)
		b.Op(0x57)
		b.block(t.N(3))
		b.place(l)
	case 1: // unconditional skip over data
		l := b.newLabel()
		b.pushLabel(l)
		b.Op(0x56)
		b.op(t.Bytes(t.N(20))...)
		// a push may swallow the label: pad
		if t.Chance(9, 10) {
			b.op(make([]byte, 33)...)
		}
		b.place(l)
	case 2: // counted loop
		l := b.newLabel()
		b.PushI(t.Range(1, 5))
		b.place(l)
		b.block(t.N(3))
		b.PushI(1)
		b.op(0x90)
		b.Op(0x03)
		b.Op(0x80)
		b.pushLabel(l)
		b.Op(0x57)
		b.Op(0x50)
	case 3: // subroutine: push return address, jump, dynamic jump back
		f, r, s := b.newLabel(), b.newLabel(), b.newLabel()
		b.pushLabel(s)
		b.Op(0x56)
		d := b.depth
		b.place(f)
		b.depth++
		b.block(t.N(2))
		b.op(0x56)
		b.depth = d
		b.place(s)
		b.pushLabel(r)
		b.pushLabel(f)
		b.op(0x56)
		b.depth -= 2
		b.place(r)
	case 4: // a jump that should mostly fail
		if b.wild(1, 2) {
			b.BadJump()
		}
	}
}

// BadJump emits a jump to a suspicious destination.
func (b *B) BadJump() {
	t := b.T
	cond := t.Bool()
	if cond {
		b.pushSmallVal()
	}
	b.badDest()
	if cond {
		b.Op(0x57)
	} else {
		b.Op(0x56)
	}
}

func (b *B) badDest() {
	t := b.T
	switch t.Weighted(3, 3, 3, 2) {
	case 0: // anywhere in the code
		b.PushI(t.N(len(b.Code) + 40))
	case 1: // 2^k plus a valid destination
		d := b.someDest()
		b.Push(new(big.Int).Add(gen.Pow2([]uint{8, 16, 31, 32, 33, 63, 64, 128, 255}[t.N(9)]), big.NewInt(int64(d))))
	case 2: // a 0x5b byte inside immediate data
		p := len(b.Code) + 1
		b.op(0x60, 0x5b, 0x50)
		if p < 65536 {
			b.op(0x61, byte(p>>8), byte(p))
			b.depth++
		}
	case 3:
		b.Push(gen.WordBig(t))
	}
}

func (b *B) someDest() int {
	var ds []int
	for d := range ref.JumpDests(b.Code) {
		ds = append(ds, int(d))
	}
	if len(ds) == 0 {
		return 0
	}
	m := ds[0]
	for _, d := range ds {
		if d < m {
			m = d
		}
	}
	return m
}

func (b *B) chaos() {
	t := b.T
	if !b.Wild {
		return
	}
	switch t.Weighted(3, 2, 1, 1) {
	case 0:
		b.Op(byte(t.N(256)))
	case 1:
		b.BadJump()
	case 2:
		b.op(t.Bytes(t.Range(1, 8))...)
	case 3:
		b.op(0xfe)
	}
}

// super emits the sequences an optimising converter may fuse.
func (b *B) super() {
	t := b.T
	need := func(n int) {
		for b.depth < n {
			b.Val()
		}
	}
	emit := func(ops ...byte) {
		for _, o := range ops {
			b.Op(o)
		}
	}
	push1 := func() { b.op(0x60, t.Byte()); b.depth++ }
	jumpTail := func(pre func(dest func())) { // [... dest ...] ... JUMP
		l := b.newLabel()
		pre(func() {
			if b.wild(1, 4) {
				b.badDest()
			} else {
				b.pushLabel(l)
			}
		})
		b.place(l)
	}
	switch t.N(19) {
	case 0: // SWAP1 POP SWAP2 SWAP1
		need(5)
		emit(0x90, 0x50, 0x91, 0x90)
	case 1:
		need(5)
		emit(0x50, 0x91, 0x90, 0x50)
	case 2:
		need(3)
		emit(0x50, 0x50)
	case 3:
		need(1)
		push1()
		emit(0x1b)
	case 4:
		need(1)
		push1()
		emit(0x01)
	case 5:
		push1()
		emit(0x80)
	case 6:
		push1()
		push1()
	case 7:
		need(2)
		emit(0x90, 0x50)
	case 8:
		need(3)
		emit(0x91, 0x90)
	case 9:
		need(3)
		emit(0x91, 0x50)
	case 10: // DUP2 MSTORE
		b.Val()
		b.Push(b.off())
		emit(0x81, 0x52)
	case 11:
		need(2)
		emit(0x81, 0x10)
	case 12: // ISZERO PUSH2 JUMPI
		l := b.newLabel()
		b.pushSmallVal()
		emit(0x15)
		b.pushLabel(l)
		emit(0x57)
		b.block(t.N(2))
		b.place(l)
	case 13: // PUSH1 PUSH4 DUP3
		need(1)
		push1()
		b.op(0x63)
		b.op(t.Bytes(4)...)
		b.depth++
		emit(0x82)
	case 14: // AND SWAP1 POP SWAP2 SWAP1
		need(5)
		emit(0x16, 0x90, 0x50, 0x91, 0x90)
	case 15: // PUSH1 PUSH1 PUSH1 SHL SUB
		push1()
		push1()
		push1()
		emit(0x1b, 0x03)
	case 16: // PUSH2 JUMP
		l := b.newLabel()
		b.pushLabel(l)
		emit(0x56)
		b.op(t.Bytes(t.N(3))...)
		b.op(make([]byte, 33)...)
		b.place(l)
	case 17: // POP JUMP: dest, x -> POP -> JUMP
		jumpTail(func(dest func()) {
			dest()
			b.Val()
			emit(0x50, 0x56)
		})
	case 18: // SWAP2 SWAP1 POP JUMP: [dest a b] -> swap2 [b a dest] swap1 [b dest a] pop jump
		jumpTail(func(dest func()) {
			dest()
			b.Val()
			b.Val()
			emit(0x91, 0x90, 0x50, 0x56)
		})
	}
}

// Skip emits a jump over the given bytes.
func (b *B) Skip(data []byte) {
	l := b.newLabel()
	b.pushLabel(l)
	b.Op(0x56)
	b.op(data...)
	b.place(l)
}

// Dump returns the top of the stack.
func (b *B) Dump() {
	n := min(max(b.depth, 0), 40)
	for i := 0; i < n; i++ {
		b.PushI(32 * i)
		b.Op(0x52)
	}
	b.PushI(32 * n)
	b.PushI(0)
	b.op(0xf3)
}

// Epilogue exposes the final stack, memory size and gas, then stops.
func (b *B) Epilogue() {
	t := b.T
	if b.depth < 0 {
		b.depth = 0
	}
	k := t.Weighted(10, 2, 1, 1, 1)
	if k >= 3 {
		switch k {
		case 3:
			b.op(0x00)
		case 4: // run off the end
		}
		return
	}
	if t.Chance(1, 2) {
		b.Op(0x59)
	}
	if t.Chance(1, 3) {
		b.Op(0x5a)
	}
	if t.Chance(1, 3) {
		b.Op(0x3d)
	}
	base := 0
	if t.Chance(1, 2) {
		base = t.N(300)
	}
	n := min(b.depth, 40)
	for i := 0; i < n; i++ {
		b.PushI(base + 32*i)
		b.Op(0x52)
	}
	if t.Chance(1, 4) {
		b.Op(0x59)
	} else {
		b.PushI(base + 32*n)
	}
	b.PushI(0)
	if k == 1 {
		b.op(0xfd)
	} else {
		b.op(0xf3)
	}
}

// Program generates a complete program.
func Program(t *pbt.T, env *Env, rev tosca.Revision, m Mix, maxSnippets int) []byte {
	b := &B{T: t, Env: env, Rev: rev, Mix: m, Wild: t.Chance(2, 5)}
	n := 1 + t.N(maxSnippets)
	for i := 0; i < n; i++ {
		b.Snippet()
	}
	b.Epilogue()
	b.Finish()
	code := b.Code
	if b.wild(1, 10) && len(code) > 1 { // truncation, possibly inside a push
		code = code[:1+t.N(len(code)-1)]
	}
	if b.wild(1, 15) && len(code) > 0 { // a flipped byte
		code[t.N(len(code))] = t.Byte()
	}
	return code
}

// Random is a code without structure.
func Random(t *pbt.T) []byte {
	n := t.N(80)
	code := make([]byte, 0, n)
	for i := 0; i < n; i++ {
		switch t.Weighted(4, 5, 2, 2) {
		case 0:
			code = append(code, t.Byte())
		case 1: // small pushes keep programs alive
			code = append(code, 0x60, t.Byte())
		case 2:
			code = append(code, []byte{0x5b, 0x56, 0x57, 0x80, 0x90, 0x50, 0x01, 0x52, 0x51, 0x55, 0x54}[t.N(11)])
		case 3:
			code = append(code, 0x5b)
		}
	}
	return code
}

func value(t *pbt.T) tosca.Value {
	switch t.Weighted(2, 5, 1) {
	case 0:
		return tosca.Value{}
	case 1:
		return tosca.NewValue(uint64(t.N(100)))
	default:
		return tosca.Value(gen.Word(t))
	}
}

// Case is a program with everything it needs to run.
type Case struct {
	Par   tosca.Parameters
	World *world.World
	Env   *Env
}

// Setup generates the world and the parameters around a code.
func Setup(t *pbt.T, env *Env, rev tosca.Revision, static bool) *Case {
	w := world.New()
	w.Rev = rev
	self := env.Addrs[0]
	word := func() tosca.Word {
		if t.Chance(4, 5) {
			return tosca.Word{31: byte(t.N(4))}
		}
		return gen.Word(t)
	}
	acc := w.Get(self)
	acc.Balance = value(t)
	acc.Nonce = uint64(t.N(3))
	for _, k := range env.Keys {
		acc.Orig[k] = word()
		acc.Storage[k] = acc.Orig[k]
		if t.Chance(1, 3) {
			acc.Storage[k] = word()
		}
		// a slot modified in the ongoing transaction has been accessed before
		if t.Chance(1, 3) || acc.Orig[k] != acc.Storage[k] {
			w.WarmS[world.Slot{A: self, K: k}] = true
		}
		if t.Chance(1, 4) {
			w.Trans[world.Slot{A: self, K: k}] = gen.Word(t)
		}
	}
	for i := 4; i <= 6; i++ {
		a := w.Get(env.Addrs[i])
		a.Code = t.Bytes(t.Range(1, 60))
		a.Balance = value(t)
		a.Nonce = 1
	}
	w.Get(env.Addrs[7]).Balance = tosca.NewValue(uint64(t.Range(1, 1000)))
	w.Get(env.Addrs[9]).Nonce = 1
	w.Get(env.Addrs[10])
	if t.Chance(1, 8) {
		w.Get(env.Addrs[8]).Destructed = true
	}
	if t.Chance(1, 12) {
		acc.Destructed = true
	}
	for i, a := range env.Addrs {
		if i < 3 || t.Chance(1, 4) {
			w.WarmA[a] = i != 2 || t.Bool()
		}
	}
	n := t.N(4)
	for i := 0; i < n; i++ {
		r := world.Response{Success: t.Chance(3, 4)}
		if r.Success || t.Chance(2, 3) {
			r.Left = t.N(257)
			if t.Chance(4, 5) {
				r.Output = t.Bytes([]int{0, 1, 31, 32, 33, 64, 100, 5}[t.N(8)])
			}
		}
		if r.Success {
			if t.Chance(1, 2) {
				r.Refund = int64(t.N(50000)) - 20000
			}
			copy(r.Created[:], t.Bytes(20))
			if t.Chance(1, 3) {
				r.Poke = &world.Poke{Key: env.Keys[t.N(len(env.Keys))], Val: word(), Trans: t.Bool(), Balance: t.Chance(1, 4)}
			}
		}
		w.Script = append(w.Script, r)
	}
	c := &Case{World: w, Env: env}
	p := &c.Par
	p.ChainID = gen.Word(t)
	p.BlockNumber = int64([]uint64{0, 1, 255, 256, 257, 1000, 1 << 40, 1<<63 - 1}[t.N(8)])
	p.Timestamp = int64(gen.U64(t) >> 1)
	p.Coinbase = env.Addrs[3]
	p.GasLimit = tosca.Gas(gen.U64(t) >> 1)
	p.PrevRandao = tosca.Hash(gen.Word(t))
	p.BaseFee = tosca.Value(gen.Word(t))
	p.BlobBaseFee = tosca.Value(gen.Word(t))
	p.Revision = rev
	p.Origin = env.Addrs[2]
	p.GasPrice = tosca.Value(gen.Word(t))
	for i := t.N(4); i > 0; i-- {
		p.BlobHashes = append(p.BlobHashes, tosca.Hash(gen.Word(t)))
	}
	p.Kind = tosca.Call
	p.Static = static
	p.Depth = []int{0, 1, 2, 500, 1023, 1024}[t.Weighted(8, 3, 3, 1, 2, 2)]
	p.Recipient = self
	p.Sender = env.Addrs[1]
	if t.Chance(4, 5) {
		p.Input = t.Bytes([]int{0, 1, 4, 31, 32, 33, 36, 64, 68, 100, 250}[t.N(11)])
	}
	p.Value = value(t)
	w.Depth, w.Static, w.Self = p.Depth, static, self
	return c
}

// Describe renders a case for people.
func (c *Case) Describe() string {
	var s strings.Builder
	p := c.Par
	fmt.Fprintf(&s, "rev %v static %v depth %d gas %d input %x value %x\ncode %x\n", p.Revision, p.Static, p.Depth, p.Gas, []byte(p.Input), p.Value, []byte(p.Code))
	fmt.Fprintf(&s, "script %+v\n", c.World.Script)
	return s.String()
}

var names = map[byte]string{}

// Asm disassembles a code.
func Asm(code []byte) string {
	var s strings.Builder
	for i := 0; i < len(code); i++ {
		op := code[i]
		if op >= 0x60 && op <= 0x7f {
			n := int(op - 0x5f)
			e := min(len(code), i+1+n)
			fmt.Fprintf(&s, "%d:PUSH%d(%x) ", i, n, code[i+1:e])
			i += n
			continue
		}
		fmt.Fprintf(&s, "%d:%v ", i, Name(op))
	}
	return s.String()
}

func Name(op byte) string {
	if n, ok := names[op]; ok {
		return n
	}
	return fmt.Sprintf("%02x", op)
}

func init() {
	for k, v := range map[byte]string{0: "STOP", 1: "ADD", 2: "MUL", 3: "SUB", 4: "DIV", 5: "SDIV", 6: "MOD", 7: "SMOD", 8: "ADDMOD", 9: "MULMOD", 10: "EXP", 11: "SIGNEXTEND",
		0x10: "LT", 0x11: "GT", 0x12: "SLT", 0x13: "SGT", 0x14: "EQ", 0x15: "ISZERO", 0x16: "AND", 0x17: "OR", 0x18: "XOR", 0x19: "NOT", 0x1a: "BYTE", 0x1b: "SHL", 0x1c: "SHR", 0x1d: "SAR",
		0x20: "SHA3", 0x30: "ADDRESS", 0x31: "BALANCE", 0x32: "ORIGIN", 0x33: "CALLER", 0x34: "CALLVALUE", 0x35: "CALLDATALOAD", 0x36: "CALLDATASIZE", 0x37: "CALLDATACOPY",
		0x38: "CODESIZE", 0x39: "CODECOPY", 0x3a: "GASPRICE", 0x3b: "EXTCODESIZE", 0x3c: "EXTCODECOPY", 0x3d: "RETURNDATASIZE", 0x3e: "RETURNDATACOPY", 0x3f: "EXTCODEHASH",
		0x40: "BLOCKHASH", 0x41: "COINBASE", 0x42: "TIMESTAMP", 0x43: "NUMBER", 0x44: "PREVRANDAO", 0x45: "GASLIMIT", 0x46: "CHAINID", 0x47: "SELFBALANCE", 0x48: "BASEFEE",
		0x49: "BLOBHASH", 0x4a: "BLOBBASEFEE", 0x50: "POP", 0x51: "MLOAD", 0x52: "MSTORE", 0x53: "MSTORE8", 0x54: "SLOAD", 0x55: "SSTORE", 0x56: "JUMP", 0x57: "JUMPI", 0x58: "PC",
		0x59: "MSIZE", 0x5a: "GAS", 0x5b: "JUMPDEST", 0x5c: "TLOAD", 0x5d: "TSTORE", 0x5e: "MCOPY", 0x5f: "PUSH0", 0xf0: "CREATE", 0xf1: "CALL", 0xf2: "CALLCODE", 0xf3: "RETURN",
		0xf4: "DELEGATECALL", 0xf5: "CREATE2", 0xfa: "STATICCALL", 0xfd: "REVERT", 0xfe: "INVALID", 0xff: "SELFDESTRUCT"} {
		names[k] = v
	}
	for i := byte(0); i < 16; i++ {
		names[0x80+i] = fmt.Sprintf("DUP%d", i+1)
		names[0x90+i] = fmt.Sprintf("SWAP%d", i+1)
	}
	for i := byte(0); i < 32; i++ {
		names[0x60+i] = fmt.Sprintf("PUSH%d", i+1)
	}
	for i := byte(0); i < 5; i++ {
		names[0xa0+i] = fmt.Sprintf("LOG%d", i)
	}
}
