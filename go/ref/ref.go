// Package ref is a reference implementation of the EVM's instruction set,
// written from the protocol definition (Istanbul to Cancun) in terms of
// arbitrary-precision integers. It favours directness over speed.
package ref

import (
	"math/big"

	"github.com/Fantom-foundation/Tosca/go/tosca"
)

type Status int

const (
	Running Status = iota
	Stopped
	Returned
	Reverted
	Destructed
	Failed
	Capped // step limit of the harness reached
)

func (s Status) String() string {
	return [...]string{"running", "stopped", "returned", "reverted", "destructed", "failed", "capped"}[s]
}

var (
	zero    = new(big.Int)
	one     = big.NewInt(1)
	two256  = new(big.Int).Lsh(one, 256)
	two255  = new(big.Int).Lsh(one, 255)
	mask    = new(big.Int).Sub(two256, one)
	mask160 = new(big.Int).Sub(new(big.Int).Lsh(one, 160), one)
)

type Step struct {
	PC     int
	Op     byte
	Used   int64    // gas consumed before the step
	Cost   int64    // gas consumed by the step
	Dep    int      // stack size before the step
	Jumped bool     // it was a jump that was taken
	Top    *big.Int // top of the stack before the step, or nil
}

type EVM struct {
	P       tosca.Parameters
	C       tosca.RunContext
	PC      uint64
	Gas     int64
	Refund  int64
	Stack   []*big.Int
	Mem     []byte
	Ret     []byte // return data of the last call
	Out     []byte
	Status  Status
	Why     string
	Steps   int
	MaxStep int
	MaxMem  int // a limit for the harness: growing beyond it counts as Capped
	Trace   func(Step)
	jumped  bool
	dests   map[uint64]bool
}

func New(p tosca.Parameters) *EVM {
	return &EVM{P: p, C: p.Context, Gas: int64(p.Gas), dests: JumpDests(p.Code), MaxStep: 1 << 30, MaxMem: 1 << 30}
}

// JumpDests lists the valid jump destinations of a code.
func JumpDests(code []byte) map[uint64]bool {
	res := map[uint64]bool{}
	for i := 0; i < len(code); i++ {
		switch op := code[i]; {
		case op == 0x5b:
			res[uint64(i)] = true
		case op >= 0x60 && op <= 0x7f:
			i += int(op-0x60) + 1
		}
	}
	return res
}

type fail string

func (e *EVM) fail(why string) { panic(fail(why)) }

func (e *EVM) charge(n int64) {
	if n < 0 || n > e.Gas {
		e.fail("out of gas")
	}
	e.Gas -= n
}

func (e *EVM) pop() *big.Int {
	v := e.Stack[len(e.Stack)-1]
	e.Stack = e.Stack[:len(e.Stack)-1]
	return v
}

func (e *EVM) push(v *big.Int) {
	e.Stack = append(e.Stack, new(big.Int).And(v, mask))
}
func (e *EVM) pushU(v uint64)     { e.push(new(big.Int).SetUint64(v)) }
func (e *EVM) pushBytes(b []byte) { e.push(new(big.Int).SetBytes(b)) }
func (e *EVM) pushBool(b bool) {
	if b {
		e.push(one)
	} else {
		e.push(zero)
	}
}

func words(size *big.Int) *big.Int {
	return new(big.Int).Rsh(new(big.Int).Add(size, big.NewInt(31)), 5)
}

func memGas(words *big.Int) *big.Int {
	q := new(big.Int).Mul(words, words)
	q.Rsh(q, 9)
	return q.Add(q, new(big.Int).Mul(words, big.NewInt(3)))
}

func (e *EVM) chargeBig(n *big.Int) {
	if !n.IsInt64() {
		e.fail("out of gas")
	}
	e.charge(n.Int64())
}

// touch charges for and performs a memory expansion.
func (e *EVM) touch(regions ...*big.Int) {
	end := new(big.Int)
	for i := 0; i+1 < len(regions); i += 2 {
		if regions[i+1].Sign() == 0 {
			continue
		}
		x := new(big.Int).Add(regions[i], regions[i+1])
		if x.Cmp(end) > 0 {
			end = x
		}
	}
	w := words(end)
	have := big.NewInt(int64(len(e.Mem) / 32))
	if w.Cmp(have) <= 0 {
		return
	}
	e.chargeBig(new(big.Int).Sub(memGas(w), memGas(have)))
	n := int(w.Int64()) * 32
	if n > e.MaxMem {
		e.Status = Capped
		panic(fail("memory limit of the harness"))
	}
	e.Mem = append(e.Mem, make([]byte, n-len(e.Mem))...)
}

// mem returns a copy of a region that has been touched before.
func (e *EVM) mem(off, size *big.Int) []byte {
	if size.Sign() == 0 {
		return nil
	}
	o, n := off.Int64(), size.Int64()
	return append([]byte(nil), e.Mem[o:o+n]...)
}

// padded reads size bytes at off with zeros beyond the end.
func padded(data []byte, off, size *big.Int) []byte {
	res := make([]byte, size.Int64())
	if off.IsInt64() && off.Int64() < int64(len(data)) {
		copy(res, data[off.Int64():])
	}
	return res
}

func (e *EVM) perWord(n int64, size *big.Int) {
	e.chargeBig(new(big.Int).Mul(words(size), big.NewInt(n)))
}

func toAddr(v *big.Int) (a tosca.Address) {
	new(big.Int).And(v, mask160).FillBytes(a[:])
	return
}
func to32(v *big.Int) (w [32]byte) {
	v.FillBytes(w[:])
	return
}
func signed(v *big.Int) *big.Int {
	if v.Cmp(two255) >= 0 {
		return new(big.Int).Sub(v, two256)
	}
	return v
}

type opInfo struct{ pops, pushes int }

var ops [256]*opInfo

func def(op byte, pops, pushes int) { ops[op] = &opInfo{pops, pushes} }

func init() {
	def(0x00, 0, 0)
	for _, o := range []byte{1, 2, 3, 4, 5, 6, 7, 0xa, 0xb, 0x10, 0x11, 0x12, 0x13, 0x14, 0x16, 0x17, 0x18, 0x1a, 0x1b, 0x1c, 0x1d, 0x20} {
		def(o, 2, 1)
	}
	def(8, 3, 1)
	def(9, 3, 1)
	def(0x15, 1, 1)
	def(0x19, 1, 1)
	for _, o := range []byte{0x30, 0x32, 0x33, 0x34, 0x36, 0x38, 0x3a, 0x3d, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x4a, 0x58, 0x59, 0x5a, 0x5f} {
		def(o, 0, 1)
	}
	for _, o := range []byte{0x31, 0x35, 0x3b, 0x3f, 0x40, 0x49, 0x51, 0x54, 0x5c} {
		def(o, 1, 1)
	}
	for _, o := range []byte{0x37, 0x39, 0x3e, 0x5e} {
		def(o, 3, 0)
	}
	def(0x3c, 4, 0)
	def(0x50, 1, 0)
	for _, o := range []byte{0x52, 0x53, 0x55, 0x57, 0x5d, 0xf3, 0xfd} {
		def(o, 2, 0)
	}
	def(0x56, 1, 0)
	def(0x5b, 0, 0)
	for i := 0; i < 32; i++ {
		def(byte(0x60+i), 0, 1)
	}
	for i := 0; i < 16; i++ {
		def(byte(0x80+i), i+1, i+2)
		def(byte(0x90+i), i+2, i+2)
	}
	for i := 0; i < 5; i++ {
		def(byte(0xa0+i), i+2, 0)
	}
	def(0xf0, 3, 1)
	def(0xf1, 7, 1)
	def(0xf2, 7, 1)
	def(0xf4, 6, 1)
	def(0xf5, 4, 1)
	def(0xfa, 6, 1)
	def(0xff, 1, 0)
}

// Since is the first revision supporting an instruction.
func Since(op byte) tosca.Revision {
	switch op {
	case 0x48:
		return tosca.R10_London
	case 0x5f:
		return tosca.R12_Shanghai
	case 0x49, 0x4a, 0x5c, 0x5d, 0x5e:
		return tosca.R13_Cancun
	}
	return tosca.R07_Istanbul
}

// Defined reports whether op is an instruction in the given revision.
func Defined(op byte, r tosca.Revision) bool { return ops[op] != nil && r >= Since(op) }

// Usage is the number of consumed and produced stack elements.
func Usage(op byte) (pops, pushes int) {
	if ops[op] == nil {
		return 0, 0
	}
	return ops[op].pops, ops[op].pushes
}

// static is the part of the price that depends on nothing but the revision.
func static(op byte, r tosca.Revision) int64 {
	berlin := r >= tosca.R09_Berlin
	switch {
	case op == 0x00 || op == 0xf3 || op == 0xfd || op == 0x55:
		return 0
	case op == 0x31, op == 0x3b, op == 0x3c, op == 0x3f:
		if berlin {
			return 0
		}
		return 700
	case op == 0x54:
		if berlin {
			return 0
		}
		return 800
	case op >= 0xf1 && op <= 0xf4 && op != 0xf3, op == 0xfa:
		if berlin {
			return 0
		}
		return 700
	case op == 0xf0, op == 0xf5:
		return 32000
	case op == 0xff:
		return 5000
	case op == 0x5b:
		return 1
	case op == 0x02, op >= 0x04 && op <= 0x07, op == 0x0b, op == 0x47:
		return 5
	case op == 0x08, op == 0x09, op == 0x56:
		return 8
	case op == 0x57, op == 0x0a:
		return 10
	case op == 0x20:
		return 30
	case op == 0x40:
		return 20
	case op == 0x5c, op == 0x5d:
		return 100
	case op >= 0xa0 && op <= 0xa4:
		return 375 * int64(op-0xa0+1)
	case op == 0x30, op == 0x32, op == 0x33, op == 0x34, op == 0x36, op == 0x38, op == 0x3a, op == 0x3d,
		op >= 0x41 && op <= 0x46, op == 0x48, op == 0x4a, op == 0x50, op >= 0x58 && op <= 0x5a, op == 0x5f:
		return 2
	}
	return 3
}

func (e *EVM) account(a tosca.Address) {
	if e.P.Revision >= tosca.R09_Berlin {
		if e.C.AccessAccount(a) == tosca.ColdAccess {
			e.charge(2600)
		} else {
			e.charge(100)
		}
	}
}

func (e *EVM) empty(a tosca.Address) bool {
	return e.C.GetNonce(a) == 0 && e.C.GetBalance(a) == (tosca.Value{}) && e.C.GetCodeSize(a) == 0
}

func (e *EVM) balance(a tosca.Address) *big.Int {
	b := e.C.GetBalance(a)
	return new(big.Int).SetBytes(b[:])
}

// Run executes to the end and produces the result of the run.
func (e *EVM) Run() tosca.Result {
	for e.Status == Running {
		e.Step()
	}
	return e.Result()
}

func (e *EVM) Result() tosca.Result {
	switch e.Status {
	case Stopped, Destructed, Returned:
		return tosca.Result{Success: true, Output: e.Out, GasLeft: tosca.Gas(e.Gas), GasRefund: tosca.Gas(e.Refund)}
	case Reverted:
		return tosca.Result{Output: e.Out, GasLeft: tosca.Gas(e.Gas)}
	}
	return tosca.Result{}
}

// Step executes one instruction.
func (e *EVM) Step() {
	if e.Status != Running {
		return
	}
	if e.PC >= uint64(len(e.P.Code)) {
		e.Status = Stopped
		return
	}
	if e.Steps >= e.MaxStep {
		e.Status = Capped
		return
	}
	e.Steps++
	defer func() {
		if r := recover(); r != nil {
			f, ok := r.(fail)
			if !ok {
				panic(r)
			}
			e.Why = string(f)
			if e.Status != Capped {
				e.Status = Failed
				e.Gas = 0
				e.Refund = 0
			}
		}
	}()
	before, pc, dep := e.Gas, e.PC, len(e.Stack)
	var top *big.Int
	e.jumped = false
	if dep > 0 && e.Trace != nil {
		top = new(big.Int).Set(e.Stack[dep-1])
	}
	op := e.P.Code[e.PC]
	if e.Trace != nil {
		defer func() {
			after := e.Gas
			e.Trace(Step{PC: int(pc), Op: op, Used: int64(e.P.Gas) - before, Cost: before - after, Dep: dep, Jumped: e.jumped, Top: top})
		}()
	}
	if !Defined(op, e.P.Revision) {
		e.fail("undefined instruction")
	}
	info := ops[op]
	if len(e.Stack) < info.pops {
		e.fail("stack underflow")
	}
	if len(e.Stack)-info.pops+info.pushes > 1024 {
		e.fail("stack overflow")
	}
	e.charge(static(op, e.P.Revision))
	e.PC++
	e.exec(op)
}

func (e *EVM) noStatic() {
	if e.P.Static {
		e.fail("write in static context")
	}
}

func (e *EVM) jump(dst *big.Int) {
	if !dst.IsUint64() || !e.dests[dst.Uint64()] {
		e.fail("bad jump destination")
	}
	e.PC = dst.Uint64()
	e.jumped = true
}

func (e *EVM) exec(op byte) {
	switch {
	case op >= 0x60 && op <= 0x7f:
		n := int(op - 0x5f)
		e.push(new(big.Int).SetBytes(padded(e.P.Code, new(big.Int).SetUint64(e.PC), big.NewInt(int64(n)))))
		e.PC += uint64(n)
		return
	case op >= 0x80 && op <= 0x8f:
		e.push(e.Stack[len(e.Stack)-int(op-0x7f)])
		return
	case op >= 0x90 && op <= 0x9f:
		i, j := len(e.Stack)-1, len(e.Stack)-1-int(op-0x8f)
		e.Stack[i], e.Stack[j] = e.Stack[j], e.Stack[i]
		return
	case op >= 0xa0 && op <= 0xa4:
		e.log(int(op - 0xa0))
		return
	}
	switch op {
	case 0x00:
		e.Status = Stopped
		e.Ret = nil
		e.PC--
	case 0x01:
		a, b := e.pop(), e.pop()
		e.push(new(big.Int).Add(a, b))
	case 0x02:
		a, b := e.pop(), e.pop()
		e.push(new(big.Int).Mul(a, b))
	case 0x03:
		a, b := e.pop(), e.pop()
		e.push(new(big.Int).Sub(a, b))
	case 0x04, 0x05, 0x06, 0x07:
		a, b := e.pop(), e.pop()
		if b.Sign() == 0 {
			e.push(zero)
			return
		}
		if op == 0x05 || op == 0x07 {
			a, b = signed(a), signed(b)
		}
		if op == 0x04 || op == 0x05 {
			e.push(new(big.Int).Quo(a, b))
		} else {
			e.push(new(big.Int).Rem(a, b))
		}
	case 0x08, 0x09:
		a, b, n := e.pop(), e.pop(), e.pop()
		if n.Sign() == 0 {
			e.push(zero)
			return
		}
		r := new(big.Int)
		if op == 0x08 {
			r.Add(a, b)
		} else {
			r.Mul(a, b)
		}
		e.push(r.Mod(r, n))
	case 0x0a:
		a, b := e.pop(), e.pop()
		e.charge(50 * int64((b.BitLen()+7)/8))
		e.push(new(big.Int).Exp(a, b, two256))
	case 0x0b:
		k, v := e.pop(), e.pop()
		if k.Cmp(big.NewInt(31)) < 0 {
			bits := uint(k.Int64()*8 + 8)
			low := new(big.Int).And(v, new(big.Int).Sub(new(big.Int).Lsh(one, bits), one))
			if low.Bit(int(bits-1)) == 1 {
				low.Sub(low, new(big.Int).Lsh(one, bits))
			}
			v = low
		}
		e.push(v)
	case 0x10:
		a, b := e.pop(), e.pop()
		e.pushBool(a.Cmp(b) < 0)
	case 0x11:
		a, b := e.pop(), e.pop()
		e.pushBool(a.Cmp(b) > 0)
	case 0x12:
		a, b := e.pop(), e.pop()
		e.pushBool(signed(a).Cmp(signed(b)) < 0)
	case 0x13:
		a, b := e.pop(), e.pop()
		e.pushBool(signed(a).Cmp(signed(b)) > 0)
	case 0x14:
		a, b := e.pop(), e.pop()
		e.pushBool(a.Cmp(b) == 0)
	case 0x15:
		e.pushBool(e.pop().Sign() == 0)
	case 0x16:
		a, b := e.pop(), e.pop()
		e.push(new(big.Int).And(a, b))
	case 0x17:
		a, b := e.pop(), e.pop()
		e.push(new(big.Int).Or(a, b))
	case 0x18:
		a, b := e.pop(), e.pop()
		e.push(new(big.Int).Xor(a, b))
	case 0x19:
		e.push(new(big.Int).Xor(e.pop(), mask))
	case 0x1a:
		i, v := e.pop(), e.pop()
		if i.Cmp(big.NewInt(32)) >= 0 {
			e.push(zero)
		} else {
			w := to32(v)
			e.pushU(uint64(w[i.Int64()]))
		}
	case 0x1b, 0x1c, 0x1d:
		s, v := e.pop(), e.pop()
		n := uint(256)
		if s.Cmp(big.NewInt(256)) < 0 {
			n = uint(s.Uint64())
		}
		switch op {
		case 0x1b:
			e.push(new(big.Int).Lsh(v, n))
		case 0x1c:
			e.push(new(big.Int).Rsh(v, n))
		default:
			e.push(new(big.Int).Rsh(signed(v), n)) // rounds towards negative infinity
		}
	case 0x20:
		off, size := e.pop(), e.pop()
		e.touch(off, size)
		e.perWord(6, size)
		h := Keccak(e.mem(off, size))
		e.pushBytes(h[:])
	case 0x30:
		e.pushBytes(e.P.Recipient[:])
	case 0x31:
		a := toAddr(e.pop())
		e.account(a)
		e.push(e.balance(a))
	case 0x32:
		e.pushBytes(e.P.Origin[:])
	case 0x33:
		e.pushBytes(e.P.Sender[:])
	case 0x34:
		e.pushBytes(e.P.Value[:])
	case 0x35:
		e.pushBytes(padded(e.P.Input, e.pop(), big.NewInt(32)))
	case 0x36:
		e.pushU(uint64(len(e.P.Input)))
	case 0x37:
		e.copy(e.P.Input)
	case 0x38:
		e.pushU(uint64(len(e.P.Code)))
	case 0x39:
		e.copy(e.P.Code)
	case 0x3a:
		e.pushBytes(e.P.GasPrice[:])
	case 0x3b:
		a := toAddr(e.pop())
		e.account(a)
		e.pushU(uint64(e.C.GetCodeSize(a)))
	case 0x3c:
		a := toAddr(e.pop())
		e.account(a)
		e.copy(e.C.GetCode(a))
	case 0x3d:
		e.pushU(uint64(len(e.Ret)))
	case 0x3e:
		dst, off, size := e.pop(), e.pop(), e.pop()
		if new(big.Int).Add(off, size).Cmp(big.NewInt(int64(len(e.Ret)))) > 0 {
			e.fail("return data out of bounds")
		}
		e.touch(dst, size)
		e.perWord(3, size)
		if size.Sign() > 0 {
			copy(e.Mem[dst.Int64():], e.Ret[off.Int64():off.Int64()+size.Int64()])
		}
	case 0x3f:
		a := toAddr(e.pop())
		e.account(a)
		if e.empty(a) {
			e.push(zero)
		} else {
			h := e.C.GetCodeHash(a)
			e.pushBytes(h[:])
		}
	case 0x40:
		n := e.pop()
		cur := big.NewInt(e.P.BlockNumber)
		low := new(big.Int).Sub(cur, big.NewInt(256))
		if n.Cmp(cur) < 0 && n.Cmp(low) >= 0 {
			h := e.C.GetBlockHash(n.Int64())
			e.pushBytes(h[:])
		} else {
			e.push(zero)
		}
	case 0x41:
		e.pushBytes(e.P.Coinbase[:])
	case 0x42:
		e.pushU(uint64(e.P.Timestamp))
	case 0x43:
		e.pushU(uint64(e.P.BlockNumber))
	case 0x44:
		e.pushBytes(e.P.PrevRandao[:])
	case 0x45:
		e.pushU(uint64(e.P.GasLimit))
	case 0x46:
		e.pushBytes(e.P.ChainID[:])
	case 0x47:
		e.push(e.balance(e.P.Recipient))
	case 0x48:
		e.pushBytes(e.P.BaseFee[:])
	case 0x49:
		i := e.pop()
		if i.IsInt64() && i.Int64() < int64(len(e.P.BlobHashes)) {
			e.pushBytes(e.P.BlobHashes[i.Int64()][:])
		} else {
			e.push(zero)
		}
	case 0x4a:
		e.pushBytes(e.P.BlobBaseFee[:])
	case 0x50:
		e.pop()
	case 0x51:
		off := e.pop()
		e.touch(off, big.NewInt(32))
		e.pushBytes(e.mem(off, big.NewInt(32)))
	case 0x52:
		off, v := e.pop(), e.pop()
		e.touch(off, big.NewInt(32))
		w := to32(v)
		copy(e.Mem[off.Int64():], w[:])
	case 0x53:
		off, v := e.pop(), e.pop()
		e.touch(off, one)
		e.Mem[off.Int64()] = byte(new(big.Int).And(v, big.NewInt(255)).Int64())
	case 0x54:
		k := tosca.Key(to32(e.pop()))
		if e.P.Revision >= tosca.R09_Berlin {
			if e.C.AccessStorage(e.P.Recipient, k) == tosca.ColdAccess {
				e.charge(2100)
			} else {
				e.charge(100)
			}
		}
		v := e.C.GetStorage(e.P.Recipient, k)
		e.pushBytes(v[:])
	case 0x55:
		e.sstore()
	case 0x56:
		e.jump(e.pop())
	case 0x57:
		dst, c := e.pop(), e.pop()
		if c.Sign() != 0 {
			e.jump(dst)
		}
	case 0x58:
		e.pushU(e.PC - 1)
	case 0x59:
		e.pushU(uint64(len(e.Mem)))
	case 0x5a:
		e.pushU(uint64(e.Gas))
	case 0x5b:
	case 0x5c:
		v := e.C.GetTransientStorage(e.P.Recipient, to32(e.pop()))
		e.pushBytes(v[:])
	case 0x5d:
		e.noStatic()
		k, v := e.pop(), e.pop()
		e.C.SetTransientStorage(e.P.Recipient, to32(k), to32(v))
	case 0x5e:
		dst, src, size := e.pop(), e.pop(), e.pop()
		e.touch(dst, size, src, size)
		e.perWord(3, size)
		if size.Sign() > 0 {
			data := e.mem(src, size)
			copy(e.Mem[dst.Int64():], data)
		}
	case 0x5f:
		e.push(zero)
	case 0xf0, 0xf5:
		e.create(op)
	case 0xf1, 0xf2, 0xf4, 0xfa:
		e.call(op)
	case 0xf3, 0xfd:
		off, size := e.pop(), e.pop()
		e.touch(off, size)
		e.Out = e.mem(off, size)
		if op == 0xf3 {
			e.Status = Returned
		} else {
			e.Status = Reverted
			e.Refund = 0
		}
	case 0xff:
		e.noStatic()
		ben := toAddr(e.pop())
		if e.P.Revision >= tosca.R09_Berlin && e.C.AccessAccount(ben) == tosca.ColdAccess {
			e.charge(2600)
		}
		if e.empty(ben) && e.balance(e.P.Recipient).Sign() != 0 {
			e.charge(25000)
		}
		if e.C.SelfDestruct(e.P.Recipient, ben) && e.P.Revision < tosca.R10_London {
			e.Refund += 24000
		}
		e.Status = Destructed
	default:
		panic("reference: unhandled instruction")
	}
}

func (e *EVM) copy(src []byte) {
	dst, off, size := e.pop(), e.pop(), e.pop()
	e.touch(dst, size)
	e.perWord(3, size)
	if size.Sign() > 0 {
		copy(e.Mem[dst.Int64():], padded(src, off, size))
	}
}

func (e *EVM) log(n int) {
	e.noStatic()
	off, size := e.pop(), e.pop()
	var topics []tosca.Hash
	for i := 0; i < n; i++ {
		topics = append(topics, to32(e.pop()))
	}
	e.touch(off, size)
	e.chargeBig(new(big.Int).Mul(size, big.NewInt(8)))
	e.C.EmitLog(tosca.Log{Address: e.P.Recipient, Topics: topics, Data: e.mem(off, size)})
}

// sstore follows EIP-2200, EIP-2929, and EIP-3529 in terms of the original,
// the current, and the new value of the slot.
func (e *EVM) sstore() {
	e.noStatic()
	if e.Gas <= 2300 {
		e.fail("storage write sentry")
	}
	key, val := tosca.Key(to32(e.pop())), tosca.Word(to32(e.pop()))
	load, reset, clear := int64(800), int64(5000), int64(15000)
	if e.P.Revision >= tosca.R09_Berlin {
		load, reset = 100, 5000-2100
		if e.C.AccessStorage(e.P.Recipient, key) == tosca.ColdAccess {
			e.charge(2100)
		}
	}
	if e.P.Revision >= tosca.R10_London {
		clear = 4800
	}
	orig := e.C.GetCommittedStorage(e.P.Recipient, key)
	cur := e.C.GetStorage(e.P.Recipient, key)
	e.C.SetStorage(e.P.Recipient, key, val)
	none := tosca.Word{}
	switch {
	case cur == val:
		e.charge(load)
	case orig == cur:
		if orig == none {
			e.charge(20000)
		} else {
			e.charge(reset)
			if val == none {
				e.Refund += clear
			}
		}
	default:
		e.charge(load)
		if orig != none {
			if cur == none {
				e.Refund -= clear
			} else if val == none {
				e.Refund += clear
			}
		}
		if orig == val {
			if orig == none {
				e.Refund += 20000 - load
			} else {
				e.Refund += reset - load
			}
		}
	}
}

func (e *EVM) call(op byte) {
	gas, addr := e.pop(), toAddr(e.pop())
	value := zero
	if op == 0xf1 || op == 0xf2 {
		value = e.pop()
	}
	inOff, inSize, outOff, outSize := e.pop(), e.pop(), e.pop(), e.pop()
	if op == 0xf1 && value.Sign() != 0 {
		e.noStatic()
	}
	e.touch(inOff, inSize, outOff, outSize)
	e.account(addr)
	if value.Sign() != 0 {
		e.charge(9000)
		if op == 0xf1 && e.empty(addr) {
			e.charge(25000)
		}
	}
	avail := e.Gas - e.Gas/64
	pass := avail
	if gas.IsInt64() && gas.Int64() < avail {
		pass = gas.Int64()
	}
	e.charge(pass)
	if value.Sign() != 0 {
		pass += 2300
	}
	e.Ret = nil
	if value.Sign() != 0 && e.balance(e.P.Recipient).Cmp(value) < 0 {
		e.Gas += pass
		e.push(zero)
		return
	}
	par := tosca.CallParameters{
		Sender: e.P.Recipient, Recipient: addr, Value: tosca.Value(to32(value)), Input: e.mem(inOff, inSize),
		Gas: tosca.Gas(pass), CodeAddress: addr,
	}
	kind := tosca.Call
	switch op {
	case 0xf1:
		if e.P.Static {
			kind = tosca.StaticCall
		}
	case 0xf2:
		kind = tosca.CallCode
		par.Recipient = e.P.Recipient
	case 0xf4:
		kind = tosca.DelegateCall
		par.Sender, par.Recipient, par.Value = e.P.Sender, e.P.Recipient, e.P.Value
	case 0xfa:
		kind = tosca.StaticCall
	}
	res, err := e.C.Call(kind, par)
	if err != nil {
		res = tosca.CallResult{}
	}
	e.Gas += int64(res.GasLeft)
	e.Refund += int64(res.GasRefund)
	e.Ret = append([]byte(nil), res.Output...)
	if n := min(int64(len(res.Output)), sizeOrZero(outSize)); n > 0 {
		copy(e.Mem[outOff.Int64():outOff.Int64()+n], res.Output)
	}
	e.pushBool(res.Success)
}

func sizeOrZero(v *big.Int) int64 {
	if v.Sign() == 0 {
		return 0
	}
	return v.Int64()
}

func (e *EVM) create(op byte) {
	e.noStatic()
	value, off, size := e.pop(), e.pop(), e.pop()
	kind, salt := tosca.Create, tosca.Hash{}
	if op == 0xf5 {
		kind, salt = tosca.Create2, to32(e.pop())
	}
	if e.P.Revision >= tosca.R12_Shanghai {
		if size.Cmp(big.NewInt(2*24576)) > 0 {
			e.fail("init code too large")
		}
		e.perWord(2, size)
	}
	e.touch(off, size)
	if op == 0xf5 {
		e.perWord(6, size)
	}
	e.Ret = nil
	if e.balance(e.P.Recipient).Cmp(value) < 0 {
		e.push(zero)
		return
	}
	pass := e.Gas - e.Gas/64
	e.charge(pass)
	res, err := e.C.Call(kind, tosca.CallParameters{
		Sender: e.P.Recipient, Value: tosca.Value(to32(value)), Input: e.mem(off, size), Gas: tosca.Gas(pass), Salt: salt,
	})
	if err != nil {
		res = tosca.CallResult{}
	}
	e.Gas += int64(res.GasLeft)
	e.Refund += int64(res.GasRefund)
	if res.Success {
		e.pushBytes(res.CreatedAddress[:])
	} else {
		e.Ret = append([]byte(nil), res.Output...)
		e.push(zero)
	}
}
